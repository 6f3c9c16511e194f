"""C11: spatial nonuniformity figures split the spatial variance exactly."""
import prep
import res
import stack

TRACE = 'Trace_Results'
RULE = ('spatial statistics (all small ones of MC_Results, random ones, and those of real stacks that went through loader and '
        'Data1288; bright and dark stacks of different sizes) go through Results1288; variances, their column, row and pixel '
        'parts, DSNU and PRNU are compared with Results.tla in exact arithmetic')
ASSUMPTIONS = ['M, N at least 2 and not both 2, gain and dark-corrected mean not 0',
               'parts to 1e-11 of the sum of the magnitudes of their terms; where a variance is that close to 0, NaN and a '
               'number are both accepted']
drive = res.drive


def part(r, M, N):
    style = r.choice(['pos', 'pos', 'any', 'zero', 'none'])
    mes = r.uniform(0, 1) * 10 ** r.uniform(-2, 4)
    stk = mes * r.choice([0, .1, .9, 1.5, 30])
    cav = mes * r.choice([0, .1, .3, .6]) * (r.choice([1, -1]) if style == 'any' else 1)
    rav = mes * r.choice([0, .1, .3, .7]) * (r.choice([1, -1]) if style == 'any' else 1)
    if style == 'none':
        mes = stk = cav = rav = 0
    if style == 'zero':
        stk = cav = rav = 0
    return {'mes': mes, 'stack': stk, 'cav': cav, 'rav': rav, 'L': r.choice([2, 3, 16, 100]), 'M': M, 'N': N,
            'mean': r.uniform(0, 100)}


def scenarios(ctx):
    r = ctx.rng
    calls = []
    cam = [res.camera(r, n=r.choice([4, 6]), over=r.choice([.9, 1.2])) for _ in range(60)]
    splits = [e['s'] for e in ctx.mc('MC_Results', ctx.n('MC_Results', 'MC_Results_deep')) if e['mode'] == 'split']
    for s in splits:
        u = r.choice([x for x in splits if x[4:] == s[4:]])
        f = [dict(zip(('mes', 'stack', 'cav', 'rav'), x[:4]), L=l, M=x[4], N=x[5], mean=m) for x, l, m in ((s, 4, 30), (u, 3, 2))]
        calls.append({'part': 'spat', 'd': r.choice(cam), 'sp': {'bright': f[0], 'dark': f[1]}})
    scns = res.chunks(calls, 10, 'tlc')
    calls = []
    for _ in range(ctx.n(300, 6000)):
        M, N = r.choice([(2, 3), (3, 2), (3, 3), (4, 7), (480, 640), (1000, 2), (2048, 2048), (r.randint(2, 50), r.randint(3, 50))])
        b, d = part(r, M, N), part(r, M, N)
        b['mean'] += d['mean'] + 1
        calls.append({'part': 'spat', 'd': r.choice(cam), 'sp': {'bright': b, 'dark': d}})
    for _ in range(ctx.n(150, 2000)):
        h, w = r.choice([(2, 3), (3, 2), (4, 4), (3, 6), (7, 2)])
        bits = r.choice([8, 12, 16])
        top = (1 << bits) - 1
        base = [[r.randint(0, 6) for _ in range(w)] for _ in range(h)]
        gain = [[r.uniform(.9, 1.1) for _ in range(w)] for _ in range(h)]
        col = [r.choice([0, 0, 3]) for _ in range(w)]
        level = r.choice([.2, .5, .8]) * top
        noise = r.choice([0, 1, 1, 4])

        def img(bright):
            return [[int(max(0, min(top, base[y][x] + col[x] + r.gauss(4, noise) + (level * gain[y][x] if bright else 0))))
                     for x in range(w)] for y in range(h)]
        sp = [{'exp': 5, 'ph': p, 'imgs': [img(p) for _ in range(r.choice([2, 3, 5, 12]))]} for p in (0, 100)]
        tp = [{'exp': 5, 'ph': p, 'imgs': stack.images(r, 2, h, w, 6, 'any') if not p else
               [[[x + 40 * p for x in row] for row in i] for i in stack.images(r, 2, h, w, 7, 'any')]} for p in range(0, 6)]
        calls.append({'part': 'spat', 'stack': {'tp': tp, 'sp': sp}})
    return scns + res.chunks(calls, 10)


def canaries(traces):
    return res.corrupted(traces, [n for n in res.PARTS['spat'] if n != 'K'])
