"""C12: histograms count every valid pixel exactly once."""
import defect
import vlib

TRACE = 'Trace_Defect'
RULE = ('all short pixel sequences over boundary values with 1 to 9 bins (MC_Defect) and random images of every integer type, '
        'one to tens of thousands of levels, masked and not, bin limits 1 to 300, go through Histogram1288; random stacks '
        '(masked by colour and not, dark and bright) through the four histograms of Results1288; bins, counts, model and '
        'percentages are compared with Histogram.tla and HighPass.tla in exact arithmetic')
ASSUMPTIONS = ['the model curve is compared for images of at least two different values, relative 1e-8',
               'PRNU histograms: bright and dark stacks of one size, colour masks of one period']
drive = defect.drive

DTS = {'u1': (0, 255), 'i1': (-128, 127), 'u2': (0, 65535), 'i2': (-32768, 32767), 'i4': (-10**6, 10**6), 'u4': (0, 10**6),
       'i8': (-10**9, 10**9), 'u8': (0, 10**9)}


def scenarios(ctx):
    r = ctx.rng
    calls = []
    for e in ctx.mc('MC_Defect', ctx.n('MC_Defect', 'MC_Defect_deep')):
        if e['mode'] == 'h':
            calls.append({'e': 'hist', 'img': [e['s']], 'dt': r.choice(['u1', 'i8', 'i2']), 'qmax': e['q']})
    if len(calls) > 8000:
        calls = r.sample(calls, 8000)
    scns = [{'src': 'tlc', 'calls': calls[i:i + 50]} for i in range(0, len(calls), 50)]
    calls = []
    for _ in range(ctx.n(400, 6000)):
        dt = r.choice(list(DTS))
        lo, hi = DTS[dt]
        h, w = r.randint(1, 6), r.randint(1, 8)
        style = r.choice(['full', 'narrow', 'edge', 'few', 'power'])
        base = r.randint(lo, hi)
        span = r.choice([1, 2, 5, 20, 255, 256, 257, 300, 511, 512, 513, 1000])

        def px():
            if style == 'full':
                return r.randint(lo, hi)
            if style == 'edge':
                return r.choice([lo, hi, hi, lo + 1])
            if style == 'power':
                return max(lo, min(hi, base + r.choice([0, 1, 255, 256, 512, 768, 1024])))
            return max(lo, min(hi, base + r.randint(0, span if style == 'narrow' else 3)))
        img = [[px() for _ in range(w)] for _ in range(h)]
        m = None if r.random() < .6 else defect.anymask(r, h, w) if r.random() < .8 else 'nomask'
        q = r.choice([1, 2, 3, 7, 10, 16, 100, 256, 256, 256, 255, 300])
        calls.append({'e': 'hist', 'img': img, 'dt': dt, 'qmax': q, 'mask': m})
    for _ in range(ctx.n(200, 3000)):
        h, w = r.randint(5, 8), r.randint(5, 9)
        L = r.choice([2, 3, 8, 100])
        lev = r.choice([1, 4, 30, 300, 5000])
        sd = [[r.randint(0, lev) * r.choice([1, 1, 1, 3]) for _ in range(w)] for _ in range(h)]
        s = [[x + r.randint(0, 3 * lev) + lev for x in row] for row in sd]
        m = None if r.random() < .5 else defect.bayer(r, h, w)
        if m and (all(all(row[2:-2]) for row in m[2:-2])):
            m = None
        for e in ('dsnu', 'dsnu_acc', 'prnu', 'prnu_acc'):
            calls.append({'e': e, 'sum': s, 'sum_dark': sd, 'L': L, 'L_dark': L if 'prnu' in e else r.choice([L, 2, 7]), 'mask': m})
            if m and 'dsnu' in e and r.random() < .5:
                calls[-1]['mask'] = defect.anymask(r, h, w)
    return scns + [{'calls': calls[i:i + 10]} for i in range(0, len(calls), 10)]


def canaries(traces):
    out = []
    for t in traces[::max(1, len(traces) // 20)]:
        for f in ('bins', 'values', 'model'):
            for k, e in enumerate(t['ev']):
                if e['out'] == 'ok' and e[f] and 'acc' not in e['e'] and e[f][0] != 'nan':
                    out.append(vlib.corrupt(t, ['ev', k, f, 0], vlib.bump(e[f][0], 1)))
                    break
    return out
