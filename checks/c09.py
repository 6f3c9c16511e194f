"""C09: temporal dark noise and dark current follow the exposure series."""
import res

TRACE = 'Trace_Results'
RULE = ('exposure series with one, two and more distinct times (scaled from 1e3 to 1e9 ns, in any order, with repetitions), '
        'rising, falling, flat and negative dark variances and means, below and above the 0.24 floor, go through '
        'Results1288; compared with the exact least-squares lines of Results.tla')
ASSUMPTIONS = ['offset and slopes to 1e-6 of the largest value plus 5e-4 of the residual (the solver stops there), amplified by the spread of the exposure times',
               'a variance slope within that of zero may be reported as NaN or as a number']
drive = res.drive


def series(r):
    d = res.camera(r, n=r.choice([3, 4, 5, 6, 9, 20]), texp='one', over=r.choice([.8, 1.02, 1.2]))
    n = len(d['u_p'])
    k = r.choice([1, 2, 3, 3, 4, n, n, n])
    scale = 10 ** r.uniform(0, 8)
    if r.random() < .5:
        ts = [scale * (i + 1) for i in range(k)]
    else:
        ts = [scale * r.uniform(1, 20) for _ in range(k)]
    if r.random() < .3:
        ts = [float(round(x)) + 1 for x in ts]
    tx = [ts[i % k] for i in range(n)]
    r.choice([tx.sort, lambda: r.shuffle(tx), lambda: tx.sort(reverse=True), lambda: None])()
    style = r.choice(['line', 'noise', 'flat', 'small', 'whole'])
    top = max(tx)
    a = r.choice([.01, .1, 1, 5]) * r.choice([1, 1, 1, -1])
    b = r.choice([-.5, 0, .05, .1, .2, .24, .3, 1, 5, 30])
    if style == 'line':
        v = [b + a * t / top for t in tx]
    elif style == 'noise':
        v = [b + a * t / top + r.gauss(0, .3) for t in tx]
    elif style == 'flat':
        v = [b] * n
    elif style == 'small':
        v = [r.uniform(.2, .28) for t in tx]
    else:
        v = [r.randint(-2, 4) for t in tx]
    d['texp'], d['s2_ydark'] = tx, v
    base = r.choice([0, 3, 20])
    d['u_ydark'] = [base + a * 7 * t / top * r.choice([1, 1, 1.01]) + (r.gauss(0, .1) if style != 'line' else 0) for t in tx]
    d['u_y'] = [y + u for y, u in zip(d['u_y'], d['u_ydark'])]
    d['s2_y'] = [y + u for y, u in zip(d['s2_y'], d['s2_ydark'])]
    return d


def small(e, r):
    """The signal series of MC_Results as dark series."""
    s = e['s']
    n = len(s)
    return {'texp': [r.choice([1, 10, 1000]) * (i + 1) for i in range(n)] if r.random() < .8 else s, 'u_p': [3 * (i + 1) for i in range(n)],
            'u_y': [20 * (i + 1) for i in range(n)], 'u_ydark': s[::-1],
            's2_y': [30 * (i + 1) for i in range(n)], 's2_ydark': [(x - 2) / 8 for x in s]}


def scenarios(ctx):
    r = ctx.rng
    calls = []
    for e in ctx.mc('MC_Results', ctx.n('MC_Results', 'MC_Results_deep')):
        if e['mode'] == 'y' and len(e['s']) > 1:
            calls.append({'part': 'dark', 'd': small(e, r)})
    scns = res.chunks(calls, 20, 'tlc')
    calls = [{'part': 'dark', 'd': series(r)} for _ in range(ctx.n(800, 12000))]
    return scns + res.chunks(calls, 10)


def canaries(traces):
    return res.corrupted(traces, res.PARTS['dark'][1:])
