"""C07: saturation point and fit ranges follow the standard."""
import res

TRACE = 'Trace_Results'
RULE = ('every small variance series and signal series enumerated by MC_Results, and random cameras and noisy or whole-number '
        'series, with and without a forced index (0 included), go through Results1288; the five indices are compared with '
        'Saturation, SensMax, LinMin and LinMax of Results.tla')
ASSUMPTIONS = ['points within 1e-9 of the saturation signal of a limit are decided by rounding and are not compared, except '
               'where the saturation signal is 20 or 100 and the limits are exact',
               'variances are not negative; a range that holds no point is not compared']
drive = res.drive


def scenarios(ctx):
    r = ctx.rng
    calls = []
    for e in ctx.mc('MC_Results', ctx.n('MC_Results', 'MC_Results_deep')):
        if e['mode'] == 's2':
            calls.append({'part': 'idx', 'd': res.from_s2(e['s'], r)})
        elif e['mode'] == 'y':
            for f in [None] + list(range(len(e['s']))):
                calls.append({'part': 'idx', 'd': res.from_y(e['s']), 'forced': f})
    scns = res.chunks(calls, 50, 'tlc')
    calls = []
    for _ in range(ctx.n(800, 20000)):
        d = res.camera(r) if r.random() < .6 else res.whole(r)
        if r.random() < .3:     # signals that leave the ranges and come back
            for _ in range(r.choice([1, 1, 2, 4])):
                i = r.randrange(len(d['u_p']))
                top = max(d['u_y'][j] - d['u_ydark'][j] for j in range(len(d['u_p'])))
                d['u_y'][i] = d['u_ydark'][i] + top * r.choice([0, .01, .04, .06, .3, .6, .8, .94, .97, 1])
        f = None if r.random() < .7 else r.randrange(len(d['u_p']))
        calls.append({'part': 'idx', 'd': d, 'forced': f})
    return scns + res.chunks(calls, 20)


def canaries(traces):
    return res.corrupted(traces, res.PARTS['idx'])
