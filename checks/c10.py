"""C10: linearity is the relative-error-minimising line of the standard."""
import vlib
import res

TRACE = 'Trace_Results'
RULE = ('random cameras, whole-number series and the small series of MC_Results go through Results1288; slope and offset are '
        'compared with the exact minimiser RelLine of Results.tla, deviations with their definition for every point of the '
        'series, the errors with the extremes over the range, end points included')
ASSUMPTIONS = ['at least two different photon counts and positive signals in the range',
               'predicted values relative 1e-9, plus 1e-13 times the condition of the normal equations']
drive = res.drive


def scenarios(ctx):
    r = ctx.rng
    calls = []
    for e in ctx.mc('MC_Results', ctx.n('MC_Results', 'MC_Results_deep')):
        if e['mode'] == 'y' and len(e['s']) > 1:
            for f in {len(e['s']) - 1, r.randrange(len(e['s']))}:
                calls.append({'part': 'lin', 'd': res.from_y(e['s']), 'forced': f})
    scns = res.chunks(calls, 20, 'tlc')
    calls = []
    for _ in range(ctx.n(700, 10000)):
        d = res.camera(r, n=r.choice([3, 4, 5, 6, 8, 8, 10, 12, 15, ctx.n(15, 50)])) if r.random() < .7 else res.whole(r)
        # deviations at the ends of the range
        if r.random() < .4:
            for i in {0, len(d['u_y']) - 1, r.randrange(len(d['u_y']))}:
                d['u_y'][i] += r.uniform(-.02, .02) * max(d['u_y'])
        f = None if r.random() < .6 else r.randrange(len(d['u_p']))
        calls.append({'part': 'lin', 'd': d, 'forced': f})
    return scns + res.chunks(calls, 10)


def canaries(traces):
    out = res.corrupted(traces[-40:], res.PARTS['lin'])
    for t in traces[-40:]:
        for k, e in enumerate(t['ev']):
            if len(e['d']['u_p']) >= 8 and e['lin']['o'] == 'ok':
                out.append(vlib.corrupt(t, ['ev', k, 'lin', 'min'], vlib.bump(e['lin']['min'], 1e-6)))
                break
    return out
