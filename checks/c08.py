"""C08: sensitivity results are the standard functions of the temporal data."""
import res

TRACE = 'Trace_Results'
RULE = ('random cameras (gain 0.003 to 10 DN/e-, 8 to 16 bit, noisy, saturated early, late or not at all), whole-number series '
        'and the small series of MC_Results go through Results1288, with and without pixel area and forced saturation; '
        'gain and responsivity are compared with the exact least-squares slopes of Results.tla, every other figure with '
        'its formula applied to the reported gain, responsivity, dark noise and data')
ASSUMPTIONS = ['slopes to 1e-6 of the sum of the magnitudes of their terms plus 5e-4 of the residual (the solver stops there), derived figures relative 1e-9',
               'the fit range holds at least one point']
drive = res.drive


def scenarios(ctx):
    r = ctx.rng
    calls = []
    for e in ctx.mc('MC_Results', ctx.n('MC_Results', 'MC_Results_deep')):
        if e['mode'] == 'y':
            calls.append({'part': 'sens', 'd': res.from_y(e['s']), 'area': r.choice([None, 4.5]),
                          'forced': r.choice([None, len(e['s']) - 1])})
    scns = res.chunks(calls, 20, 'tlc')
    calls = []
    for _ in range(ctx.n(500, 8000)):
        d = res.camera(r) if r.random() < .75 else res.whole(r)
        f = None if r.random() < .8 else r.randrange(len(d['u_p']))
        calls.append({'part': 'sens', 'd': d, 'forced': f, 'area': r.choice([None, 0, 1, 2.25, 30.25, 12, .01, 1e4])})
    return scns + res.chunks(calls, 10)


def canaries(traces):
    return res.corrupted(traces, res.PARTS['sens'])
