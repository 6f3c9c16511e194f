"""C23: every requested plot shows the data of every test."""
import plots
import vlib

TRACE = 'Trace_Plot'
RULE = ('lists of one to three tests (the same one more than once too) and of no, one or two plots, enumerated by TLC from '
        'MC_Plot, and random lists of up to five tests and twenty plots, over single and multiple exposure data and images of '
        'many shapes, some masked, in histories of up to four calls with the same tests; every curve of every figure is '
        'compared with that of Plot.tla: computed there from the data, exactly, and from the figures of a results object of '
        'its own')
ASSUMPTIONS = ['u_p_min < u_p_sat and a positive mean signal where the plot needs them',
               'of a masked image, the middle line or the next one has valid pixels',
               'the frequency axis is decided by C14, the figures by C07 to C13']
drive = plots.drive
SCENARIO_TIMEOUT = 120


def scenarios(ctx):
    r = ctx.rng
    em = ctx.mc('MC_Plot', ctx.n('MC_Plot', 'MC_Plot_deep'))
    r.shuffle(em)
    em = em[:ctx.n(160, 3500)]
    scns = []
    for k in range(0, len(em), 4):
        scns.append(dict(plots.world(r, [{'tests': e['tests'], 'plots': e['plots']} for e in em[k:k + 4]]), src='tlc'))
    for k in range(ctx.n(30, 500)):
        calls = []
        for _ in range(r.randint(1, 3)):
            calls.append({'tests': [r.choice(['d1', 'd2', 'd3', 'd1#2', 'd2#2']) for _ in range(r.randint(1, 4))],
                          'plots': [] if r.random() < .25 else [r.choice(plots.PLOTS) for _ in range(r.randint(1, 10))],
                          'fresh': r.random() < .2})
        scns.append(dict(plots.world(r, calls), layout=k % 8 == 0))
    for k in range(ctx.n(12, 200)):             # plots of the user's own, figures left open
        calls = []
        for n in range(r.randint(1, 3)):
            calls.append({'tests': [r.choice(['d1', 'd2', 'd1#2']) for _ in range(r.randint(1, 3))],
                          'plots': [r.choice(['Own1', 'Own2', 'PlotPTC', 'PlotUyDark', 'PlotLogarithmicHistogramDSNU', 'PlotHorizontalProfile'])
                                    for _ in range(r.randint(1, 3))],
                          'keep': r.random() < .7, 'mine': [r.randint(0, 3)] if r.random() < .3 else []})
        scns.append(plots.world(r, calls))
    return scns


def canaries(traces):
    out = []
    for n, t in enumerate(traces):
        if not all(not T['bad'] and T['bright_ok'] for T in t['data'].values()):
            continue
        for k, e in enumerate(t['ev']):
            if e['out'] == 'ok' and e['plots'] and 'PlotSNR' not in e['plots'] and len(set(e['tests'])) == len(e['tests']) and e['figs'] and e['figs'][0]['axes'][0]['lines']:
                ln = e['figs'][0]['axes'][0]['lines'][0]
                p = ['ev', k, 'figs', 0, 'axes', 0, 'lines', 0]
                j = n % max(1, len(ln['y']))
                if j < len(ln['y']) and ln['y'][j] not in ('nan', 'inf', '-inf'):
                    out.append(vlib.corrupt(t, p + ['y', j], vlib.bump(ln['y'][j], 1e-4)))
                out.append(vlib.corrupt(t, p + ['id'], 'other'))
                out.append(vlib.corrupt(t, p + ['label'], 'other'))
                out.append(vlib.corrupt(t, ['ev', k, 'figs'], e['figs'][:-1]))
                break
        if len(out) > 60:
            break
    return out
