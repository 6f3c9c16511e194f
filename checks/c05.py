"""C05: temporal statistics are those of the two-image method."""
import prep

TRACE = 'Trace_Prep'
RULE = ('pairs of images and sets of measurement points (all small ones from MC_DataPrep, and random series with one or many '
        'exposures, 8 to 16 bit, shuffled) go through the real loader and Data1288; the temporal arrays are compared with the '
        'two-image definitions of DataPrep.tla in exact arithmetic, incomplete series must raise ValueError')
ASSUMPTIONS = ['mean relative 1e-12; variance within 1e-10 of the mean squared difference',
               'two images of one shape per temporal point, one dark per exposure']
drive = prep.drive


def scenarios(ctx):
    r = ctx.rng
    scns = []
    small = {}
    for shape in ((1, 2), (2, 2), (1, 1)):
        small[shape] = [{'exp': 4, 'ph': p, 'imgs': [[[p + k + y + x for x in range(shape[1])] for y in range(shape[0])] for k in range(3)]} for p in (0, 9)]
    em = ctx.mc('MC_DataPrep', ctx.n('MC_DataPrep', 'MC_DataPrep_deep'))
    calls = []
    for e in em:
        if e['mode'] == 't':
            z = [[[3, 3]], [[4, 3]]]
            calls.append({'part': 't', 'sp': small[1, 2],
                          'tp': [{'exp': 1, 'ph': 0, 'imgs': z}, {'exp': 1, 'ph': 5, 'imgs': e['imgs']}]})
        elif e['mode'] == 'p':
            tp = [{'exp': x, 'ph': p, 'imgs': [[[x * 10 + p, x]], [[x + p * 7, 3 * x]]]} for x, p in e['pts']]
            calls.append({'part': 't', 'sp': small[1, 2], 'tp': tp})
    for i in range(0, len(calls), 10):
        scns.append({'src': 'tlc', 'calls': calls[i:i + 10]})
    for _ in range(ctx.n(250, 3000)):
        shape = (r.randint(1, 5), r.randint(1, 6))
        sp = [{'exp': 4, 'ph': p, 'imgs': [[[p + k + y + x for x in range(shape[1])] for y in range(shape[0])] for k in range(3)]} for p in (0, 9)]
        scns.append({'calls': [{'part': 't', 'sp': sp, 'tp': prep.temporal(r, shape, r.random() < .85)}]})
    return scns


def canaries(traces):
    return prep.canaries(traces, 't')
