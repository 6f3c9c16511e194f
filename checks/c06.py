"""C06: spatial statistics are those of the image stack."""
import prep

TRACE = 'Trace_Prep'
RULE = ('stacks of images (all small ones from MC_DataPrep, and random ones of 2 to 17 images, 8 to 16 bit, different numbers '
        'of dark and bright images, any aspect) go through the real loader and Data1288; sums, means and variances are '
        'compared with the definitions of DataPrep.tla in exact arithmetic, other point sets must raise ValueError')
ASSUMPTIONS = ['means relative 1e-12, variances relative 1e-9 plus 1e-14 of the squared level',
               'at least two images and two pixels']
drive = prep.drive


def tpoints(shape):
    return [{'exp': 4, 'ph': p, 'imgs': [[[p + k + y + x for x in range(shape[1])] for y in range(shape[0])] for k in range(2)]} for p in (0, 9)]


def scenarios(ctx):
    r = ctx.rng
    scns, calls = [], []
    em = ctx.mc('MC_DataPrep', ctx.n('MC_DataPrep', 'MC_DataPrep_deep'))
    stacks = [e['imgs'] for e in em if e['mode'] == 's' and len(e['imgs']) >= 2]
    for s in stacks:
        calls.append({'part': 's', 'tp': tpoints((2, 2)),
                      'sp': [{'exp': 1, 'ph': 0, 'imgs': r.choice(stacks)}, {'exp': 1, 'ph': 5, 'imgs': s}]})
    for e in em:
        if e['mode'] == 'p':
            sp = [{'exp': x, 'ph': p, 'imgs': [[[x * 10 + p, x], [1, 2]], [[x + p * 7, 3 * x], [0, p]]]} for x, p in e['pts']]
            calls.append({'part': 's', 'tp': tpoints((2, 2)), 'sp': sp})
    for i in range(0, len(calls), 10):
        scns.append({'src': 'tlc', 'calls': calls[i:i + 10]})
    for _ in range(ctx.n(250, 3000)):
        shape = r.choice([(r.randint(1, 5), r.randint(2, 6)), (1, 7), (7, 1), (6, 2), (3, 9)])
        scns.append({'calls': [{'part': 's', 'tp': tpoints(shape), 'sp': prep.spatial(r, shape, r.random() < .85)}]})
    return scns


def canaries(traces):
    return prep.canaries(traces, 's')
