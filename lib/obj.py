"""Histories of Results1288 objects: driver and generators."""
import copy

import defect
import res
import stack
import vlib

FIGURES = sorted(set(sum(res.PARTS.values(), []))
                 | {'index_start', 'histogram_DSNU', 'histogram_DSNU_accumulated', 'histogram_PRNU',
                    'histogram_PRNU_accumulated'})
HISTS = [f for f in FIGURES if f.startswith('histogram')]
GROUPS = {'scalar': [f for f in FIGURES if f not in HISTS], 'hist': HISTS, 'lin': ['linearity', 'LE_min', 'LE_max', 'linearity']}


def data(spec):
    import numpy as np
    tp = {k: np.array(spec['tp'][k], dtype=np.float64) for k in res.TKEYS}
    sp = dict(spec['sp'])
    for k in ('sum', 'sum_dark'):
        sp[k] = defect.masked(sp[k], spec['mask'] or [], 'i8')
    return {'temporal': tp, 'spatial': sp}


def value(o, v):
    import numpy as np
    if o == 'ok' and v is None:
        o = 'none'
    if o != 'ok':
        return {'o': o, 'k': [], 'v': []}
    if isinstance(v, dict):
        ks = sorted(v)
        return {'o': o, 'k': ks, 'v': [[vlib.num(x) for x in np.ma.filled(np.ma.asarray(v[k], dtype=float), np.nan).ravel()] for k in ks]}
    return {'o': o, 'k': [''], 'v': [[vlib.num(v)]]}


def ask(r, f):
    def get():
        v = getattr(r, f)
        return v() if callable(v) else v
    return vlib.call(get)


def spoil(v):
    """Change a returned object as a caller might."""
    import numpy as np
    if isinstance(v, dict):
        for x in list(v.values()):
            spoil(x)
        for k in list(v)[::2]:
            v[k] = 'changed'
        if len(v) > 1:
            v.pop(sorted(v)[0])
    elif isinstance(v, np.ndarray) and v.ndim and v.flags.writeable:
        v[...] = 77
        v.sort()


def drive(scn, d):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from emva1288.process import plotting
    from emva1288.process.results import Results1288
    combos = [(dd, a) for dd in sorted(scn['data']) for a in sorted(scn['args'])]
    names = ['%s/%s' % c for c in combos]
    kw = {}
    for a, x in scn['args'].items():
        kw[a] = {k: v for k, v in x.items() if v is not None}
    ref = {}
    for (dd, a), n in zip(combos, names):
        ref[n] = {}
        for f in FIGURES + ['linearity']:
            ref[n][f] = value(*ask(Results1288(data(scn['data'][dd]), **kw[a]), f))
    store = {dd: data(x) for dd, x in scn['data'].items()}

    def digest():
        return '-'.join(stack.digest(store[k][p]) for k in sorted(store) for p in ('temporal', 'spatial'))
    out = {'ref': ref, 'h0': digest(), 'ev': []}
    objs, last = [], None
    for op in scn['h']:
        e = {'op': op['op']}
        if op['op'] == 'new':
            dd, a = str(op['d']), str(op['a'])
            e['x'] = '%s/%s' % (dd, a)
            objs.append(Results1288(store[dd], **kw[a]))
        elif op['op'] == 'read':
            o, last = ask(objs[op['o'] - 1], op['f'])
            e.update(o=op['o'], f=op['f'], val=value(o, last))
        elif op['op'] == 'cat':
            r = objs[op['o'] - 1]
            e['o'] = op['o']
            o, last = vlib.call(lambda: r.results if op['by'] == 'flat' else r.results_by_section)
            e['out'], e['rows'] = o, []
            if o == 'ok':
                pairs = [(n, i['section'], i) for n, i in last.items()] if op['by'] == 'flat' else \
                    [(n, s, i) for s in last for n, i in last[s].items()]
                # several arrays under data, a number under value
                e['rows'] = [{'name': n, 'section': s, 'val': value('ok', i['data']) if isinstance(i.get('data'), dict) else
                              value('ok', i['value']) if 'value' in i and 'data' not in i and not isinstance(i['value'], dict) else
                              {'o': 'missing', 'k': [], 'v': []}} for n, s, i in pairs]
        elif op['op'] == 'mutate':
            spoil(last)
        elif op['op'] == 'plot':
            vlib.call(lambda: plotting.Plotting1288(objs[op['o'] - 1]).plot(*[plotting.EVMA1288plots[k] for k in op['plots']]))
            plt.close('all')
        elif op['op'] == 'xml':
            r = objs[op['o'] - 1]
            vlib.call({'xml': r.xml, 'file': lambda: r.xml('out.xml'), 'print': r.print_results}[op['how']])
        e['h'] = digest()
        out['ev'].append(e)
    return out


# ---------------------------------------------------------------- generators

def dataset(r):
    tp = res.camera(r) if r.random() < .7 else res.whole(r)
    h, w = r.randint(5, 7), r.randint(5, 7)
    lev = r.choice([3, 10, 60])
    L, Ld = r.choice([2, 3, 10]), r.choice([2, 3, 10])
    dark = [[r.randint(0, lev) for _ in range(w)] for _ in range(h)]
    bright = [[x + 2 * lev + r.randint(0, lev) for x in row] for row in dark]
    sp = {'sum': bright, 'sum_dark': dark, 'texp': 1000., 'u_p': 55.5}
    for f, big in (('', 10), ('_dark', 1)):
        sp.update({'L' + f: Ld if f else L, 'M' + f: h, 'N' + f: w, 'avg_var' + f: r.uniform(2, 4) * big, 'avg_mean' + f: 20. * big,
                   'var_mean' + f: r.uniform(.5, 3), 'avg_var_cav' + f: r.uniform(-.2, 1) * big, 'avg_var_rav' + f: r.uniform(-.2, 1) * big})
    return {'tp': tp, 'sp': sp, 'mask': defect.bayer(r, h, w, (2, 2)) if r.random() < .25 else None}


def args(r, n):
    if r.random() < .25:
        return {}
    return {'pixel_area': r.choice([None, 20.25, 1]), 'index_u_ysat': r.choice([None, 0, 1, n - 1]),
            'loglevel': r.choice([None, 30])}


def fill(r, h):
    """Concrete figures for the reads of a history."""
    out = []
    for op in h:
        op = dict(op)
        if op['op'] == 'read':
            op['f'] = r.choice(GROUPS[op['g']])
        elif op['op'] == 'cat':
            op['by'] = r.choice(['flat', 'section'])
        elif op['op'] == 'plot':
            op['plots'] = r.sample(range(16), r.choice([1, 1, 2]))
        elif op['op'] == 'xml':
            op['how'] = r.choice(['xml', 'file', 'print'])
        out.append(op)
    return out


def world(r, h):
    ds = {str(k): dataset(r) for k in (1, 2)}
    n = min(len(x['tp']['u_p']) for x in ds.values())
    return {'data': ds, 'args': {'1': args(r, n), '2': args(r, n)}, 'h': fill(r, h)}


def longer(r, n):
    h = [{'op': 'new', 'd': 1, 'a': 1}, {'op': 'new', 'd': 2, 'a': 1}, {'op': 'new', 'd': 1, 'a': 2}]
    k = 3
    while len(h) < n:
        x = r.random()
        if x < .05:
            h.append({'op': 'new', 'd': r.choice([1, 2]), 'a': r.choice([1, 2])})
            k += 1
        elif x < .7:
            h.append({'op': 'read', 'o': r.randint(1, k), 'g': r.choice(['scalar', 'scalar', 'scalar', 'hist', 'lin'])})
            if r.random() < .4:
                h.append({'op': 'mutate'})
        elif x < .8:
            h.append({'op': 'cat', 'o': r.randint(1, k)})
            if r.random() < .5:
                h.append({'op': 'mutate'})
        elif x < .9:
            h.append({'op': 'plot', 'o': r.randint(1, k)})
        else:
            h.append({'op': 'xml', 'o': r.randint(1, k)})
    return h
