"""Plots: driver and generators."""
import json

import defect
import obj
import res
import stack
import vlib

FIGS = ['R', 'K', 'QE', 'sigma_d', 'u_p_min', 'u_p_sat', 'DSNU1288', 'PRNU1288', 'DSNU1288_DN', 'sigma_2_y_stack',
        'sigma_2_y_stack_dark', 'index_u_ysat', 'index_sensitivity_min', 'index_sensitivity_max', 'index_linearity_min',
        'index_linearity_max']
HISTS = ['DSNU', 'PRNU', 'DSNU_accumulated', 'PRNU_accumulated']


def numbers(a):
    import numpy as np
    a = np.ma.filled(np.ma.asarray(a, dtype=float), np.nan)
    return [vlib.num(x) for x in np.ravel(a)]


def test(spec):
    """A test as the specification sees it: figures of objects of their own."""
    import numpy as np
    from emva1288.process.results import Results1288

    def one():
        return Results1288(obj.data(spec))
    T = {'bad': [], 'f': {}, 'd': {k: numbers(one().temporal[k]) for k in res.TKEYS}, 'mask': spec['mask'] or [],
         'bright': spec['sp']['sum'], 'dark': spec['sp']['sum_dark'], 'L': spec['sp']['L'], 'Ld': spec['sp']['L_dark']}
    for f in FIGS:
        v = obj.value(*obj.ask(one(), f))
        if v['o'] != 'ok':
            T['bad'].append(f)
        T['f'][f] = (v['v'][0][0] if not f.startswith('index') else int(vlib.frac(v['v'][0][0]))) if v['o'] == 'ok' else \
            0 if f.startswith('index') else 'nan'
    o, lin = obj.ask(one(), 'linearity')
    if o != 'ok':
        T['bad'].append('linearity')
    T['lin'] = {'a': vlib.num(lin['fit_slope']), 'b': vlib.num(lin['fit_offset']), 'dev': numbers(lin['relative_deviation'])} \
        if o == 'ok' else {'a': 0, 'b': 0, 'dev': []}
    T['hist'] = {}
    for h in HISTS:
        o, v = obj.ask(one(), 'histogram_' + h)
        if o != 'ok':
            T['bad'].append(h)
        T['hist'][h] = {k: numbers(x) for k, x in v.items()} if o == 'ok' else {}
    m = np.ma.mean(defect.masked([[x / T['L'] for x in row] for row in spec['sp']['sum']], T['mask'], 'f8')
                   - defect.masked([[x / T['L'] for x in row] for row in spec['sp']['sum_dark']], T['mask'], 'f8'))
    T['bright_ok'] = bool(m > 1e-6)
    return T


OWN = {'name': 'Own', 'title': '', 'xlabel': '', 'ylabel': '', 'xscale': '', 'yscale': ''}


def own_plot(plotting, c, name, log):
    """A plot as users write them: of the signal over the exposure."""
    def plot(self, test):
        log.append([name, str(test.id)])
        self.ax.plot(test.temporal['u_p'], test.temporal['u_y'], label='Mine', gid='%d:data' % test.id)

    def rearrange(self):
        log.append([name, 'end'])
        plotting.Emva1288Plot.rearrange(self)
    return type(name, (plotting.Emva1288Plot,), dict({k: v for k, v in c.items() if v}, plot=plot, rearrange=rearrange))


def drive(scn, d):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    from emva1288.process import plotting
    from emva1288.process.results import Results1288
    T = {n: test(s) for n, s in scn['data'].items()}
    store = {n: obj.data(s) for n, s in scn['data'].items()}
    objs = {}

    def digest():
        return '-'.join(stack.digest(store[k][p]) for k in sorted(store) for p in ('temporal', 'spatial'))
    def lines(f):
        axes = []
        for ax in f.axes:
            got = []
            for ln in ax.lines:
                i, _, kind = str(ln.get_gid()).partition(':')
                got.append({'id': i, 'kind': kind, 'label': str(ln.get_label()),
                            'x': numbers(ln.get_xdata()), 'y': numbers(ln.get_ydata())})
            axes.append({'title': ax.get_title(), 'x': ax.get_xlabel(), 'y': ax.get_ylabel(), 'lines': got,
                         'scale': [ax.get_xscale(), ax.get_yscale()], 'view': numbers(ax.get_xlim()) + numbers(ax.get_ylim())})
        return axes

    def mark(k):
        return json.dumps(lines(plt.figure(k))) if plt.fignum_exists(k) else 'gone'
    out = {'data': T, 'h0': digest(), 'ev': [], 'custom': {n: dict(OWN, **c) for n, c in scn.get('custom', {}).items()}}
    log = []
    custom = {n: own_plot(plotting, c, n, log) for n, c in scn.get('custom', {}).items()}
    keep = Figure.tight_layout
    if not scn.get('layout'):
        Figure.tight_layout = lambda self, *a, **k: None
    try:
        for c in scn['calls']:
            ts = []
            for n in c['tests']:
                if n not in objs or c.get('fresh'):
                    objs[n] = Results1288(store[n.split('#')[0]])
                    if scn['ids'].get(n):
                        objs[n].id = scn['ids'][n]
                ts.append(objs[n])
            given = [getattr(x, 'id', 0) for x in ts]
            for k in c.get('mine', []):                 # a figure of the user
                plt.figure(k).add_subplot(111).plot([1, 2], [3, k])
            open_ = {k: mark(k) for k in plt.get_fignums()}
            del log[:]
            o, _ = vlib.call(lambda: plotting.Plotting1288(*ts).plot(
                *[custom[p] if p in custom else getattr(plotting, p) for p in c['plots']]))
            figs = []
            now = {k: mark(k) for k in open_}
            for k in plt.get_fignums():
                if k in open_:
                    continue
                f = plt.figure(k)
                axes = lines(f)
                figs.append({'title': f._suptitle.get_text() if f._suptitle else axes[0]['title'] if axes else '', 'axes': axes})
            if not c.get('keep') or o != 'ok':
                plt.close('all')
            out['ev'].append({'out': o, 'plots': c['plots'], 'tests': [n.split('#')[0] for n in c['tests']], 'objs': c['tests'],
                              'given': [str(g) if g else '' for g in given], 'ids': [str(getattr(x, 'id', '')) for x in ts],
                              'figs': figs, 'old': [open_[k] for k in open_], 'now': [now[k] for k in open_], 'log': list(log),
                              'h': digest()})
        return out
    finally:
        plt.close('all')
        Figure.tight_layout = keep


# --------------------------------------------------------------- generators

def dataset(r):
    s = obj.dataset(r)
    if r.random() < .7:
        for _ in range(20):
            s['tp'] = res.camera(r, n=r.choice([4, 6, 10, 25]))
            if len(s['tp']['u_p']) >= 4:
                break
    if r.random() < .3:                       # noise-free points: not shown in the SNR plot
        n = len(s['tp']['u_p'])
        for k in r.sample(range(n), r.choice([1, 1, 2])):
            s['tp']['s2_y'][k] = 0.
    sp = s['sp']
    if r.random() < .8:
        sp['L'] = sp['L_dark']
    if r.random() < .4:                       # other shapes
        h, w = r.choice([(1, 8), (8, 1), (2, 9), (9, 4), (12, 5), (3, 3)])
        lev = r.choice([5, 30])
        sp['sum_dark'] = [[r.randint(0, lev) for _ in range(w)] for _ in range(h)]
        sp['sum'] = [[x + 3 * lev + r.randint(0, lev) for x in row] for row in sp['sum_dark']]
        s['mask'] = None
        if r.random() < .4 and h > 1 and w > 1:
            s['mask'] = defect.bayer(r, h, w, (2, 2))
        for f in ('', '_dark'):
            sp['M' + f], sp['N' + f] = max(h, 3), max(w, 3)
    return s


PLOTS = ['PlotPTC', 'PlotSNR', 'PlotSensitivity', 'PlotUyDark', 'PlotLinearity', 'PlotDeviationLinearity',
         'PlotHorizontalSpectrogramPRNU', 'PlotHorizontalSpectrogramDSNU', 'PlotVerticalSpectrogramPRNU',
         'PlotVerticalSpectrogramDSNU', 'PlotLogarithmicHistogramDSNU', 'PlotLogarithmicHistogramPRNU',
         'PlotAccumulatedLogHistogramDSNU', 'PlotAccumulatedLogHistogramPRNU', 'PlotHorizontalProfile', 'PlotVerticalProfile']


def own(r):
    c = {'name': r.choice(['Own plot', 'Mean'])}
    for k, vs in (('title', ['A title', r'$\mu$']), ('xlabel', ['photons']), ('ylabel', ['signal [DN]', 'y']),
                  ('xscale', ['log', 'linear']), ('yscale', ['log'])):
        if r.random() < .5:
            c[k] = r.choice(vs)
    return c


def world(r, calls):
    w = {'data': {}, 'ids': {}, 'calls': calls, 'custom': {n: own(r) for n in {p for c in calls for p in c['plots']} if n.startswith('Own')}}
    for n in sorted({n for c in calls for n in c['tests']}):
        d = n.split('#')[0]
        if d not in w['data']:
            w['data'][d] = dataset(r)
        if r.random() < .5:
            w['ids'][n] = r.choice([len(w['ids']) + 1, r.randint(1, 10 ** 6)])
    return w
