"""Reports: driver, parser of the generated files and generators."""
import hashlib
import json
import os
import re

import obj
import res
import stack
import vlib

NONE = '<none>'
BASIC = ['vendor', 'model', 'data_type', 'sensor_type', 'sensor_diagonal', 'lens_category', 'resolution', 'pixel_size',
         'readout_type', 'transfer_type', 'shutter_type', 'overlap_capabilities', 'maximum_readout_rate',
         'dark_current_compensation', 'interface_type']


def text(v):
    return NONE if v is None else str(v)


# ------------------------------------------------------- the generated files

def norm(s):
    return ' '.join(s.split())


def lines(s):
    """The lines '\\textsl{key} \\hfill value \\\\[1mm]' of a part."""
    return [[norm(k), norm(v)] for k, v in re.findall(r'\\textsl\{(.*?)\}\s*\\hfill(.*?)\\\\\[', s, re.S)]


def settings(s):
    """Camera settings and operation point parameters of a header."""
    a, b = s.split(r'\textbf{Camera setting}', 1)[1].split(r'\textbf{Operation point parameters}', 1)
    return {'cs': lines(a), 'tp': lines(b)}


def cell(sym, txt, unit):
    c = {'sym': norm(sym), 'txt': norm(txt), 'unit': norm(unit), 'num': 'none', 'dec': 0}
    if re.fullmatch(r'-?\d+(\.\d*)?', c['txt']):
        c['num'] = vlib.num(vlib.frac(c['txt']))
        c['dec'] = len(c['txt'].partition('.')[2])
    elif c['txt'].lower() in ('nan', 'inf', '-inf'):
        c['num'] = c['txt'].lower()
    return c


def rows(s):
    out = []
    for row in re.split(r'\\\\(?:\[[^\]]*\])?', s):
        if not row.strip() or r'\multicolumn' in row:
            continue
        cells = row.split('&') + ['', '']
        out.append(cell(*cells[:3]))
    return out


def pictures(s):
    return re.findall(r'\\includegraphics(?:\[[^\]]*\])?\{([^}]*)\}', s)


def parse(tex):
    out = {'watermark': (re.findall(r'text=\{([^}]*)\}\]\{draftwatermark\}', tex) + [NONE])[0],
           'cover': (re.findall(r'\\input\{([^}]*)\}', tex) + [NONE])[0]}
    tex = re.sub(r'(?<!\\)%.*', '', tex)
    body = tex.split(r'\begin{document}', 1)[1]
    # the summary sheets start with their report section
    parts = re.split(r'\\ReportSection\{Operation Point: ', body)
    general, points = parts[0], parts[1:]
    heads = re.split(r'\\underline\{\\textsl\{Operation Point: ', general)
    out['general'] = lines(heads[0])
    out['qe'] = pictures(general)
    out['heads'] = []
    for h in heads[1:]:
        m = re.match(r'\\textbf\{(.*?)\} \(Page \\pageref\{(.*?)\}\)', h)
        out['heads'].append(dict(settings(h), name=m.group(1), id=m.group(2)))
    out['points'] = []
    for p in points:
        m = re.match(r'\\textbf\{(.*?)\} \(@(.*?)\)\}', p)
        n = re.search(r'Summary sheet for Operation Point: \\textbf\{(.*?)\}\\label\{(.*?)\}\} \(@(.*?) wavelength\)', p)
        tab = re.search(r'\\begin\{tabular\}\{.*?\\\\\[2mm\](.*?)\\end\{tabular\}', p, re.S).group(1)
        out['points'].append(dict(settings(p.split(r'\begin{tabular}')[0]), name=m.group(1), wave=m.group(2),
                                  sname=n.group(1), id=n.group(2), swave=n.group(3), rows=rows(tab), pics=pictures(p)))
    out['tail'] = r'\end{document}' in tex
    return out


def figure_digest(fig):
    import numpy as np
    out = []
    for ax in fig.axes:
        out.append([ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), ax.get_xscale(), ax.get_yscale()])
        for ln in ax.lines:
            out.append([['%.9g' % x for x in np.ma.filled(np.ma.asarray(np.ravel(a), dtype=float), np.nan)] for a in (ln.get_xdata(), ln.get_ydata())])
    return hashlib.md5(json.dumps(out).encode()).hexdigest()


CACHE = {}


def reference(results, plots):
    """The figures and the digests of the plots, each of an object of its own."""
    from matplotlib.figure import Figure
    from matplotlib.backends.backend_pdf import FigureCanvas
    ref, shown = {f: obj.value(*obj.ask(results(), f)) for f in ROWS}, {}
    ref = {f: (v['v'][0][0] if v['o'] == 'ok' else 'none' if v['o'] == 'none' else 'raises') for f, v in ref.items()}
    for cls in plots:
        def make():
            fig = Figure()
            FigureCanvas(fig)
            r = results()
            r.id = 1
            p = cls(fig)
            p.plot(r)
            p.rearrange()
            fig.savefig('ref.pdf')
        o, _ = vlib.call(make)
        shown[cls.__name__] = md5('ref.pdf') if o == 'ok' else o
    return ref, shown


def listing(d):
    return sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)


def md5(fn):
    with open(fn, 'rb') as f:
        return hashlib.md5(f.read()).hexdigest()


# ------------------------------------------------------------------- driver

def drive(scn, d):
    os.environ['SOURCE_DATE_EPOCH'] = '0'
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib.figure import Figure
    from emva1288.process.plotting import EVMA1288plots
    from emva1288.process.results import Results1288
    from emva1288 import report as rp
    real = Figure.savefig, Figure.tight_layout

    def savefig(self, fname, *a, **k):
        with open(fname, 'w') as f:
            f.write('%PDF ' + figure_digest(self))
    kw = {a: {k: v for k, v in x.items() if v is not None} for a, x in scn['args'].items()}
    combos = sorted({o['x'] for o in scn['h'] if o['op'] == 'add'})

    def results(x):
        dd, a = x.split('/')
        return Results1288(obj.data(scn['data'][dd]), **kw[a])
    if scn['mode'] == 'stub':
        Figure.savefig, Figure.tight_layout = savefig, lambda self, *a, **k: None
    try:
        ref, shown = {}, {}
        for x in combos:
            key = json.dumps([scn['mode'], scn['data'][x.split('/')[0]], kw[x.split('/')[1]]], sort_keys=True)
            if key not in CACHE:
                CACHE[key] = reference(lambda: results(x), EVMA1288plots)
            ref[x], shown[x] = CACHE[key]
        home = os.getcwd()
        up = {}
        for i in scn['infos'].values():
            for part, key in (('marketing', 'logo'), ('marketing', 'missingplot'), ('basic', 'qe_plot')):
                fn = (i.get(part) or {}).get(key)
                if fn:
                    os.makedirs(os.path.dirname(fn) or '.', exist_ok=True)
                    with open(fn, 'w') as f:
                        f.write('%PDF ' + fn)
                    up[os.path.basename(fn)] = md5(fn)
        infos = {}
        for n, i in scn['infos'].items():
            b = rp.info_basic(**i['basic']) if i.get('basic') is not None else None
            m = rp.info_marketing(**i['marketing']) if i.get('marketing') is not None else None
            s = rp.info_setup(**dict(map(tuple, i['setup']))) if i.get('setup') is not None else None
            for dct, key in ((m, 'logo'), (m, 'missingplot'), (b, 'qe_plot')):
                if dct and dct[key]:
                    dct[key] = os.path.join(home, dct[key])
            infos[n] = (s, b, m, i.get('cover'))
        ops, reps, folders = [], [], []
        for o in scn['ops']:
            op = rp.info_op()
            op['name'], op['summary_only'] = o['name'], o['summary']
            op['camera_settings'].update(map(tuple, o['cs']))
            op['test_parameters'].update(map(tuple, o['tp']))
            ops.append(op)
        store = {dd: obj.data(x) for dd, x in scn['data'].items()}

        def snap():
            return stack.digest([repr(infos), repr([{k: v for k, v in op.items()} for op in ops]),
                                 [[store[k][p] for p in ('temporal', 'spatial')] for k in sorted(store)]])
        where = 0
        out = {'ref': ref, 'uploads': up, 'ev': [], 'can': {x: all(len(v) == 32 for v in shown[x].values())
                                                          and 'raises' not in ref[x].values() for x in combos}}
        for o in scn['h']:
            e = {'op': o['op']}
            before = snap()
            if o['op'] == 'new':
                s, b, m, c = infos[o['info']]
                folder = o['folder'] if where == 0 else os.path.join('..', o['folder'])
                k = {}
                if s is not None:
                    k['setup'] = s
                if b is not None:
                    k['basic'] = b
                if m is not None:
                    k['marketing'] = m
                if c is not None:
                    k['cover_page'] = c
                eb = dict(rp.info_basic(), **{kk: v for kk, v in (b or {}).items()})
                e.update(folder=o['folder'], b={kk: text(eb[kk]) for kk in BASIC},
                         setup=[[kk, text(v)] for kk, v in (s or rp.info_setup()).items()],
                         m={kk: text((m or {}).get(kk)) for kk in ('watermark', 'vendor')},
                         up={kk: NONE if not v else os.path.basename(v) for kk, v in
                             (('logo', (m or {}).get('logo')), ('missingplot', (m or {}).get('missingplot')),
                              ('qe', (b or {}).get('qe_plot')))},
                         cover=c if c else NONE)
                e['out'], r = vlib.call(rp.Report1288, folder, **k)
                reps.append(r)
                folders.append(os.path.join(home, o['folder']))
            elif o['op'] == 'edit':
                op = ops[o['p'] - 1]
                for f, v in o['set'].items():
                    if f in ('cs', 'tp'):
                        dct = op['camera_settings' if f == 'cs' else 'test_parameters']
                        if o.get('replace'):
                            dct = op['camera_settings' if f == 'cs' else 'test_parameters'] = type(dct)()
                        dct.update(map(tuple, v))
                    else:
                        op['summary_only' if f == 'summary' else f] = v
                e['p'] = o['p']
            elif o['op'] == 'add':
                dd, a = o['x'].split('/')
                arg = (store[dd], Results1288(store[dd], **kw[a])) if o['by'] == 'both' else \
                    (None, Results1288(store[dd], **kw[a])) if o['by'] == 'results' else (store[dd],)
                e.update(r=o['r'], p=o['p'], x=o['x'])
                e['out'], _ = vlib.call(reps[o['r'] - 1].add, ops[o['p'] - 1], *arg)
            elif o['op'] == 'latex':
                e['r'] = o['r']
                e['out'], _ = vlib.call(reps[o['r'] - 1].latex)
                fo = folders[o['r'] - 1]
                with open(os.path.join(fo, 'report.tex')) as f:
                    tex = f.read()
                try:
                    e['doc'] = parse(tex)
                except Exception as x:
                    e['doc'] = {'unreadable': repr(x)}
                with open(os.path.join(fo, 'emvadatasheet.sty')) as f:
                    sty = f.read()
                e['sty'] = {'head': norm((re.findall(r'\\fancyhead\[C\]\{\\textbf\{(.*)\}\}', sty) + [''])[0]),
                            'pics': pictures(sty)}
                e['tex'] = hashlib.md5((tex + sty).encode()).hexdigest()
                e['files'] = []
                for f in listing(fo):
                    k = {'f': f, 'd': '', 'shows': []}
                    p = os.path.join(fo, f)
                    if os.path.dirname(f) == 'upload':
                        k['d'] = md5(p)
                    elif f.startswith('OP'):
                        k['d'] = md5(p)
                        c = os.path.basename(f)[:-4]
                        k['shows'] = [x for x in combos if shown[x].get(c) == k['d']]
                    e['files'].append(k)
            elif o['op'] == 'cd':
                where = 1 - where
                os.makedirs(os.path.join(home, 'elsewhere'), exist_ok=True)
                os.chdir(os.path.join(home, 'elsewhere') if where else home)
            e['same'] = snap() == before or o['op'] == 'edit'
            e['ops'] = [{'name': text(op['name']), 'summary': bool(op['summary_only']),
                         'cs': [[k, str(v)] for k, v in op['camera_settings'].items()],
                         'tp': [[k, str(v)] for k, v in op['test_parameters'].items()]} for op in ops] \
                if o['op'] in ('edit', 'new') else []
            out['ev'].append(e)
        os.chdir(home)
        return out
    finally:
        Figure.savefig, Figure.tight_layout = real


ROWS = ['QE', 'K', 'inverse_K', 'sigma_d', 'sigma_y_dark', 'SNR_max', 'SNR_max_dB', 'SNR_max_bit', 'inverse_SNR_max', 'u_p_min',
        'u_p_min_area', 'u_e_min', 'u_e_min_area', 'u_p_sat', 'u_p_sat_area', 'u_e_sat', 'u_e_sat_area', 'DR', 'DR_dB', 'DSNU1288',
        'DSNU1288_row', 'DSNU1288_col', 'DSNU1288_pixel', 'PRNU1288', 'PRNU1288_row', 'PRNU1288_col', 'PRNU1288_pixel', 'LE_min',
        'LE_max', 'u_I_mean', 'u_I_mean_DN', 'u_I_var', 'u_I_var_DN']


# --------------------------------------------------------------- generators

WORDS = ['gain 1', 'Camera A', 'a<b & c', "it's", '12 bit', 'OP1', 'OP2', 'low light', '-', '"x"', 'x_1', 'N/A']


def words(r, none=.3):
    return None if r.random() < none else r.choice(WORDS)


def pairs(r, keys, n):
    return [[k, r.choice([r.choice(WORDS), r.randint(-3, 99), 0, 1.5, True])] for k in r.sample(keys, min(n, len(keys)))]


CS = ['Gain', 'Black level', 'Bit depth', 'Exposure time', 'FPN correction']
TP = ['Wavelength', 'Illumination', 'Irradiation steps', 'Temperature', 'Housing temperature']


def info(r, n):
    i = {}
    if r.random() < .8:
        i['basic'] = {k: words(r) for k in r.sample(BASIC, r.randint(0, len(BASIC)))}
        if r.random() < .8:
            i['basic']['sensor_type'] = r.choice(['CCD', 'CMOS', 'CMOS', 'other', None])
        if r.random() < .4:
            i['basic']['qe_plot'] = 'src%s/qe%s.pdf' % (n, n)
    if r.random() < .6:
        i['marketing'] = {k: v for k, v in (('watermark', words(r)), ('vendor', words(r, 0))) if r.random() < .6}
        for k in ('logo', 'missingplot'):
            if r.random() < .4:
                i['marketing'][k] = 'src%s/%s%s.pdf' % (n, k, n)
    if r.random() < .6:
        i['setup'] = [[k, r.choice([words(r), 0, 3.5, None])] for k in
                      r.sample(['Light source', 'Light source non uniformity', 'Standard version', 'Remarks', 'Room'], r.randint(0, 4))]
    if r.random() < .4:
        i['cover'] = r.choice(['cover.tex', 'a/b.tex', False])
    return i


def op(r):
    return {'name': r.choice([None, '', 'gain 1', 'OP2', 'OP1', r.choice(WORDS), 'low']), 'summary': r.choice([True, False, None]),
            'cs': pairs(r, CS, r.randint(0, 3)), 'tp': pairs(r, TP, r.randint(0, 4))}


def change(r):
    s = {}
    for k in r.sample(['name', 'summary', 'cs', 'tp'], r.randint(1, 3)):
        s[k] = {'name': lambda: r.choice([None, 'other', words(r)]), 'summary': lambda: r.choice([True, False]),
                'cs': lambda: pairs(r, CS, r.randint(1, 3)), 'tp': lambda: pairs(r, TP, r.randint(1, 3))}[k]()
    return s


POOL = []


def nice(r):
    """Data most figures and plots are defined for."""
    while True:
        s = obj.dataset(r)
        s['mask'] = None
        n = r.choice([6, 10, 25])
        s['tp'] = res.camera(r, n=n)
        if len(s['tp']['u_p']) >= 4:
            return s


def world(r, h, mode='stub'):
    if len(POOL) < 12:
        POOL.append({'d%d' % k: nice(r) for k in (1, 2)})
    w = {'data': POOL[-1] if len(POOL) < 12 else r.choice(POOL), 'mode': mode,
         'args': {'a0': {}, 'a1': {'pixel_area': r.choice([20.25, 1, None]), 'index_u_ysat': None},
                  'a2': {'pixel_area': r.choice([2.5, None]), 'index_u_ysat': None}},
         'infos': {'i%d' % k: info(r, k) for k in (1, 2)}, 'ops': [op(r), op(r)]}
    out, n = [], 0
    for e in h:
        e = dict(e)
        if e['op'] == 'new':
            e['info'] = r.choice(['i1', 'i2'])
            n += 1
        elif e['op'] == 'add':
            e['by'] = r.choice(['data', 'results', 'both'])
            if e['by'] == 'data':
                e['x'] = e['x'].split('/')[0] + '/a0'
        elif e['op'] == 'edit':
            e['set'] = change(r)
            e['replace'] = r.random() < .3
        out.append(e)
        if r.random() < .08:
            out.append({'op': 'cd'})
    out += [{'op': 'latex', 'r': k} for k in r.sample(range(1, n + 1), n)]
    w['h'] = out
    return w


def longer(r, n):
    h, nr = [{'op': 'new', 'folder': 'f1'}], 1
    while len(h) < n:
        k = r.choice(['add', 'add', 'add', 'latex', 'edit', 'new'])
        if k == 'new':
            if nr < 3:
                h.append({'op': 'new', 'folder': r.choice(['f1', 'f2', 'f3', 'f4/deep'])})
                nr += 1
        elif k == 'add':
            h.append({'op': 'add', 'r': r.randint(1, nr), 'p': r.randint(1, 2), 'x': r.choice(['d1', 'd2']) + '/' + r.choice(['a0', 'a1', 'a2'])})
        elif k == 'latex':
            h.append({'op': 'latex', 'r': r.randint(1, nr)})
        else:
            h.append({'op': 'edit', 'p': r.randint(1, 2)})
    return h
