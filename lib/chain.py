"""The facade: driver and generators of folders with a descriptor."""
import contextlib
import io
import math
import os
import shutil

import cam
import res
import stack
import vlib

FIGS = sorted(set(sum(res.PARTS.values(), [])))


def save(path, rows, bits):
    import numpy as np
    from PIL import Image
    os.makedirs(os.path.dirname(path), exist_ok=True)
    Image.fromarray(np.array(rows, dtype=np.uint8 if bits <= 8 else np.uint16)).save(path)


def tree(text):
    """The names and texts of an XML file."""
    import xml.etree.ElementTree as ET

    def walk(e):
        return [e.tag, (e.text or '').strip()] + [walk(x) for x in sorted(e, key=lambda x: x.tag)]
    return ET.fromstring(text)


def figures(root):
    out = {n: {'o': 'missing', 'v': 'nan'} for n in FIGS}
    for sec in root:
        for fig in sec:
            v = fig.find('value')
            if fig.tag in out and v is not None:
                t = (v.text or '').strip()
                if t == 'None':
                    out[fig.tag] = {'o': 'none', 'v': 'nan'}
                else:
                    o, x = vlib.call(lambda: int(t) if fig.tag.startswith('index') else float(t))
                    out[fig.tag] = {'o': o if o == 'ok' else 'text', 'v': vlib.num(x) if o == 'ok' else 'nan'}
    return out


def drawn():
    """What the open figures show."""
    import numpy as np
    import matplotlib.pyplot as plt
    out = []
    for k in plt.get_fignums():
        f = plt.figure(k)
        out.append([f._suptitle.get_text() if f._suptitle else '',
                    [[a.get_title(), a.get_xlabel(), a.get_ylabel(), a.get_xscale(), a.get_yscale(),
                      [[ln.get_label(), repr(np.ma.filled(np.ma.asarray(ln.get_xdata(), dtype=float), np.nan).tolist()),
                        repr(np.ma.filled(np.ma.asarray(ln.get_ydata(), dtype=float), np.nan).tolist())] for ln in a.lines]]
                     for a in f.axes]])
    plt.close('all')
    return out


def show(what, xml, prints, plot, plots, fname):
    """(outcome, digest, figures) of asking for something."""
    from emva1288.process import plotting
    if what == 'xml':
        o, x = vlib.call(xml)
    elif what == 'file':
        o, x = vlib.call(xml, fname)
        if o == 'ok':
            with open(fname, 'rb') as f:
                x = f.read()
    elif what == 'print':
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            o, _ = vlib.call(prints)
        return o, stack.digest(out.getvalue()) if o == 'ok' else '', None
    else:
        o, _ = vlib.call(plot, *[getattr(plotting, p) for p in plots])
        d = drawn()
        return o, stack.digest(d) if o == 'ok' else '', None
    if o != 'ok':
        return o, '', None
    o, root = vlib.call(tree, x)
    if o != 'ok':
        return 'not xml', '', None

    def walk(e):
        return [e.tag, (e.text or '').strip()] + [walk(y) for y in sorted(e, key=lambda y: y.tag)]
    return 'ok', stack.digest(walk(root)), figures(root)


def stepwise(fname):
    from emva1288.process.data import Data1288
    from emva1288.process.loader import LoadImageData
    from emva1288.process.parser import ParseEmvaDescriptorFile
    from emva1288.process.results import Results1288
    info = ParseEmvaDescriptorFile(fname)
    return Results1288(Data1288(LoadImageData(info.images).data).data)


def recover(op, d, k):
    from emva1288.camera.dataset_generator import DatasetGenerator
    from emva1288.process import Emva1288
    cfg = op['cfg']
    h, w = cfg['height'], cfg['width']
    kw = {x: cfg[x] for x in cam.PARAMS if x in cfg}
    kw['qe'] = cam.qe_of(cfg)
    dsnu, prnu = cam.field(cfg['dsnu'], h, w), cam.field(cfg['prnu'], h, w)
    kw.update(op['series'])
    g = {'M': h, 'N': w, 'L': op['L'], 'bits': cfg['bit_depth'], 'K': vlib.num(cfg['K']), 's2': vlib.num(cfg['sigma2_dark_0']),
         'ds0': vlib.num(cfg['dark_signal_0']), 'iref': vlib.num(cfg['dark_current_ref']), 'tref': vlib.num(cfg['temperature_ref']),
         'tdbl': vlib.num(cfg['temperature_doubling']), 'temp': vlib.num(cfg['temperature']), 'qe': vlib.num(cfg['qe']['qe'][0]),
         'area': vlib.num(cfg['pixel_area']), 'bo': vlib.num(cfg['blackoffset']), 'uesat': vlib.num(cfg['u_esat']),
         'dsnu': vlib.arr(dsnu), 'prnu': vlib.arr(prnu)}
    ev = {'e': 'recover', 'g': g, 'text': [], 'res': {}}

    def run():
        gen = DatasetGenerator(steps=op['steps'], L=op['L'], outdir=os.path.join(d, 'set%d' % k), dsnu=dsnu, prnu=prnu, **kw)
        with open(gen.descriptor_path, 'rb') as f:
            ev['text'] = list(f.read())
        return show('xml', Emva1288(gen.descriptor_path).xml, None, None, [], None)
    o, v = vlib.call(run)
    ev['out'] = o
    if o == 'ok':
        ev['out'], _, ev['res'] = v
    shutil.rmtree(os.path.join(d, 'set%d' % k), ignore_errors=True)
    return ev


def drive(scn, d):
    import warnings
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib.figure import Figure
    from emva1288.process import Emva1288
    from emva1288.process.plotting import Plotting1288
    warnings.simplefilter('ignore')
    root = os.path.join(d, scn.get('root', 'w'))
    os.makedirs(root)
    evs, made = [], []
    keep = Figure.tight_layout
    Figure.tight_layout = lambda self, *a, **k: None
    try:
        for n, op in enumerate(scn['ops']):
            if op['op'] == 'recover':
                evs.append(recover(op, d, n))
            elif op['op'] == 'read':
                if made[op['k']] is None:
                    continue
                fac, ref = made[op['k']]
                a = show(op['what'], fac.xml, fac.results, fac.plot, op.get('plots', []), os.path.join(d, 'out%d.xml' % n))
                b = ('missing', '', None) if ref is None else \
                    show(op['what'], ref.xml, ref.print_results, Plotting1288(ref).plot, op.get('plots', []), os.path.join(d, 'ref%d.xml' % n))
                evs.append({'e': 'read', 'k': op['k'], 'what': op['what'], 'out': a[0], 'dig': a[1], 'wout': b[0], 'want': b[1],
                            'res': a[2] or {}})
            else:
                full = os.path.join(root, op['name'])
                ev = {'path': vlib.codes(full)}
                if op['op'] == 'img':
                    save(full, op['img'], op['bits'])
                    ev.update(e='img', img=op['img'])
                elif op['op'] == 'del':
                    if os.path.exists(full):
                        os.remove(full)
                    ev.update(e='del')
                elif op['op'] == 'txt':
                    os.makedirs(os.path.dirname(full), exist_ok=True)
                    with open(full, 'wb') as f:
                        f.write(op['text'].encode('ascii'))
                    ev.update(e='txt', text=list(op['text'].encode('ascii')))
                else:
                    copy = os.path.join(d, 'copy%d' % n)
                    shutil.copytree(root, copy)
                    todo = [(Emva1288, full), (stepwise, os.path.join(copy, op['name']))]
                    got = {}
                    for f, x in todo if op.get('first') else todo[::-1]:
                        got[f] = vlib.call(f, x)
                    made.append(None if got[Emva1288][0] != 'ok' else (got[Emva1288][1], got[stepwise][1]))
                    ev.update(e='new', k=len(made) - 1, out=got[Emva1288][0], steps=got[stepwise][0])
                    if op.get('forget'):            # the files are gone afterwards
                        shutil.rmtree(copy)
                evs.append(ev)
        return {'ev': evs}
    finally:
        Figure.tight_layout = keep


# --------------------------------------------------------------- generators

PLOTS = ['PlotPTC', 'PlotSNR', 'PlotSensitivity', 'PlotUyDark', 'PlotLinearity', 'PlotDeviationLinearity',
         'PlotHorizontalSpectrogramPRNU', 'PlotVerticalSpectrogramDSNU', 'PlotLogarithmicHistogramDSNU',
         'PlotAccumulatedLogHistogramPRNU', 'PlotHorizontalProfile', 'PlotVerticalProfile']


def sensor(r):
    return {'K': r.choice([.1, .3, .8, 2.]), 'dark': r.choice([3., 10., 30.]), 'noise': r.choice([.8, 1.5, 3.]), 'bits': r.choice([8, 8, 10, 12]),
            'h': r.randint(5, 8), 'w': r.randint(5, 8), 'I': r.choice([0, .5, 2.])}


def image(r, s, e, fpn, t):
    """A picture of e mean electrons of light."""
    top = 2 ** s['bits'] - 1
    out = []
    for y in range(s['h']):
        row = []
        for x in range(s['w']):
            el = max(0, r.gauss(e, math.sqrt(e))) * (1 + fpn[1][y][x])
            row.append(max(0, min(top, round(s['K'] * el + s['dark'] + s['I'] * t + r.gauss(0, s['noise']) + fpn[0][y][x]))))
        out.append(row)
    return out


def number(r, x):
    t = repr(round(x, 3))
    return t.replace('.', ',') if r.random() < .2 else t


def folder(r, s=None, mode=None, steps=None):
    """Images and descriptor of a test, as operations."""
    s = s or sensor(r)
    n = steps or r.choice([4, 5, 6, 8])
    mode = mode or r.choice(['light'] * 6 + ['exposure'] * 5 + ['mixed'])
    top = (2 ** s['bits'] - 1 - s['dark']) / s['K']
    fpn = [[[r.gauss(0, s['noise'] * .7) for _ in range(s['w'])] for _ in range(s['h'])],
           [[r.gauss(0, .02) for _ in range(s['w'])] for _ in range(s['h'])]]
    qe = r.uniform(.2, .8)
    over = r.choice([.7, 1.05, 1.25])
    pts = []
    t0 = r.choice([1000000, 33333.3, 500])
    for i in range(1, n + 1):
        e = top * over * i / n
        ti = i if mode == 'exposure' else 1 + (i > n // 2) if mode == 'mixed' else 1
        pts.append((t0 * ti, e / qe, e, ti, 2))
        if mode != 'light' and not any(p[0] == t0 * ti and p[1] == 0 for p in pts):
            pts.append((t0 * ti, 0, 0, ti, 2))
    if mode == 'light':
        pts.append((t0, 0, 0, 1, 2))
    L = r.choice([3, 3, 4, 6])
    mid = r.choice([p for p in pts if p[1]])
    pts += [(mid[0], mid[1], mid[2], mid[3], L), (mid[0], 0, 0, mid[3], r.choice([L, L, 3]))]
    r.shuffle(pts)
    ops, lines, k = [], ['v 3.0', 'n %d %d %d' % (s['bits'], s['w'], s['h'])], 0
    sub = r.choice(['', 'images/', 'a b/'[:1] + '/', 'deep/er/'])
    for t, p, e, ti, m in pts:
        lines.append('b %s %s' % (number(r, t), number(r, p)) if p or r.random() < .2 else 'd ' + number(r, t))
        for _ in range(m):
            name = sub + 'im%03d.%s' % (k, r.choice(['png', 'png', 'tif']))
            k += 1
            ops.append({'op': 'img', 'name': name, 'img': image(r, s, e, fpn, ti), 'bits': s['bits']})
            lines.append('i ' + (name.replace('/', '\\') if r.random() < .4 else name))
        if r.random() < .2:
            lines.append(r.choice(['', '# a comment', '   ']))
    ops.append({'op': 'txt', 'name': 'emva.txt', 'text': r.choice(['\n', '\n', '\r\n']).join(lines) + '\n'})
    return ops


def under(ops, base):
    return [dict(o, name=base + '/' + o['name']) for o in ops]


def scramble(r, text):
    """The same test written down in another way, or another test."""
    lines = text.split('\n')
    head, blocks = [], []
    for x in lines:
        if x[:1] in 'bd' and x:
            blocks.append([x])
        elif blocks:
            blocks[-1].append(x)
        else:
            head.append(x)
    r.shuffle(blocks)
    k = r.random()
    if k < .5:        # photons twice
        blocks = [[' '.join(b[0].split()[:2] + [str(2 * float(b[0].split()[2].replace(',', '.')))])] + b[1:]
                  if b[0][0] == 'b' else b for b in blocks]
    elif k < .8:      # images the other way round
        blocks = [[b[0]] + b[:0:-1] for b in blocks]
    return '\n'.join(head + sum(blocks, []))


def broken(r, text):
    lines = text.split('\n')
    k = r.choice(['image', 'number', 'dark', 'short'])
    at = [i for i, x in enumerate(lines) if x[:1] in ('b', 'd')]
    i = r.choice(at)
    if k == 'image':
        j = r.choice([i for i, x in enumerate(lines) if x[:1] == 'i'])
        lines[j] = 'i nothere.png'
    elif k == 'number':
        lines[i] = 'b x 7'
    elif k == 'dark':
        i = r.choice([i for i in at if lines[i][0] == 'd'] or at)
        lines[i] = 'b %s 12345.678' % lines[i].split()[1]
    else:
        del lines[i]
    return '\n'.join(lines)


def replay(r, h):
    """A history of MC_Chain on folders."""
    base, mode = {}, r.choice([None, 'light', 'exposure'])
    s = sensor(r)
    steps = r.choice([4, 5, 6])
    for d in (1, 2):
        base[d] = folder(r, s, mode, steps)
    imgs = {(d, v): [o for o in base[d] if o['op'] == 'img'] if v == d else None for d in (1, 2) for v in (1, 2)}
    for d in (1, 2):        # the other images under the same names
        o = 3 - d
        pool = [x for x in base[o] if x['op'] == 'img']
        imgs[d, o] = [dict(x, img=[[min(2 ** s['bits'] - 1, max(0, q + r.choice([-1, 0, 0, 1, 2]))) for q in row] for row in x['img']])
                      for x in imgs[d, d]]
        assert pool
    text = {(d, 1): base[d][-1]['text'] for d in (1, 2)}
    names = {1: r.choice(['a', 'one', 'test']), 2: r.choice(['b', 'a b', 'two/x'])}
    ops = []
    for d in (1, 2):
        text[d, 2] = scramble(r, text[d, 1])
        text[d, 0] = broken(r, text[d, 1])
        ops += under(base[d], names[d])
    gone = {1: None, 2: None}
    for x in h:
        if x['op'] == 'txt':
            ops.append({'op': 'txt', 'name': names[x['d']] + '/emva.txt', 'text': text[x['d'], x['v']]})
        elif x['op'] == 'img':
            if x['v'] == 0:
                gone[x['d']] = r.choice(imgs[x['d'], 1])['name']
                ops.append({'op': 'del', 'name': names[x['d']] + '/' + gone[x['d']]})
            else:
                ops += under(imgs[x['d'], x['v']], names[x['d']])
        elif x['op'] == 'new':
            ops.append({'op': 'new', 'name': names[x['d']] + '/emva.txt', 'first': r.random() < .5})
        else:
            ops.append(read(r, x['k'] - 1, x['what']))
    return ops


def read(r, k, what):
    o = {'op': 'read', 'k': k, 'what': what}
    if what == 'plot':
        o['plots'] = r.sample(PLOTS, r.choice([1, 2, 3])) if r.random() < .9 else []
    return o


def history(r):
    n = r.choice([1, 2, 2, 3])
    base = ['', 'x', 'y/z', 'w w']
    dirs = [r.choice(base) + str(k) for k in range(n)]
    ops, kept = [], []
    for b in dirs:
        f = folder(r)
        kept.append(f)
        ops += under(f, b)
    made = 0
    for _ in range(r.choice([6, 9, 14])):
        k = r.random()
        if made == 0 or k < .25:
            ops.append({'op': 'new', 'name': r.choice(dirs) + '/emva.txt', 'first': r.random() < .5})
            made += 1
        elif k < .35:
            i = r.randrange(n)
            t = kept[i][-1]['text']
            ops.append({'op': 'txt', 'name': dirs[i] + '/emva.txt', 'text': r.choice([scramble, scramble, broken, lambda r, x: x])(r, t)})
        elif k < .45:
            i = r.randrange(n)
            f = r.sample([o for o in kept[i] if o['op'] == 'img'], r.choice([1, 3]))
            ops += under([dict(o, img=[row[::-1] for row in o['img'][::-1]]) for o in f], dirs[i])
        else:
            ops.append(read(r, r.randrange(made), r.choice(['xml', 'xml', 'file', 'print', 'plot'])))
    ops += [read(r, k, 'xml') for k in range(made)]
    return ops




def recovery(r, e, size=None):
    """A camera of MC_Recover with more pixels."""
    h, w = size or r.choice([(40, 50), (48, 48), (64, 40)])
    K, s2 = e['k'] / 4, e['s'] ** 2
    g = r.choice([0, .5, 1.5]) * e['s'] if not e['p'] else 0
    def pattern(mean, sd, q):
        if not sd:
            return [[mean] * w for _ in range(h)]
        col, row = [r.gauss(0, sd * .5) for _ in range(w)], [r.gauss(0, sd * .5) for _ in range(h)]
        a, b, c = r.choice([(1, 0, 0), (1, 1, 0), (1, 0, 1), (1, 1, 1)])
        return [[mean + round(max(-3 * sd, min(3 * sd, a * r.gauss(0, sd * .8) + b * col[x] + c * row[y])) * q) / q for x in range(w)] for y in range(h)]
    dsnu = pattern(0, g, 16)
    prnu = pattern(1, 0 if e['p'] else r.choice([.005, .02]), 1024)
    top = 2 ** e['bits'] - 1
    bo = max(1, min(top // 16, round(3 * K * e['s'])))
    cfg = {'height': h, 'width': w, 'bit_depth': e['bits'], 'seed': r.randrange(2**31), 'K': K, 'K_min': K, 'K_max': K, 'K_steps': 2,
           'blackoffset': bo, 'blackoffset_min': bo, 'blackoffset_max': bo, 'blackoffset_steps': 2, 'pixel_area': r.choice([10., 25., 30.25]),
           'sigma2_dark_0': float(s2), 'dark_signal_0': 6. * e['s'] + 3 * g + 2, 'dark_current_ref': float(e['i']), 'temperature_ref': 20.,
           'temperature_doubling': 10., 'temperature': float(e['temp']), 'u_esat': r.choice([3., 1.2, .9]) * top / K, 'f_number': r.choice([4., 8.]),
           'qe': {'w': [r.choice([450., 532., 640.])], 'qe': [r.choice([.25, .5, .75])]},
           'dsnu': sum(dsnu, []), 'prnu': sum(prnu, [])}
    op = {'op': 'recover', 'cfg': cfg, 'L': r.choice([4, 6, 10]), 'steps': r.choice([8, 10, 12])}
    longest = 1e9 * min(5, .15 * top / K / max(1., e['i'] * 2 ** ((e['temp'] - 20) / 10)))
    cfg['exposure_min'], cfg['exposure_max'] = round(longest * .01, 1), round(longest, 1)
    op['series'] = {'exposure_fixed': int(longest / 50)} if e['mode'] == 'light' else {}
    return op
