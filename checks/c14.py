"""C14: the spectrogram is the mean line power spectrum."""
import math

import defect
import stack
import vlib

TRACE = 'Trace_Spectrum'
RULE = ('all masks of up to 3x4 pixels and all short images over three values (MC_Spectrum), and random images (constant, '
        'random, lines, single and several frequencies, integers and fractions, 1 to 9 rows and 1 to 24 columns, masked by '
        'colour, by any pattern or with a mask that is none), turned and not, as sums of 1 to 1000 images, go through FFT1288 '
        'and GetFrecs; every value is compared with the discrete Fourier transform of Spectrum.tla')
ASSUMPTIONS = ['two-dimensional images with at least one valid pixel',
               'compared within the rounding errors of a transform in double precision']


def drive(scn, d):
    import numpy as np
    from emva1288.process import routines
    evs = []
    for c in scn['calls']:
        img = c['img']
        if c['dt'] == 'f8':
            img = [[x / c['den'] for x in row] for row in img]
        a = defect.masked(img, c.get('mask') or [], c['dt'])
        h0 = stack.digest(a)
        kw = {}
        if c['rotate'] or c.get('explicit'):
            kw['rotate'] = bool(c['rotate'])
        if c['n'] != 1 or c.get('explicit'):
            kw['n'] = c['n']
        o, p = vlib.call(routines.FFT1288, a, **kw)
        ev = {'img': vlib.arr(np.ma.getdata(a)), 'mask': c['mask'] if isinstance(c.get('mask'), list) else [],
              'rotate': bool(c['rotate']), 'n': c['n'], 'out': o, 'h0': h0, 'h1': stack.digest(a), 'spec': [], 'freq': []}
        if o == 'ok':
            ev['spec'] = vlib.arr(p)
            ev['freq'] = vlib.arr(routines.GetFrecs(p))
        evs.append(ev)
    return {'ev': evs}


def picture(r, h, w, top):
    style = r.choice(['any', 'any', 'const', 'row', 'col', 'sine', 'sines', 'spot', 'checker', 'offset'])
    b = r.randint(0, top)
    f = [r.randint(0, w) for _ in range(r.randint(1, 3))] if style == 'sines' else [r.randint(0, w // 2)]
    g = r.randint(0, h)
    p = [[r.randint(0, top) if style == 'any' else b if style in ('const', 'spot')
          else (b * (y + 1)) % (top + 1) if style == 'row' else (b * (x + 1)) % (top + 1) if style == 'col'
          else b // 2 * ((x + y) % 2) if style == 'checker' else top - r.randint(0, 1) if style == 'offset'
          else int(top / 2 * (1 + sum(math.cos(2 * math.pi * (k * x / w + g * y / h)) for k in f) / len(f)))
          for x in range(w)] for y in range(h)]
    if style == 'spot':
        p[r.randrange(h)][r.randrange(w)] = top
    return p


def scenarios(ctx):
    r = ctx.rng
    calls = []
    for e in ctx.mc('MC_Spectrum', ctx.n('MC_Spectrum', 'MC_Spectrum_deep')):
        rows = e['rows']
        h, w = len(rows), len(rows[0])
        c = {'dt': r.choice(['u1', 'i8', 'i4']), 'rotate': r.random() < .5, 'n': r.choice([1, 1, 2, 7]), 'explicit': r.random() < .5}
        if e['mode'] == 'img':
            c['img'] = rows
        else:
            c['mask'] = [[x == 1 for x in row] for row in rows]
            c['img'] = [[r.randint(0, 200) for _ in range(w)] for _ in range(h)]
        calls.append(c)
    calls = r.sample(calls, min(len(calls), ctx.n(2500, 20000)))
    scns = [{'src': 'tlc', 'calls': calls[i:i + 50]} for i in range(0, len(calls), 50)]
    calls = []
    for _ in range(ctx.n(800, 10000)):
        h, w = r.choice([1, 2, 3, 5, 9]), r.choice([1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 16, 24])
        if r.random() < .5:
            h, w = w, h
        dt = r.choice(['u1', 'u2', 'i2', 'i4', 'i8', 'i8', 'i8', 'f8'])
        top = r.choice([{'u1': 255, 'u2': 65535, 'i2': 32767, 'i4': 2**30}.get(dt, 10**7), 3, 200])
        m = r.choice([None, None, 'nomask', 'bayer', 'bayer', 'any', 'any', 'lines'])
        if m == 'bayer':
            m = defect.bayer(r, h, w)
        elif m == 'any':
            m = defect.anymask(r, h, w)
        elif m == 'lines':
            m = [[r.random() < .1] * w if r.random() < .7 else [r.random() < .5 for _ in range(w)] for _ in range(h)]
        if isinstance(m, list) and all(all(row) for row in m):
            m = None
        img = picture(r, h, w, top)
        if dt in ('i2', 'i4', 'i8', 'f8') and r.random() < .3:
            img = [[-x for x in row] for row in img]
        calls.append({'img': img, 'dt': dt, 'den': r.choice([1, 2, 4, 100, 3]), 'mask': m, 'rotate': r.random() < .5,
                      'n': r.choice([1, 1, 2, 3, 10, 16, 100, 1000]), 'explicit': r.random() < .5})
    return scns + [{'calls': calls[i:i + 10]} for i in range(0, len(calls), 10)]


def canaries(traces):
    out = []
    for t in traces[::max(1, len(traces) // 20)]:
        for k, e in enumerate(t['ev']):
            if e['out'] == 'ok' and len(e['spec']) > 1:
                out.append(vlib.corrupt(t, ['ev', k, 'spec', 1], vlib.bump(e['spec'][1], 1)))
                out.append(vlib.corrupt(t, ['ev', k, 'freq', 1], vlib.bump(e['freq'][1], 1)))
                break
    return out
