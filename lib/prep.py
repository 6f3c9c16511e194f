"""Measurement points and the driver of loader and Data1288."""
import os

import vlib
import stack


def load(tp, sp):
    """LoadImageData over the images of the points (in memory), then the
    points that were added to please the loader are taken out again."""
    import numpy as np
    from emva1288.process.loader import LoadImageData
    store, images, extra = {}, {'temporal': {}, 'spatial': {}}, []
    h, w = len((tp + sp)[0]['imgs'][0]), len((tp + sp)[0]['imgs'][0][0])

    def put(kind, e, p, imgs, dt):
        names = []
        for i in imgs:
            n = '%d.img' % len(store)
            open(n, 'w').close()
            store[n] = np.array(i, dtype=np.dtype(dt))
            names.append(n)
        images[kind].setdefault(e, {})[p] = names
    for kind, pts in (('temporal', tp), ('spatial', sp)):
        for p in pts:
            put(kind, float(p['exp']), float(p['ph']), p['imgs'], p.get('dt', 'u2'))
        for e in images[kind]:
            zero = [[[0] * w for _ in range(h)]] * 3
            if 0.0 not in images[kind][e]:
                put(kind, e, 0.0, zero, 'u1')
                extra.append((kind, e, 0.0))
            if len(images[kind][e]) < 2:
                put(kind, e, 77.125, zero, 'u1')
                extra.append((kind, e, 77.125))
    ld = LoadImageData(images, fload=lambda f: store[os.path.basename(f)])
    for k, e, p in extra:
        del ld.data[k][e][p]
    return ld.data


def points(pts):
    return [{'exp': vlib.num(float(p['exp'])), 'ph': vlib.num(float(p['ph'])), 'imgs': p['imgs']} for p in pts]


def drive(scn, d):
    from emva1288.process.data import Data1288
    evs = []
    for c in scn['calls']:
        tp, sp = c['tp'], c['sp']
        data = load(tp, sp)
        h0 = stack.digest(data)
        out, x = vlib.call(Data1288, data)
        ev = {'e': 'prep', 'part': c['part'], 'tp': points(tp), 'sp': points(sp), 'out': out,
              'h0': h0, 'h1': stack.digest(data)}
        if out == 'ok':
            t, s = x.data['temporal'], x.data['spatial']
            ev['temporal'] = {k: vlib.arr(t[k]) for k in ('texp', 'u_p', 'u_y', 's2_y', 'u_ydark', 's2_ydark')}
            ev['spatial'] = {'texp': vlib.num(s['texp']), 'u_p': vlib.num(s['u_p'])}
            for n, f in (('bright', ''), ('dark', '_dark')):
                ev[n] = {'sum': vlib.arr(s['sum' + f]), 'L': vlib.num(s['L' + f]), 'M': vlib.num(s['M' + f]),
                         'N': vlib.num(s['N' + f]), 'avg_mean': vlib.num(s['avg_mean' + f]),
                         'var_mean': vlib.num(s['var_mean' + f]), 'avg_var': vlib.num(s['avg_var' + f]),
                         'cav': vlib.num(s['avg_var_cav' + f]), 'rav': vlib.num(s['avg_var_rav' + f])}
        evs.append(ev)
    return {'ev': evs}


EXPS = [0.5, 1, 2, 3, 10, 33333.3, 16666.7, 500000, 1000000, 12345678.9, 99999.9]
PHS = [0.001, 1, 2, 12.345, 123.456, 1000, 98765.432, 3, 0.5, 7.7, 1e6]


def several(r, pool, n):
    """n different positive numbers: of a pool, close together, or of any size."""
    k = r.random()
    if k < .6:
        return r.sample(pool, n)
    if k < .8:
        b, e = r.choice(pool), r.choice([1e-15, 1e-12, 1e-9, 1e-6, 1e-3, .01, .1])
        return r.sample([b * (1 + e * i) for i in range(-n, n + 2)], n)
    if k < .9:
        b = r.choice([1e-12, 1e-9, 1e-7, 1e-3])
        return r.sample([b * i for i in range(1, n + 4)], n)
    return r.sample([10.0 ** i for i in range(-14, 15)], n)


def spatial(r, shape, valid=True):
    h, w = shape
    e = several(r, EXPS, 1)[0]
    bits = r.choice([8, 12, 16])
    pts = []
    for ph in (0, several(r, PHS, 1)[0]):
        L = r.choice([2, 3, 3, 4, 5, 8, 17])
        pts.append({'exp': e, 'ph': ph, 'dt': 'u1' if bits == 8 else 'u2',
                    'imgs': stack.images(r, L, h, w, bits, r.choice(['edge', 'small', 'noise', 'any', 'shift', 'same']))})
    r.shuffle(pts)
    if not valid:
        k = r.randrange(4)
        if k == 0:
            del pts[r.randrange(2)]
        elif k == 1:
            pts.append(dict(pts[0], ph=55.5))
        elif k == 2:
            pts += [dict(p, exp=e + 1) for p in pts]
        else:
            for p in pts:
                p['ph'] += 1
    return pts


def temporal(r, shape, valid=True):
    h, w = shape
    pts = []
    mode = r.choice(['one', 'one', 'series', 'series', 'grid'])
    exps = several(r, EXPS, 1 if mode == 'one' else r.choice([2, 3, 4, 6]))
    bits = r.choice([8, 12, 16])
    for e in exps:
        n = r.choice([1, 2, 3, 5, 9]) if mode == 'one' else 1 if mode == 'series' else r.choice([1, 2, 3])
        for ph in [0] + several(r, PHS, n):
            pts.append({'exp': e, 'ph': ph, 'dt': 'u1' if bits == 8 else 'u2',
                        'imgs': stack.images(r, 2, h, w, bits, r.choice(['edge', 'small', 'noise', 'any', 'shift', 'same']))})
    r.shuffle(pts)
    if not valid:
        e = r.choice(exps)
        if r.random() < .5:
            pts = [p for p in pts if not (p['exp'] == e and p['ph'] == 0)]
        else:
            pts = [p for p in pts if not (p['exp'] == e and p['ph'] != 0)]
    return pts


def canaries(traces, part):
    out = []
    for t in traces[::max(1, len(traces) // 15)]:
        for k, e in enumerate(t['ev']):
            if e['out'] != 'ok' or e['part'] != part:
                continue
            if part == 't':
                for f in ('texp', 'u_p', 'u_y', 's2_y', 'u_ydark', 's2_ydark'):
                    i = len(e['temporal'][f]) - 1
                    out.append(vlib.corrupt(t, ['ev', k, 'temporal', f, i], vlib.bump(e['temporal'][f][i], 2 ** 20)))
            else:
                for s in ('bright', 'dark'):
                    for f in ('L', 'M', 'avg_mean', 'var_mean', 'avg_var', 'cav', 'rav'):
                        out.append(vlib.corrupt(t, ['ev', k, s, f], vlib.bump(e[s][f], 1)))
            break
    return out
