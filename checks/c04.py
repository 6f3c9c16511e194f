"""C04: loading keeps every measurement point and only its own images."""
import os

import vlib
import prep
import stack

TRACE = 'Trace_C04'
RULE = ('histories of image files being written, replaced and removed, of loads of points dictionaries over them (the subsets '
        'and file states enumerated by TLC from MC_Loader, and random ones) and of later readings of earlier loaders; each '
        'loader must hold exactly what Loader.tla derives from the files at that moment')
ASSUMPTIONS = ['images are 8 or 16 bit grey or 8 bit RGB/RGBA files (PNG, TIFF, BMP), or come from a custom fload function',
               'the dictionary has at least one point', 'with several errors at once any of them is accepted']


def norm(v):
    return float(v)


def scenarios(ctx):
    scns = []
    r = ctx.rng
    em = ctx.mc('MC_Loader', ctx.n('MC_Loader', 'MC_Loader_deep'))
    if ctx.quick:
        em = [e for e in em if r.random() < .5]
    for i in range(0, len(em), 4):
        ops = []
        have = {}
        for e in em[i:i + 4]:
            for f in list(have):
                if f not in e['fs']:
                    ops.append({'op': 'delete', 'name': f + '.png'})
                    del have[f]
            for f, px in e['fs'].items():
                if have.get(f) != px:
                    ops.append({'op': 'write', 'name': f + '.png', 'chans': [px], 'mode': 'L'})
                    have[f] = px
            pts = [dict(p, files=[x + '.png' for x in p['files']]) for p in e['pts']]
            r.shuffle(pts)
            ops.append({'op': 'load', 'pts': pts})
        ops += [{'op': 'peek', 'k': k} for k in range(len(em[i:i + 4]))]
        scns.append({'src': 'tlc', 'ops': ops})
    for _ in range(ctx.n(150, 1800)):
        scns.append({'ops': history(r)})
    return scns


def mkfile(r, name, shape):
    mode = r.choice(['L', 'L', 'I;16', 'I;16', 'RGB', 'RGBA', 'I'])
    ext = 'tif' if mode == 'I' else r.choice(['png', 'png', 'tif'] + (['bmp'] if mode == 'L' else []))
    h, w = shape
    n = {'RGB': 3, 'RGBA': 4}.get(mode, 1)
    bits = 8 if mode in ('L', 'RGB', 'RGBA') else 16
    return {'op': 'write', 'name': name + '.' + ext, 'mode': mode,
            'chans': stack.images(r, n, h, w, bits, r.choice(['any', 'edge', 'noise']))}


def history(r):
    shape = (r.randint(1, 5), r.randint(1, 6))
    ops, files, loads = [], [], 0
    for k in range(r.randint(3, 9)):
        w = mkfile(r, r.choice(['', 'images/', 'a b/c/']) + 'f%d' % (k if r.random() < .5 else r.randrange(3)), shape)
        ops.append(w)
        files.append(w['name'])
    for _ in range(r.randint(1, 4)):
        if r.random() < .3:     # change a file
            x = r.choice(files)
            other = r.choice([(shape[0] + 1, shape[1]), shape[::-1], (1, shape[0] * shape[1])])
            w = mkfile(r, 'f', shape if r.random() < .8 else other)
            w['name'] = os.path.splitext(x)[0] + os.path.splitext(w['name'])[1]
            ops.append(w)
            files.append(w['name'])
        if r.random() < .15:
            x = r.choice(files)
            ops.append({'op': 'delete', 'name': x})
        pts = []
        for kind in ('temporal', 'spatial'):
            for e in prep.several(r, [1, 2.5, 1000000, 33333.3, 500.1], r.choice([0, 1, 1, 2, 3])):
                phs = [0.0] * (r.random() < .96) + prep.several(r, [0.001, 1.0, 12.5, 99.999, 1e6, 0.1, 7], r.choice([1, 1, 2, 3]) - (r.random() < .04))
                for p in phs:
                    n = 2 if kind == 'temporal' else r.choice([3, 3, 4, 7])
                    pts.append({'kind': kind, 'exp': e, 'ph': p, 'files': [r.choice(files) for _ in range(n)]})
        if not pts:
            continue
        if r.random() < .08:        # a series with all its images of another shape
            w = mkfile(r, 'g', r.choice([shape[::-1], (1, shape[0] * shape[1]), (shape[0] + 1, shape[1])]))
            ops.append(w)
            p = r.choice(pts)
            p['files'] = [w['name']] * len(p['files'])
        if r.random() < .7:
            r.shuffle(pts)
        if r.random() < .06:
            r.choice(pts)['files'][-1] = 'nothere.png'
        op = {'op': 'load', 'pts': pts, 'path': r.choice(['', '', 'abs', 'dot'])}
        if r.random() < .3:
            op['fload'] = {'mul': r.choice([1, 2, -1, 257]), 'add': r.choice([0, 1, -5, 1000])}
        ops.append(op)
        loads += 1
        if r.random() < .5:
            ops.append({'op': 'peek', 'k': r.randrange(loads)})
    ops += [{'op': 'peek', 'k': k} for k in range(loads)]
    return ops


def drive(scn, d):
    import numpy as np
    from PIL import Image
    from emva1288.process.loader import LoadImageData
    from emva1288.process.routines import load_image

    def custom(fname, add, mul=1):
        return load_image(fname).astype(np.int64) * mul + add

    def data(ld):
        x = ld.data
        pts = []
        for kind in ('temporal', 'spatial'):
            for e in x[kind]:
                if not x[kind][e]:
                    pts.append({'kind': kind + ' empty', 'exp': vlib.num(e), 'ph': 0, 'L': 0, 'sum': 0, 'pvar': 0, 'dmean': 0})
                for p, v in x[kind][e].items():
                    pts.append({'kind': kind, 'exp': vlib.num(e), 'ph': vlib.num(p), 'L': v.get('L', 0),
                                'sum': vlib.arr(v['sum']), 'pvar': vlib.arr(v['pvar']), 'dmean': vlib.num(v['dmean'])})
        return {'pts': pts, 'height': x['height'], 'width': x['width']}

    evs, loaders = [], []
    for o in scn['ops']:
        if o['op'] == 'write':
            os.makedirs(os.path.dirname(os.path.join(d, o['name'])), exist_ok=True)
            m = o['mode']
            if m in ('RGB', 'RGBA'):
                im = Image.fromarray(np.dstack([np.array(c, dtype=np.uint8) for c in o['chans']]), m)
            else:
                im = Image.fromarray(np.array(o['chans'][0], dtype={'L': np.uint8, 'I;16': np.uint16, 'I': np.int32}[m]))
            im.save(os.path.join(d, o['name']))
            evs.append({'e': 'write', 'name': o['name'], 'chans': o['chans']})
        elif o['op'] == 'delete':
            if os.path.exists(os.path.join(d, o['name'])):
                os.remove(os.path.join(d, o['name']))
            evs.append({'e': 'delete', 'name': o['name']})
        elif o['op'] == 'load':
            images = {'temporal': {}, 'spatial': {}}
            style = o.get('path', '')
            for p in o['pts']:
                images[p['kind']].setdefault(float(p['exp']), {})[float(p['ph'])] = \
                    [os.path.join(d, f) if style == 'abs' else f for f in p['files']]
            kw = {}
            fl = o.get('fload', {'mul': 1, 'add': 0})
            if 'fload' in o:
                kw = {'fload': custom, 'fload_args': [fl['add']], 'fload_kwargs': {'mul': fl['mul']}}
            if style == 'dot':
                kw['path'] = d
            h0 = stack.digest([images, kw.get('fload_args'), kw.get('fload_kwargs')])
            out, ld = vlib.call(LoadImageData, images, **kw)
            ev = {'e': 'load', 'k': len(loaders), 'path': '', 'fload': fl, 'out': out,
                  'pts': [dict(p, exp=vlib.num(float(p['exp'])), ph=vlib.num(float(p['ph']))) for p in o['pts']],
                  'h0': h0, 'h1': stack.digest([images, kw.get('fload_args'), kw.get('fload_kwargs')])}
            loaders.append(ld if out == 'ok' else None)
            if out == 'ok':
                ev['data'] = data(ld)
            evs.append(ev)
        elif o['op'] == 'peek' and loaders[o['k']] is not None:
            evs.append({'e': 'peek', 'k': o['k'], 'data': data(loaders[o['k']])})
    return {'ev': evs}


def canaries(traces):
    out = []
    for t in traces[::max(1, len(traces) // 12)]:
        for k, e in enumerate(t['ev']):
            if e['e'] in ('load', 'peek') and e.get('out', 'ok') == 'ok':
                p = e['data']['pts']
                out.append(vlib.corrupt(t, ['ev', k, 'data', 'pts'], p[1:]))
                out.append(vlib.corrupt(t, ['ev', k, 'data', 'pts', 0, 'dmean'], vlib.bump(p[0]['dmean'])))
                out.append(vlib.corrupt(t, ['ev', k, 'data', 'width'], 99))
                break
    return out
