"""C21: a generated dataset is a complete, self-consistent test."""
import os

import cam
import stack
import vlib

TRACE = 'Trace_Dataset'
RULE = ('exposure and illumination series of all small step counts and L (from MC_Dataset, where the descriptor of the generator '
        'machine is parsed back by the machine of Descriptor.tla) and random ones: point lists and complete datasets with all '
        'grabs of the camera recorded; the bytes of the descriptor are parsed by Descriptor.tla, and each image line must stand '
        'for a file that holds an image grabbed at the exposure and radiance of its point; gain and black offset left to the generator, for cameras with and without noise')
ASSUMPTIONS = ['L >= 3 and at most 16 bits', 'radiance limits are positive and give photon counts that differ after rounding',
               'the electrons of the dark fill a small part of the range', 'limits given are in order, together with the default for the other',
               'exposures that differ after rounding to one decimal', 'exposure_fixed is a whole number of ns',
               'the output folder has no images folder yet']
SCENARIO_TIMEOUT = 120


def rows(rad, nw, h, w):
    import numpy as np
    a = np.broadcast_to(np.asarray(rad, dtype=np.float64), (h, w, nw))
    return {'rad': vlib.arr(a[0, 0]), 'uni': bool((a == a[0, 0]).all())}


def digest(img):
    return stack.digest([[int(x) for x in row] for row in img.tolist()])


def conf(cfg, c):
    q = c.qe.qe
    return {'bits': cfg['bit_depth'], 'height': cfg['height'], 'width': cfg['width'], 'area': vlib.num(cfg.get('pixel_area', 25)),
            'iref': vlib.num(cfg.get('dark_current_ref', 30)), 'tref': vlib.num(cfg.get('temperature_ref', 30)),
            'tdbl': vlib.num(cfg.get('temperature_doubling', 8)), 'w': vlib.arr(c.qe.w), 'dark': vlib.num(cfg.get('dark_signal_0', 10)),
            'v': vlib.num(cfg.get('sigma2_dark_0', 10)), 'qmean': vlib.arr(q.mean(axis=(0, 1)))}


def setting(scn, cfg, fixed, lim):
    g = {'mode': 'light' if fixed is not None else 'exposure', 'steps': scn['steps'], 'L': scn.get('L', 3),
         'emin': vlib.num(fixed if fixed is not None else lim.get('exposure_min', cfg.get('exposure_min', 500000))),
         'emax': vlib.num(lim.get('exposure_max', cfg.get('exposure_max', 500000000))),
         'lmin': str(vlib.num(lim.get('radiance_min'))), 'lmax': str(vlib.num(lim.get('radiance_max')))}
    return g


def drive(scn, d):
    import numpy as np
    from emva1288.camera.camera import Camera
    from emva1288.camera.dataset_generator import DatasetGenerator
    from emva1288.camera.points_generator import PointsGenerator
    from emva1288.process.loader import LoadImageData
    from emva1288.process.parser import ParseEmvaDescriptorFile
    from emva1288.process.routines import load_image
    evs = []
    for k, job in enumerate(scn['jobs']):
        cfg = job['cfg']
        h, w = cfg['height'], cfg['width']
        fixed, lim = job.get('fixed'), job.get('lim', {})
        if 'rel' in job:            # radiances relative to saturation
            c = cam.camera({x: v for x, v in cfg.items() if x != 'seed'})
            sat = float(np.mean(c.get_radiance_for(exposure=fixed)))
            lim = dict(lim, **{x: sat * v for x, v in job['rel'].items()})
        ev = {'e': job['op'], 'g': setting(job, cfg, fixed, lim)}
        if job['op'] == 'auto':
            kw = {x: cfg[x] for x in cam.PARAMS if x in cfg}
            if 'dsnu' in cfg:
                kw['dsnu'] = cam.field(cfg['dsnu'], h, w)
            o, gen = vlib.call(DatasetGenerator, steps=1, L=3, outdir=os.path.join(d, 'out%d' % k), qe=cam.qe_of(cfg), **kw)
            ev = {'e': 'auto', 'out': o, 'autoK': 'K' not in cfg, 'autoB': 'blackoffset' not in cfg, 'emin': vlib.num(cfg['exposure_min'])}
            if o == 'ok':
                c = gen.cam
                ev.update(c=conf(cfg, c), Ks=vlib.arr(c.Ks), bos=vlib.arr(c.blackoffsets),
                          d={'mean': vlib.num(cfg['dark_signal_0']), 'v': vlib.num(cfg['sigma2_dark_0']), 'n': h * w, 'top': 2 ** cfg['bit_depth'] - 1,
                             'esat': vlib.num(cfg['u_esat']), 'dsnu': vlib.arr(kw['dsnu'].ravel()) if 'dsnu' in cfg else [0] * (h * w)})
        elif job['op'] == 'points':
            c = cam.camera(cfg)
            kw = dict(lim)
            if fixed is not None:
                kw['exposure_fixed'] = fixed
            kw.update(job.get('settings', {}))
            o, p = vlib.call(PointsGenerator, c, steps=job['steps'], **kw)
            ev.update(out=o, pts=[], c=conf(cfg, c))
            if o == 'ok':
                for kind in ('temporal', 'spatial'):
                    for e, rads in p.points[kind].items():
                        ev['pts'].append({'kind': kind, 'exp': vlib.num(e), 'rads': [rows(x, len(c.qe.w), h, w) for x in rads]})
        else:
            grabs = []
            orig = Camera.grab

            def grab(self, radiance, *a, **kw):
                img = orig(self, radiance, *a, **kw)
                x = rows(radiance, len(self.qe.w), h, w)
                x.update(cam.settings(self), dig=digest(img))
                grabs.append(x)
                return img
            kw = {x: cfg[x] for x in cam.PARAMS if x in cfg}
            q = cam.qe_of(cfg)
            if q is not None:
                kw['qe'] = q
            kw.update(lim)
            if fixed is not None:
                kw['exposure_fixed'] = fixed
            if not job.get('temp'):
                kw['outdir'] = os.path.join(d, 'out%d' % k, 'a b' if k % 2 else 'x')
            if 'format' in job:
                kw['image_format'] = job['format']
            if 'version' in job:
                kw['version'] = job['version']
            Camera.grab = grab
            try:
                o, gen = vlib.call(DatasetGenerator, steps=job['steps'], L=job['L'], **kw)
            finally:
                Camera.grab = orig
            ev.update(out=o, grabs=grabs, text=[], files=[], base=[], version=vlib.codes(job.get('version', '4.0')))
            if o == 'ok':
                c = gen.cam
                path = gen.descriptor_path
                base = os.path.dirname(path)
                ev.update(base=vlib.codes(base), c=conf(cfg, c))
                with open(path, 'rb') as f:
                    ev['text'] = list(f.read())
                for root, _, files in os.walk(base):
                    for f in sorted(files):
                        full = os.path.join(root, f)
                        if full == path:
                            continue
                        o2, img = vlib.call(load_image, full)
                        ev['files'].append({'path': vlib.codes(full), 'ok': o2 == 'ok', 'dig': digest(img) if o2 == 'ok' else '',
                                            'tot': vlib.num(int(np.sum(img, dtype=np.int64))) if o2 == 'ok' else 0})
                o3, info = vlib.call(ParseEmvaDescriptorFile, path)
                ld = {'out': o3, 'pts': []}
                if o3 == 'ok':
                    o3, x = vlib.call(LoadImageData, info.images)
                    ld['out'] = o3
                    if o3 == 'ok':
                        for kind in ('temporal', 'spatial'):
                            for e in x.data[kind]:
                                for p, v in x.data[kind][e].items():
                                    ld['pts'].append({'kind': kind, 'exp': vlib.num(e), 'ph': vlib.num(p), 'L': v.get('L', 0),
                                                      'sum': vlib.num(int(np.sum(v['sum'])))})
                ev['loaded'] = ld
        if ev['out'] == 'ok':
            ev['s'] = dict(cam.settings(c), temp=vlib.num(cfg.get('temperature', 22)), f=vlib.num(cfg.get('f_number', 8)))
        evs.append(ev)
    return {'ev': evs, 'ref': cam.ref()}


def config(r):
    cfg = {'height': r.randint(3, 8), 'width': r.randint(3, 9), 'bit_depth': r.choice([8, 8, 10, 12, 14, 16]), 'seed': r.randrange(2**31)}
    for k, vs in (('pixel_area', [10, 30.5]), ('f_number', [1, 4]), ('temperature', [0, 45]), ('dark_current_ref', [0, 10]),
                  ('dark_signal_0', [0, 40.]), ('sigma2_dark_0', [1, 100.]), ('K', [.2, 1, 2.5]), ('blackoffset', [0, 3, 12]),
                  ('u_esat', [5000, 200000.]), ('exposure', [3000])):
        if r.random() < .4:
            cfg[k] = r.choice(vs)
    if r.random() < .6:
        cfg['exposure_min'] = r.choice([1000, 20000.5, 1e6])
        cfg['exposure_max'] = cfg['exposure_min'] * r.choice([2, 7.7, 1000])
    if r.random() < .8:
        nw = r.choice([1, 1, 2])
        cfg['qe'] = {'w': [r.choice([450., 532.]) + 60 * k for k in range(nw)],
                     'qe': [r.choice([.4, .75, {'seed': 5, 'lo': .3, 'hi': .6}]) for _ in range(nw)]}
    return cfg


def auto(r):
    """A camera whose gain or black offset the generator chooses."""
    cfg = {'bit_depth': r.choice([8, 10, 12]), 'seed': r.randrange(2**31), 'u_esat': 50000., 'temperature': 22,
           'qe': {'w': [532.], 'qe': [.5]}, 'exposure_min': r.choice([1000000, 5000]), 'dark_current_ref': 0}
    cfg['exposure_max'] = cfg['exposure_min'] * r.choice([10, 1000])
    lo = r.choice([.02, .05, .1])
    cfg.update(K_min=lo, K_max=lo * r.choice([3, 10, 40]), K_steps=r.choice([2, 5, 12, 30]))
    if r.random() < .3:                       # no noise: the zeros are told exactly
        cfg.update(height=r.randint(8, 20), width=r.randint(8, 20), sigma2_dark_0=0, dark_signal_0=r.choice([0, 2., 20.]))
        if r.random() < .8:
            cfg['dsnu'] = {'seed': r.randrange(10**6), 'kind': 'normal', 'mean': r.choice([0, 5]), 'std': r.choice([1, 5, 20])}
    else:
        s = 10 ** r.uniform(.2, 1.5)
        cfg.update(height=r.choice([64, 100]), width=r.choice([64, 110]), sigma2_dark_0=s * s, dark_signal_0=s * r.choice([0, 1, 3, 5, 10]))
        th = s * s * r.uniform(.01, .1)       # and some dark current
        if th * cfg['exposure_max'] / cfg['exposure_min'] < .3 * 2 ** cfg['bit_depth'] / cfg['K_max']:
            cfg['dark_current_ref'] = th * 1e9 / cfg['exposure_min']
            cfg['temperature_ref'] = r.choice([22, 30])
    top = r.choice([None, .4, 2, 5])
    if r.random() < .5:         # the share of zeros falls slowly over the offsets
        k = cfg['K'] = cfg['K_min']
        s = r.uniform(.1, .6) / k
        if cfg['sigma2_dark_0']:
            cfg.update(sigma2_dark_0=s * s, dark_signal_0=.5 / k + s * r.uniform(0, 3), dark_current_ref=0)
        else:
            cfg.update(dark_signal_0=.5 / k, dsnu={'seed': r.randrange(10**6), 'kind': 'normal', 'mean': s * r.uniform(0, 3), 'std': s})
        cfg.update(blackoffset_max=.5, blackoffset_steps=r.choice([6, 11, 21]))
        return {'op': 'auto', 'cfg': cfg, 'steps': 1}
    if top:
        cfg.update(blackoffset_max=top, blackoffset_steps=r.choice([2, 6, 20]))
    x = r.random()
    if x < .25:
        cfg['K'] = r.uniform(cfg['K_min'], cfg['K_max'])
    elif x < .5:
        cfg['blackoffset'] = r.choice([0, .3, 2])
    return {'op': 'auto', 'cfg': cfg, 'steps': 1}


def job(r, op=None, mode=None, steps=None, L=None):
    cfg = config(r)
    j = {'op': op or r.choice(['points', 'points', 'dataset']), 'cfg': cfg, 'steps': steps or r.choice([1, 2, 3, 4, 5, 6, 9]),
         'L': L or r.choice([3, 3, 4, 5])}
    if (mode or r.choice(['exposure', 'light'])) == 'light':
        j['fixed'] = r.choice([5000, 1000000, 123456789])
        x = r.random()
        if x < .7:
            j['rel'] = {}
            if x < .55:
                j['rel']['radiance_min'] = r.choice([.01, .05, .2])
            if x > .15:
                j['rel']['radiance_max'] = r.choice([.5, .9, 1, 1.3] if 'radiance_min' in j['rel'] else [.95, 1, 1.3])
    elif j['op'] == 'points' and r.random() < .5:
        j['lim'] = {'exposure_min': r.choice([100, 7777.7]), 'exposure_max': r.choice([50000, 9e8])}
        if r.random() < .4:
            del j['lim'][r.choice(list(j['lim']))]
            if 'exposure_max' in j['lim'] and j['lim']['exposure_max'] <= cfg.get('exposure_min', 500000):
                j['lim']['exposure_max'] = 9e9
    if j['op'] == 'points':
        if 'fixed' in j and 'rel' not in j and r.random() < .6:
            j['settings'] = r.choice([{'gain': .5}, {'blackref': 4}, {'gain': 2, 'blackref': 8}])
    else:
        f = r.choice([None, 'png', 'tif'] + (['bmp'] if cfg['bit_depth'] == 8 else []))
        if f:
            j['format'] = f
        if r.random() < .2:
            j['temp'] = True
        if r.random() < .3:
            j['version'] = '3.0'
    return j


def scenarios(ctx):
    r = ctx.rng
    scns = []
    for e in ctx.mc('MC_Dataset', ctx.n('MC_Dataset', 'MC_Dataset_deep')):
        scns.append({'src': 'tlc', 'jobs': [job(r, op, e['mode'], e['steps'], e['L']) for op in ('dataset', 'points')]})
    for _ in range(ctx.n(120, 2500)):
        scns.append({'jobs': [job(r) for _ in range(r.choice([1, 2, 3]))]})
    for _ in range(ctx.n(40, 600)):
        scns.append({'jobs': [auto(r)]})
    return scns


def canaries(traces):
    out = []
    for t in traces:
        for k, e in enumerate(t['ev']):
            if e['out'] != 'ok' or len([c for c in out]) >= 12 and e['e'] != 'auto':
                continue
            if e['e'] == 'auto':
                f = 'K' if e['autoK'] else 'bo'
                out.append(vlib.corrupt(t, ['ev', k, 's', f], vlib.bump(e['s'][f], .01)))
            elif e['e'] == 'dataset':
                out.append(vlib.corrupt(t, ['ev', k, 'files', 0, 'dig'], 'x') if len(out) % 2 else
                           vlib.corrupt(t, ['ev', k, 'files'], e['files'][1:]))
            else:
                out.append(vlib.corrupt(t, ['ev', k, 'pts', 0, 'exp'], vlib.bump(e['pts'][0]['exp'], .01)))
    return out
