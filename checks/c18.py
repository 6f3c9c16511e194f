"""C18: the simulated camera has the configured transfer characteristic."""
import math

import cam
import vlib

TRACE = 'Trace_Camera'
RULE = ('every point of the transfer curves enumerated by TLC from MC_Camera (bit depths, gains, offsets, full wells, electrons '
        'around each corner), cameras so bright or hot that the shot noise is below one DN, cameras whose electrons can be '
        'counted in the image, and large noisy images, with QE, PRNU, DSNU and radiance scalar or per pixel, temperature and '
        'f-number of the environment or of one grab; Camera.tla gives the interval of each pixel, the lattice of whole '
        'electrons, mean, variance, fourth moment and correlations')
ASSUMPTIONS = ['radiance, QE, PRNU and dark current are not negative', 'bit depths 8 to 16',
               'noise is judged by 6 sigma intervals and by the pixels it can reach with a probability over 1e-12',
               'the constants h and c may be chosen within 0.3 %']
SCENARIO_TIMEOUT = 120


def drive(scn, d):
    import numpy as np
    from emva1288.camera.bad_images import bad_pixel
    cfg = scn['cfg']
    h, w = cfg['height'], cfg['width']
    c = cam.camera(cfg)
    q = cfg.get('qe')
    if q is not None and q.get('qe') is not None:
        qe = np.stack([cam.field(x, h, w) for x in q['qe']], axis=2)
        if q.get('filter') is not None:
            qe = qe * np.stack([cam.field(x, h, w) for x in q['filter']], axis=2)
    else:
        qe = np.array(c.qe.qe)
    wl = [float(x) for x in c.qe.w]
    prnu = np.ones((h, w)) if cfg.get('prnu') is None else cam.field(cfg['prnu'], h, w)
    dsnu = np.zeros((h, w)) if cfg.get('dsnu') is None else cam.field(cfg['dsnu'], h, w)
    env = {'temperature': cfg.get('temperature', 22), 'f_number': cfg.get('f_number', 8)}
    conf = {'bits': cfg['bit_depth'], 'height': h, 'width': w, 'uesat': vlib.num(cfg.get('u_esat', 15000.)),
            'ds0': vlib.num(cfg.get('dark_signal_0', 10.)), 's2': vlib.num(cfg.get('sigma2_dark_0', 10.)),
            'iref': vlib.num(cfg.get('dark_current_ref', 30)), 'tref': vlib.num(cfg.get('temperature_ref', 30)),
            'tdbl': vlib.num(cfg.get('temperature_doubling', 8)), 'area': vlib.num(cfg.get('pixel_area', 25)),
            'w': vlib.arr(wl), 'qe': cam.planes(qe), 'prnu': vlib.arr(prnu.ravel())}
    evs = []
    for a in scn['acts']:
        if a['op'] == 'set':
            for k in ('exposure', 'K', 'blackoffset'):
                if k in a:
                    setattr(c, k, a[k])
            for k in ('temperature', 'f_number'):
                if k in a:
                    c.environment[k] = env[k] = a[k]
            if 'dsnu' in a:
                dsnu = cam.field(a['dsnu'], h, w)
                c.DSNU = dsnu.copy()
        elif a['op'] == 'bad':
            np.random.seed(a['seed'])
            v0 = np.array(c.DSNU)
            kw = {} if a['value'] == 1 and a['seed'] % 2 else {'bad_value': a['value']}
            o, _ = vlib.call(bad_pixel, c, a['n'], **kw)
            dsnu = np.array(c.DSNU)
            evs.append({'op': 'bad', 'out': o, 'n': a['n'], 'value': vlib.num(a['value']), 'dsnu0': vlib.arr(v0.ravel()),
                        'dsnu1': vlib.arr(dsnu.ravel())})
        else:
            s = cam.settings(c)
            s['dsnu'] = vlib.arr(dsnu.ravel())
            kw = {k: a[k] for k in ('temperature', 'f_number') if k in a}
            rad = cam.light(a['rad'], cfg, len(wl))
            outs = [vlib.call(c.grab, rad, **kw) for _ in range(a.get('m', 1))]
            bad = [o for o, _ in outs if o != 'ok']
            ev = {'op': 'grab', 's': s, 'temp': vlib.num(a.get('temperature', env['temperature'])),
                  'f': vlib.num(a.get('f_number', env['f_number'])), 'rad': cam.light_rows(rad, len(wl)),
                  'out': bad[0] if bad else 'ok', 'imgs': [], 'types': [], 'shapes': []}
            if not bad:
                for _, img in outs:
                    ev['imgs'].append(vlib.arr(img.ravel()))
                    ev['types'].append(img.dtype.name)
                    ev['shapes'].append(list(img.shape))
            evs.append(ev)
    return {'ev': evs, 'c': conf, 'ref': cam.ref()}


PHOTON = 1.989e-25


def rad_for(cfg, n, exposure, f, wl, qe=1.0):
    """Radiance giving about n photo electrons (generator only)."""
    per = sum(qe * math.pi * exposure * 1e-9 * cfg.get('pixel_area', 25) * 1e-12 * (x * 1e-9) ** 2 / PHOTON / (1 + 4 * f * f)
              for x in wl)
    return n / per


def base(r, h, w, bits=None):
    return {'height': h, 'width': w, 'bit_depth': bits or r.randint(8, 16), 'seed': r.randrange(2**31),
            'pixel_area': r.choice([25, 1, 3.45, 100.5]), 'f_number': r.choice([8, 1.4, 0.5, 22]),
            'temperature': r.choice([22, 30, 0, -10, 55.5]), 'temperature_ref': r.choice([30, 25, 20.5]),
            'temperature_doubling': r.choice([8, 6.3, 10]), 'exposure': r.choice([1000000, 500000, 33333.3, 10**9]),
            'dark_current_ref': 0, 'dark_signal_0': 0.0, 'sigma2_dark_0': 0, 'u_esat': 1e30}


def gain(cfg, k):
    cfg.update(K=k, K_min=k, K_max=k, K_steps=1)


def offset(cfg, b):
    cfg.update(blackoffset=b, blackoffset_min=b, blackoffset_max=b + 100, blackoffset_steps=2)


def qe_conf(r, picture=True, nw=None):
    nw = nw or r.choice([1, 1, 2, 3])
    q = {'w': [r.choice([400.0, 530.0, 622.5, 800.0, 1000.0]) for _ in range(nw)]}
    q['qe'] = [{'seed': r.randrange(10**6), 'lo': 0.1, 'hi': 1.0} if picture else round(r.uniform(.1, 1), 3) for _ in range(nw)]
    if picture and r.random() < .3:
        q['filter'] = [{'seed': r.randrange(10**6), 'lo': 0.0, 'hi': 1.0} for _ in range(nw)]
    return q


def envs(r, a):
    if r.random() < .5:
        a['temperature'] = r.choice([0, 22, -20, 30, 47.5, 60])
    if r.random() < .5:
        a['f_number'] = r.choice([0, 1, 2.8, 8, 16])
    return a


def bright(r):
    """So many electrons that their noise is far below one DN."""
    h, w = r.randint(1, 5), r.randint(1, 6)
    cfg = base(r, h, w)
    top = 2 ** cfg['bit_depth'] - 1
    scale = 1e15
    gain(cfg, top / scale)
    offset(cfg, r.choice([0, 0, 3, 12.5, -20]))
    cfg['qe'] = qe_conf(r) if r.random() < .8 else None
    if r.random() < .7:
        cfg['prnu'] = {'seed': r.randrange(10**6), 'kind': 'normal', 'mean': 1, 'std': .2} if r.random() < .5 else \
            {'seed': r.randrange(10**6), 'lo': 0.5, 'hi': 1.5}
    if r.random() < .5:
        cfg['dsnu'] = {'seed': r.randrange(10**6), 'lo': -scale / 5, 'hi': scale / 5, 'digits': 0}
    if r.random() < .6:
        cfg['dark_current_ref'] = scale / 10 / cfg['exposure'] * 1e9
    if r.random() < .5:
        cfg['dark_signal_0'] = scale * r.choice([.01, .1, -.05])
    if r.random() < .4:
        cfg['u_esat'] = scale * r.choice([.3, .6, .9])
    exp, f, temp = cfg['exposure'], cfg['f_number'], cfg['temperature']
    wl = cfg['qe']['w'] if cfg['qe'] else [400 + k * 4.04 for k in range(100)]
    acts = []
    for _ in range(r.randint(2, 5)):
        if r.random() < .4:
            s = {'op': 'set'}
            k = r.choice(['exposure', 'temperature', 'f_number', 'dsnu'])
            if k == 'exposure':
                s[k] = exp = exp * r.choice([2, .5, 1.37])
            elif k == 'temperature':
                s[k] = temp = r.choice([0, 15, 28.5, 30, 40])
            elif k == 'f_number':
                s[k] = f = r.choice([0.95, 2, 4, 11])
            else:
                s[k] = {'seed': r.randrange(10**6), 'lo': 0, 'hi': scale / 10, 'digits': 0}
            acts.append(s)
        a = envs(r, {'op': 'grab'})
        n = scale * r.choice([0, .2, .5, .7, 1, 3])
        rad = rad_for(cfg, n, exp, a.get('f_number', f), wl, .5)
        style = r.choice(['scalar', 'scalar', 'wave', 'picture'])
        if style == 'wave':
            rad = [rad * r.uniform(.5, 1.5) for _ in wl]
        elif style == 'picture':
            rad = {'rows': [{'seed': r.randrange(10**6), 'lo': rad * .5, 'hi': rad * 1.5, 'digits': 30} for _ in wl]}
        a['rad'] = rad
        acts.append(a)
    if r.random() < .3:
        acts.insert(r.randrange(len(acts)), bad(r, h, w))
        acts.append({'op': 'grab', 'rad': 0})
    return {'cfg': cfg, 'acts': acts}


def bad(r, h, w):
    return {'op': 'bad', 'seed': r.randrange(2**31), 'n': r.choice([0, 1, h * w // 2, h * w, r.randint(0, h * w)]),
            'value': r.choice([1, 1, .5, .25, 0.9])}


def counting(r):
    """The electrons can be counted in the image."""
    h, w = r.randint(4, 8), r.randint(4, 8)
    cfg = base(r, h, w, r.randint(10, 16))
    gain(cfg, r.choice([3, 5, 8, 17.25, 40.5]))
    offset(cfg, r.choice([0, 7, 100]))
    cfg['dark_signal_0'] = r.choice([0, 10., 20.5, 33.25])
    cfg['qe'] = qe_conf(r)
    cfg['u_esat'] = r.choice([1e30, 15000., 40.])
    n = r.choice([0, .3, 2, 10])
    cfg['dark_current_ref'] = 0 if n and r.random() < .4 else r.choice([.5, 3, 12]) * 1e9 / cfg['exposure']
    rad = rad_for(cfg, n, cfg['exposure'], cfg['f_number'], cfg['qe']['w'], .5)
    return {'cfg': cfg, 'acts': [{'op': 'grab', 'rad': rad, 'm': 2}]}


def noisy(r):
    """Large images whose statistics can be judged."""
    h, w = r.choice([(40, 40), (25, 80), (64, 25), (50, 50)])
    cfg = base(r, h, w, r.choice([12, 14, 16]))
    top = 2 ** cfg['bit_depth'] - 1
    picture = r.random() < .4
    cfg['qe'] = qe_conf(r, picture, r.choice([1, 1, 2]))
    which = r.choice(['photo', 'thermal', 'dark', 'dark', 'all'])
    if which == 'dark':
        h = w = cfg['height'] = cfg['width'] = 100
    n = r.choice([30, 100, 900]) if which in ('photo', 'all') else 0
    if which in ('thermal', 'all'):
        cfg['dark_current_ref'] = r.choice([20, 100, 400]) * 1e9 / cfg['exposure'] / \
            2 ** ((cfg['temperature'] - cfg['temperature_ref']) / cfg['temperature_doubling'])
    if which in ('dark', 'all'):
        cfg['sigma2_dark_0'] = r.choice([4., 50, 400])
    cfg['dark_signal_0'] = r.choice([400., 250.5])
    if r.random() < .4:
        cfg['dsnu'] = {'seed': r.randrange(10**6), 'kind': 'normal', 'mean': 0, 'std': 5}
    if r.random() < .4:
        cfg['prnu'] = {'seed': r.randrange(10**6), 'kind': 'normal', 'mean': 1, 'std': .03}
    noise = math.sqrt(n * .8 + 100 * bool(cfg['dark_current_ref']) + cfg['sigma2_dark_0'])
    gain(cfg, max(1.6 / noise, min(1., top / 4000)))
    offset(cfg, r.choice([0, 10]))
    a = {'op': 'grab', 'm': 2, 'rad': 0}
    if n:
        a['rad'] = rad_for(cfg, n, cfg['exposure'], cfg['f_number'], cfg['qe']['w'], .6)
        if r.random() < .3:
            a['rad'] = [a['rad']] * len(cfg['qe']['w'])
    return {'cfg': cfg, 'acts': [a]}


def usual(r):
    """Anything, small."""
    h, w = r.randint(1, 4), r.randint(1, 5)
    cfg = base(r, h, w)
    top = 2 ** cfg['bit_depth'] - 1
    cfg.update(dark_current_ref=r.choice([0, 30, 1000]), dark_signal_0=r.choice([10., 0., -4., 100]),
               sigma2_dark_0=r.choice([10., 0, 1, 64]), u_esat=r.choice([15000., 800, 1e5]))
    gain(cfg, r.choice([.1, 1, 4.5, top / 12000]))
    offset(cfg, r.choice([0, 8, 20, -6]))
    if r.random() < .7:
        cfg['qe'] = qe_conf(r)
    wl = cfg['qe']['w'] if cfg.get('qe') else [400 + k * 4.04 for k in range(100)]
    acts = []
    for _ in range(3):
        a = envs(r, {'op': 'grab'})
        a['rad'] = rad_for(cfg, r.choice([0, 10, 1000, 20000, 1e7]), cfg['exposure'], a.get('f_number', cfg['f_number']), wl, .5)
        acts.append(a)
    if r.random() < .5:
        acts.insert(1, bad(r, h, w))
    return {'cfg': cfg, 'acts': acts}


def scenarios(ctx):
    r = ctx.rng
    scns = []
    for e in ctx.mc('MC_Camera', ctx.n('MC_Camera', 'MC_Camera_deep')):
        px = [float(vlib.frac(x)) for x in e['e']]
        r.shuffle(px)
        cfg = base(r, 4, 4, e['bits'])
        assert len(px) == 16
        cfg['u_esat'] = e['uesat']
        gain(cfg, float(vlib.frac(e['K'])))
        offset(cfg, e['bo'])
        cfg['dsnu'] = px
        cfg['qe'] = {'w': [500.0], 'qe': [.5]}
        scns.append({'src': 'tlc', 'cfg': cfg, 'acts': [envs(r, {'op': 'grab', 'rad': 0})]})
    for fn, q, t in ((bright, 250, 4000), (counting, 80, 1500), (noisy, 40, 600), (usual, 100, 2000)):
        scns += [fn(r) for _ in range(ctx.n(q, t))]
    return scns


def canaries(traces):
    out = []
    for t in traces:
        if len(out) >= 12:
            break
        g = [k for k, e in enumerate(t['ev']) if e['op'] == 'grab' and e['out'] == 'ok']
        if not g or (t['id'].startswith('tlc') and len(out) > 4):
            continue
        k = g[-1]
        img = t['ev'][k]['imgs'][0]
        v = img[0]
        out.append(vlib.corrupt(t, ['ev', k, 'imgs', 0, 0], v + 3 if v < 200 else v - 3))
    return out
