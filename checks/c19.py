"""C19: camera state: settings snap, stick, and only settings change them."""
import json

import cam
import stack
import vlib

TRACE = 'Trace_CamState'
RULE = ('histories of cameras in one process: two cameras of one configuration and seed of which the second repeats the first at '
        'any pace with disturbances in between (all interleavings of short programs, enumerated by TLC from MC_CamState), and '
        'random long histories of up to five cameras; after every operation all settings and constants of all cameras are '
        'compared with the state of CamState.tla, and each image with all images of equal history')
ASSUMPTIONS = ['the environment is a dictionary that is replaced or whose entries are set', 'blackoffset_max is not 0 (which stands for the default)',
               'exposure, temperature and f-number are any positive numbers (0 for the latter two also)']


def state(c):
    return {'K': vlib.num(c.K), 'bo': vlib.num(c.blackoffset), 'exp': vlib.num(c.exposure),
            'temp': vlib.num(c.environment['temperature']), 'f': vlib.num(c.environment['f_number']), 'dsnu': stack.digest(c.DSNU)}


def const(c):
    return stack.digest([c.width, c.height, c.bit_depth, c.pixel_area, c.img_max, c.exposure_min, c.exposure_max,
                         list(c.Ks), list(c.blackoffsets), c.qe.qe, c.qe.w])


def drive(scn, d):
    import numpy as np
    from emva1288.camera.bad_images import bad_pixel
    cams, evs, cfgs = [], [], []

    def rec(e, **k):
        k.update(e=e, all=[state(c) for c in cams], const=[const(c) for c in cams])
        evs.append(k)
    for o in scn['ops']:
        op = o['op']
        what = json.dumps({k: v for k, v in o.items() if k != 'cam'}, sort_keys=True)
        if op == 'new':
            cfg = o['cfg']
            h, w = cfg['height'], cfg['width']
            c = cam.camera(cfg)
            cams.append(c)
            cfgs.append(cfg)
            top = 2 ** cfg['bit_depth'] - 1
            g = {'key': what if 'seed' in cfg else 'camera %d' % len(cams), 'kmin': vlib.num(cfg.get('K_min', .1)),
                 'kmax': vlib.num(cfg.get('K_max', 17.)), 'ksteps': cfg.get('K_steps', 255),
                 'bmin': vlib.num(cfg.get('blackoffset_min', 0)),
                 'bmax': vlib.num(cfg.get('blackoffset_max', top // 16)), 'bsteps': cfg.get('blackoffset_steps', 255),
                 'pixels': h * w, 'bits': cfg['bit_depth'], 'ds0': vlib.num(cfg.get('dark_signal_0', 10.)),
                 's2': vlib.num(cfg.get('sigma2_dark_0', 10.)), 'iref': vlib.num(cfg.get('dark_current_ref', 30)),
                 'tref': vlib.num(cfg.get('temperature_ref', 30)), 'tdbl': vlib.num(cfg.get('temperature_doubling', 8))}
            dsnu = np.zeros((h, w)) if cfg.get('dsnu') is None else cam.field(cfg['dsnu'], h, w)
            rec('new', g=g, s={'K': vlib.num(cfg.get('K', .1)), 'bo': vlib.num(cfg.get('blackoffset', 0)),
                               'exp': vlib.num(cfg.get('exposure', 1000000)), 'temp': vlib.num(cfg.get('temperature', 22)),
                               'f': vlib.num(cfg.get('f_number', 8)), 'dsnu': stack.digest(dsnu)},
                ks=vlib.arr(c.Ks), bs=vlib.arr(c.blackoffsets))
            continue
        if op == 'global':
            np.random.seed(o['seed'])
            np.random.rand(3)
            rec('global')
            continue
        k = o['cam']
        c, cfg = cams[k - 1], cfgs[k - 1]
        h, w = cfg['height'], cfg['width']
        if op == 'set':
            f, v = o['field'], o['v']
            if f in ('K', 'exp', 'bo'):
                out, _ = vlib.call(setattr, c, {'K': 'K', 'exp': 'exposure', 'bo': 'blackoffset'}[f], v)
            elif f == 'dsnu':
                v = cam.field(v, h, w)
                out, _ = vlib.call(setattr, c, 'DSNU', v)
                v = stack.digest(v)
            else:
                name = {'temp': 'temperature', 'f': 'f_number'}[f]
                if o.get('replace'):
                    c.environment = dict(c.environment, **{name: v})
                else:
                    c.environment[name] = v
                out = 'ok'
            rec('set', cam=k, what=what, field=f, v=v if f == 'dsnu' else vlib.num(v), out=out)
        elif op == 'grab':
            kw = {x: o[x] for x in ('temperature', 'f_number') if x in o}
            rad = cam.light(o['rad'], cfg, len(c.qe.w))
            h0 = stack.digest(rad)
            out, img = vlib.call(c.grab, rad, **kw)
            rec('grab', cam=k, what=what, out=out if h0 == stack.digest(rad) else 'radiance-modified', seeded='seed' in cfg,
                dark=isinstance(o['rad'], (int, float)) and o['rad'] == 0,
                temp=vlib.num(o.get('temperature', c.environment['temperature'])), dig=stack.digest(img),
                seed=str(cfg.get('seed', 'camera %d' % k)))
        elif op == 'conv':
            kw = {x: o[x] for x in ('exposure', 'f_number', 'mean') if x in o}
            if o['kind'] == 'photons':
                vlib.call(c.get_photons, o['x'], **kw)
            else:
                vlib.call(c.get_radiance_for, **kw)
            rec('conv')
        elif op == 'bad':
            np.random.seed(o['seed'])
            bad_pixel(c, o['n'])
            v = stack.digest(c.DSNU)
            rec('set', cam=k, what=what, field='dsnu', v=v, out='ok')
    return {'ev': evs}


def config(r, seed=None):
    h, w = r.choice([(8, 9), (12, 6), (10, 10), (2, 3)])
    cfg = {'height': h, 'width': w, 'bit_depth': r.choice([8, 10, 12, 14]), 'seed': r.choice([0, 1, 7, 123456]) if seed is None else seed}
    if r.random() < .6:
        cfg.update(K_min=r.choice([.05, .1, 1]), K_max=r.choice([2, 5., 10]), K_steps=r.choice([2, 3, 10, 33]))
    if r.random() < .6:
        cfg.update(blackoffset_min=r.choice([0, 1, -2]), blackoffset_max=r.choice([5, 16, 40.]), blackoffset_steps=r.choice([2, 5, 16]))
    if r.random() < .6:
        cfg.update(sigma2_dark_0=r.choice([100., 36.]), dark_signal_0=r.choice([30, 25.5]))
    for k, vs in (('K', [.1, .7, 1.26, 3, 20]), ('blackoffset', [0, 3.3, 9, 100]), ('exposure', [1000, 2.5e6]),
                  ('temperature', [0, 25, 40.5]), ('f_number', [1, 5.6])):
        if r.random() < .4:
            cfg[k] = r.choice(vs)
    if r.random() < .3:
        cfg['dsnu'] = {'seed': r.randrange(10**6), 'lo': 0, 'hi': 3}
    if r.random() < .5:
        cfg['qe'] = {'w': [500.0, 600.0], 'qe': [.5, {'seed': 3, 'lo': .2, 'hi': .8}]}
    return cfg


def operation(r, k, cfg):
    x = r.random()
    if x < .45:
        f = r.choice(['K', 'K', 'bo', 'bo', 'exp', 'temp', 'f', 'dsnu'])
        lo, hi = cfg.get('K_min', .1), cfg.get('K_max', 17.)
        n = cfg.get('K_steps', 255)
        v = {'K': lambda: r.choice([lo, hi, lo + (hi - lo) / (n - 1) * (r.randrange(n) + r.choice([0, .5, .49, .51, .01, -.3])),
                                    -5, 0, 1000, r.uniform(lo, hi)]),
             'bo': lambda: r.choice([0, -4, 1, 2.5, 3, 7, 15.99, 1e4, r.uniform(0, 20)]),
             'exp': lambda: r.choice([1, 500000, 1e6, 123456.7, 10**9]),
             'temp': lambda: r.choice([0, -10, 22, 22.5, 60]), 'f': lambda: r.choice([0, 1, 2.8, 8, 16]),
             'dsnu': lambda: r.choice([{'seed': r.randrange(100), 'lo': -2, 'hi': 6}, 0, 5])}[f]()
        o = {'op': 'set', 'cam': k, 'field': f, 'v': v}
        if f in ('temp', 'f') and r.random() < .4:
            o['replace'] = True
        return o
    if x < .8:
        o = {'op': 'grab', 'cam': k, 'rad': r.choice([0, 0, 0, 1e-7, 1e-4])}
        if cfg.get('qe') and r.random() < .3:
            o['rad'] = {'rows': [{'seed': r.randrange(100), 'lo': 0, 'hi': 1e-5, 'digits': 12}] * 2}
        if r.random() < .3:
            o['temperature'] = r.choice([0, 50, -5])
        if r.random() < .3:
            o['f_number'] = r.choice([0, 1.4, 8])
        return o
    if x < .95:
        o = {'op': 'conv', 'cam': k, 'kind': r.choice(['photons', 'radiance'])}
        if o['kind'] == 'photons':
            o['x'] = r.choice([0, 1e-6, 3])
            if r.random() < .4:
                o['f_number'] = r.choice([1, 3])
        elif r.random() < .5:
            o['mean'] = r.choice([10, 100.])
        if r.random() < .5:
            o['exposure'] = r.choice([1000, 1e7])
        return o
    return {'op': 'bad', 'cam': k, 'n': r.randint(0, 3), 'seed': r.randrange(1000)}


def history(r):
    """Several cameras; twins replay each other's operations."""
    base = config(r)
    cfgs = [base, base, config(r), config(r)][:r.choice([2, 3, 4])]
    if len(cfgs) > 2 and r.random() < .5:
        cfgs[2] = dict(base, seed=base['seed'] + 1)
    if r.random() < .2:
        cfgs[-1] = {k: v for k, v in cfgs[-1].items() if k != 'seed'}
    ops = []
    made = 0
    queues = {k: [] for k in range(1, len(cfgs) + 1)}
    prog = []
    todo = r.randint(6, 16)
    at = {1: 0, 2: 0}
    while todo > 0 or at[2] < len(prog) or made < len(cfgs):
        if made < len(cfgs) and (made == 0 or r.random() < .4 or todo <= 0):
            ops.append({'op': 'new', 'cfg': cfgs[made]})
            made += 1
            continue
        if r.random() < .12:
            ops.append({'op': 'global', 'seed': r.randrange(4)})
        k = r.randint(1, made)
        if todo <= 0 and made >= 2:
            k = r.choice([2, 2, k])
        if k == 2:
            if at[2] < len(prog):
                ops.append(dict(prog[at[2]], cam=2))
                at[2] += 1
            continue
        if todo <= 0 and k == 1:
            continue
        o = operation(r, k, cfgs[k - 1])
        ops.append(o)
        todo -= 1
        if k == 1 and o['op'] != 'conv':
            prog.append(o)
    return {'ops': ops}


def from_model(log, r):
    cfg = {'height': 8, 'width': 9, 'bit_depth': r.choice([8, 12]), 'seed': r.choice([0, 5]), 'K': 1, 'K_min': 1, 'K_max': 3, 'K_steps': 5,
           'blackoffset': 0, 'blackoffset_min': 0, 'blackoffset_max': 10, 'blackoffset_steps': 3, 'exposure': 1, 'dark_signal_0': 25,
           'sigma2_dark_0': 25., 'qe': {'w': [550.0], 'qe': [.5]}}
    ops = [{'op': 'new', 'cfg': cfg}, {'op': 'new', 'cfg': cfg}, {'op': 'new', 'cfg': dict(cfg, seed=r.choice([cfg['seed'], 99]))}]
    grabs = {'plain': {'rad': 0}, 'hot': {'rad': 0, 'temperature': 60}, 'lit': {'rad': 1e3, 'f_number': 2}}
    for e in log:
        k, (a, b) = e['cam'], e['op']
        if a == 'grab':
            ops.append(dict(grabs[b], op='grab', cam=k))
        elif a == 'conv':
            ops.append({'op': 'conv', 'cam': k, 'kind': b, 'exposure': 77} | ({'x': 2.0, 'f_number': 3} if b == 'photons' else {'mean': 50}))
        elif a == 'other':
            ops.append(r.choice([{'op': 'grab', 'cam': 3, 'rad': 0}, {'op': 'set', 'cam': 3, 'field': 'K', 'v': 2},
                                 {'op': 'set', 'cam': 3, 'field': 'temp', 'v': 1}, {'op': 'bad', 'cam': 3, 'n': 2, 'seed': 1}]))
        elif a == 'global':
            ops.append({'op': 'global', 'seed': 3})
        else:
            ops.append({'op': 'set', 'cam': k, 'field': a,
                        'v': {'seed': 4, 'lo': 0, 'hi': 9} if a == 'dsnu' else float(b)})
    return {'src': 'tlc', 'ops': ops}


def scenarios(ctx):
    r = ctx.rng
    em = ctx.mc('MC_CamState', ctx.n('MC_CamState', 'MC_CamState_deep'))
    em = r.sample(em, min(len(em), ctx.n(600, 20000)))
    scns = [from_model(e, r) for e in em]
    scns += [history(r) for _ in range(ctx.n(250, 5000))]
    return scns


def canaries(traces):
    out = []
    for t in traces:
        g = [k for k, e in enumerate(t['ev']) if e['e'] == 'grab']
        if len(out) >= 12 or not g:
            continue
        if len(out) % 2:
            out.append(vlib.corrupt(t, ['ev', g[-1], 'all', 0, 'K'], vlib.bump(t['ev'][g[-1]]['all'][0]['K'])))
        else:
            two = [k for k in g if t['ev'][k]['cam'] == 2]
            if t['id'].startswith('tlc') and two:
                out.append(vlib.corrupt(t, ['ev', two[-1], 'dig'], 'x'))
            else:
                out.append(vlib.corrupt(t, ['ev', g[0], 'const', 0], 'x'))
    return out
