"""C20: photon and radiance conversions and image helpers."""
import cam
import stack
import vlib

TRACE = 'Trace_CamConv'
RULE = ('all patterns up to 3x3 tiled to all sizes up to 5x5 and all short arrays searched for their nearest value (MC_CamRoutines), '
        'and random conversions (scalar, per wavelength, per pixel), cameras asked for photons and for the radiance of a grey '
        'value, tilings, Bayer filters and quantum efficiencies; each result is compared with Camera.tla')
ASSUMPTIONS = ['exposures, areas, wavelengths and grey values are positive; the f-number may be 0',
               'get_radiance_for: PRNU of ones', 'nearest_value: one-dimensional arrays', 'array_tile: patterns of pixels with one value per wavelength',
               'Bayer colours lie within the wavelengths', 'the constants h and c may be chosen within 0.3 %']


def rows(a, nw):
    import numpy as np
    a = np.asarray(a, dtype=np.float64)
    return vlib.arr(np.broadcast_to(a, a.shape[:-1] + (nw,) if a.ndim else (nw,)).reshape(-1, nw))


def pic(a):
    import numpy as np
    return vlib.arr(np.atleast_2d(np.asarray(a)))


def drive(scn, d):
    import numpy as np
    from emva1288.camera import routines as R
    evs = []
    for c in scn['calls']:
        op = c['op']
        g = np.random.RandomState(c.get('seed', 0))
        h, w = c.get('height', 1), c.get('width', 1)
        ev = {'e': op}
        if op in ('photons', 'radiance'):
            wl = np.array(c['w'], dtype=c.get('wdt', 'f8'))
            x = c['x'] if c['style'] == 'scalar' else c['x'] * g.uniform(.1, 2, len(wl)) if c['style'] == 'wave' else \
                c['x'] * g.uniform(0, 2, (h, w, len(wl)))
            h0 = stack.digest([x, wl])
            if op == 'photons':
                o, y = vlib.call(R.get_photons, c['exp'], x, c['area'], wl, c['f'])
                o2, z = vlib.call(R.get_radiance, c['exp'], y, c['area'], c['f'], wl)
            else:
                o, y = vlib.call(R.get_radiance, c['exp'], x, c['area'], c['f'], wl)
                o2, z = vlib.call(R.get_photons, c['exp'], y, c['area'], wl, c['f'])
            ev.update(out=o if o != 'ok' else o2, h0=h0, h1=stack.digest([x, wl]), exp=vlib.num(c['exp']), area=vlib.num(c['area']),
                      f=vlib.num(c['f']), w=vlib.arr(wl), x=rows(x, len(wl)), got=[], back=[])
            if ev['out'] == 'ok':
                ev.update(got=rows(y, len(wl)), back=rows(z, len(wl)))
        elif op in ('camphotons', 'radfor'):
            cfg = c['cfg']
            h, w = cfg['height'], cfg['width']
            k = cam.camera(cfg)
            for f in ('exposure', 'K'):
                if 'set_' + f in c:
                    setattr(k, f, c['set_' + f])
            temp, fn = cfg.get('temperature', 22), cfg.get('f_number', 8)
            if 'set_env' in c:
                temp, fn = c['set_env']
                k.environment = {'temperature': temp, 'f_number': fn}
            wl = [float(v) for v in k.qe.w]
            kw = {f: c[f] for f in ('exposure', 'f_number', 'mean') if f in c}
            exp = c.get('exposure', c.get('set_exposure', cfg.get('exposure', 1000000)))
            ev.update(exp=vlib.num(exp), area=vlib.num(cfg.get('pixel_area', 25)), w=vlib.arr(wl), f=vlib.num(c.get('f_number', fn)))
            if op == 'camphotons':
                x = c['x'] if c['style'] == 'scalar' else c['x'] * g.uniform(0, 2, (h, w, len(wl)))
                h0 = stack.digest(x)
                o, y = vlib.call(k.get_photons, x, **kw)
                ev.update(out=o, x=rows(x, len(wl)), h0=h0, h1=stack.digest(x), got=rows(y, len(wl)) if o == 'ok' else [])
            else:
                h0 = stack.digest(k.qe.qe)
                o, y = vlib.call(k.get_radiance_for, **kw)
                ev.update(out=o, h0=h0, h1=stack.digest(k.qe.qe), mean=vlib.num(c.get('mean', 2 ** cfg['bit_depth'] - 1)),
                          K=vlib.num(k.K), temp=vlib.num(temp), qe=rows(k.qe.qe, len(wl)), got=rows(y, len(wl)) if o == 'ok' else [],
                          c={'iref': vlib.num(cfg.get('dark_current_ref', 30)), 'tref': vlib.num(cfg.get('temperature_ref', 30)),
                             'tdbl': vlib.num(cfg.get('temperature_doubling', 8))})
        elif op == 'tile':
            p = np.array(c['pat'], dtype=c.get('dt', 'f8'))
            if c.get('flat'):
                p = p[0]
            h0 = stack.digest(p)
            o, y = vlib.call(R.get_tile, p, h, w)
            ev.update(out=o, h0=h0, h1=stack.digest(p), pat=pic(p), height=h, width=w, got=pic(y) if o == 'ok' else [])
            if o == 'ok' and np.asarray(y).shape != ((w,) if h == 1 else (h, w)):
                ev['got'] = []
        elif op == 'atile':
            p = g.randint(0, 50, (c['p'], c['q'], c['n']))
            h0 = stack.digest(p)
            o, y = vlib.call(R.array_tile, p, h, w)
            ev.update(out=o, h0=h0, h1=stack.digest(p), height=h, width=w, got=vlib.arr(y) if o == 'ok' else [],
                      pat=vlib.arr(p))
        elif op == 'bayer':
            wl = np.linspace(*c['w'])
            h0 = stack.digest(wl)
            o, y = vlib.call(R.get_bayer_filter, *c['loc'], w, h, wl)
            ev.update(out=o, h0=h0, h1=stack.digest(wl), height=h, width=w, w=vlib.arr(wl), loc=c['loc'], got=vlib.arr(y) if o == 'ok' else [])
        elif op == 'near':
            a = np.array(c['arr'], dtype=c['dt'])
            if c.get('list'):
                a = a.tolist()
            h0 = stack.digest(a)
            o, y = vlib.call(R.nearest_value, c['v'], a)
            ev.update(out=o, h0=h0, h1=stack.digest(a), arr=vlib.arr(a), v=vlib.num(c['v']), got=vlib.num(y) if o == 'ok' else 0)
        elif op == 'qe':
            nw = c['n']
            wl = np.linspace(400, 700, nw)
            q = g.uniform(0, 1, (h + c['dh'], w + c['dw'], nw + c['dn']))
            f = g.uniform(0, 1, (h, w, nw)) if c['filt'] else None
            h0 = stack.digest([q, f, wl])
            o, y = vlib.call(R.Qe, qe=q, wavelength=wl, width=w, height=h, filter=f)
            ev.update(out=o, h0=h0, h1=stack.digest([q, f, wl]), fits=not (c['dh'] or c['dw'] or c['dn']),
                      x=rows(q, nw + c['dn']), filt=rows(f, nw) if c['filt'] else [], got=rows(y.qe, nw) if o == 'ok' else [])
        evs.append(ev)
    return {'ev': evs, 'ref': cam.ref()}


def one(r):
    op = r.choice(['photons', 'photons', 'radiance', 'camphotons', 'camphotons', 'radfor', 'radfor', 'radfor', 'tile', 'atile', 'atile',
                   'bayer', 'near', 'near', 'qe'])
    c = {'op': op, 'seed': r.randrange(10**6)}
    if op in ('photons', 'radiance'):
        nw = r.choice([1, 2, 3, 7])
        c.update(exp=r.choice([1, 1000000, 123456.7, 10**10]), area=r.choice([25, 1, 0.25, 12.34, 400]), f=r.choice([0, 0.95, 1, 8, 8.5, 32]),
                 w=[r.choice([1, 400, 555, 800.5, 1100]) for _ in range(nw)], x=r.choice([1, 0, 1e-6, 3.3, 1e6, 12345]),
                 style=r.choice(['scalar', 'wave', 'pixel']), height=r.randint(1, 4), width=r.randint(1, 4), wdt='f8')
        if all(isinstance(v, int) for v in c['w']) and r.random() < .5:
            c['wdt'] = 'i8'
    elif op in ('camphotons', 'radfor'):
        h, w = r.randint(1, 4), r.randint(1, 4)
        cfg = {'height': h, 'width': w, 'bit_depth': r.choice([8, 10, 12, 16]), 'seed': 1}
        for k, vs in (('pixel_area', [1, 3.3, 100]), ('f_number', [0, 1, 2.8]), ('exposure', [1, 500.5, 10**9]), ('temperature', [0, 40.5]),
                      ('temperature_ref', [25]), ('temperature_doubling', [6.5]), ('dark_current_ref', [0, 1000.5]), ('K', [1, 5.5])):
            if r.random() < .5:
                cfg[k] = r.choice(vs)
        if r.random() < .8:
            nw = r.choice([1, 2, 4])
            cfg['qe'] = {'w': [r.choice([400., 550.5, 1000.]) for _ in range(nw)],
                         'qe': [{'seed': r.randrange(10**6), 'lo': .1, 'hi': 1} if r.random() < .6 else .5 for _ in range(nw)]}
        c['cfg'] = cfg
        if r.random() < .5:
            c['set_exposure'] = r.choice([77, 1e6, 3.3e8])
        if r.random() < .3:
            c['set_K'] = r.choice([.3, 9])
        if r.random() < .4:
            c['set_env'] = [r.choice([0, 22, 61.5]), r.choice([0, 1.4, 11])]
        if r.random() < .5:
            c['exposure'] = r.choice([1, 5000, 2.5e7, 10**9])
        if op == 'camphotons':
            c.update(x=r.choice([0, 1e-6, 2.5, 1e4]), style=r.choice(['scalar', 'pixel']))
            if r.random() < .5:
                c['f_number'] = r.choice([0, 1, 4.5])
        elif r.random() < .7:
            c['mean'] = r.choice([1, 100, 127.5, 200, 60000])
    elif op == 'tile':
        p, q = r.randint(1, 7), r.randint(1, 7)
        c.update(pat=[[r.randint(0, 99) for _ in range(q)] for _ in range(p)], height=r.randint(1, 20), width=r.randint(1, 20),
                 dt=r.choice(['f8', 'i4', 'u1']))
        if r.random() < .3:
            c['flat'] = True
    elif op == 'atile':
        c.update(p=r.randint(1, 5), q=r.randint(1, 5), n=r.randint(1, 4), height=r.randint(1, 16), width=r.randint(1, 16))
    elif op == 'bayer':
        lo = r.choice([400, 350, 420.5])
        c.update(w=[lo, 800, r.choice([5, 20, 41])], loc=[r.randint(430, 780) for _ in range(4)], height=r.randint(1, 7), width=r.randint(1, 7))
    elif op == 'near':
        dt = r.choice(['f8', 'i8', 'u1', 'u2', 'i2', 'f8'])
        top = {'u1': 255, 'u2': 65535}.get(dt, 1000)
        lo = 0 if dt[0] == 'u' else -1000
        f = dt == 'f8'
        c.update(dt=dt, arr=[round(r.uniform(lo, top), 2) if f else r.randint(lo, top) for _ in range(r.randint(1, 30))],
                 v=r.choice([0, lo, top, r.randint(lo, top), round(r.uniform(lo, top), 3), 5e6 if f else 0]))
        if r.random() < .5:
            c['arr'].sort(reverse=r.random() < .3)
        if r.random() < .25:
            c['list'] = True
    else:
        c.update(height=r.randint(1, 4), width=r.randint(1, 4), n=r.randint(1, 4), dh=0, dw=0, dn=0, filt=r.random() < .6)
        if r.random() < .4:
            c[r.choice(['dh', 'dw', 'dn'])] = r.choice([1, 2])
            c['filt'] = False
    return c


def scenarios(ctx):
    r = ctx.rng
    calls = []
    for e in ctx.mc('MC_CamRoutines', ctx.n('MC_CamRoutines', 'MC_CamRoutines_deep')):
        if e['mode'] == 'tile':
            calls.append({'op': 'tile', 'pat': e['pat'], 'height': e['h'], 'width': e['w'], 'dt': r.choice(['f8', 'i8'])})
            calls.append({'op': 'atile', 'p': len(e['pat']), 'q': len(e['pat'][0]), 'n': r.choice([1, 2]), 'height': e['h'], 'width': e['w'],
                          'seed': r.randrange(100)})
        else:
            for v in (0, 1, 2, 4, 9, r.uniform(0, 9)):
                calls.append({'op': 'near', 'arr': e['arr'], 'v': v, 'dt': r.choice(['f8', 'i8', 'u1'])})
    scns = [{'src': 'tlc', 'calls': calls[i:i + 50]} for i in range(0, len(calls), 50)]
    calls = [one(r) for _ in range(ctx.n(2000, 40000))]
    return scns + [{'calls': calls[i:i + 20]} for i in range(0, len(calls), 20)]


def canaries(traces):
    out, seen = [], {}
    for t in traces:
        for k, e in enumerate(t['ev']):
            if seen.get(e['e'], 0) < 2 and e['out'] == 'ok' and e.get('got') not in ([], None):
                path, x = ['ev', k, 'got'], e['got']
                while isinstance(x, list) and x:
                    path, x = path + [0], x[0]
                if isinstance(x, list):
                    continue
                seen[e['e']] = seen.get(e['e'], 0) + 1
                out.append(vlib.corrupt(t, path, vlib.bump(x)))
    return out
