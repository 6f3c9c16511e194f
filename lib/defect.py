"""Histograms and the high-pass filter: driver and generators."""
import vlib
import stack


def masked(img, mask, dt):
    import numpy as np
    a = np.array(img, dtype=np.dtype(dt))
    if mask == 'nomask':
        return np.ma.array(a)
    if mask:
        return np.ma.array(a, mask=np.array(mask, dtype=bool))
    return a


def hist_fields(h):
    return {'bins': vlib.arr(h['bins']), 'values': vlib.arr(h['values']), 'model': vlib.arr(h['model'])}


def drive(scn, d):
    import numpy as np
    from emva1288.process import routines
    from emva1288.process.results import Results1288
    import res
    evs = []
    for c in scn['calls']:
        e, mask = c['e'], c.get('mask') or []
        ev = {'e': e}
        if e == 'hist':
            a = masked(c['img'], mask, c['dt'])
            h0 = stack.digest(a)
            o, h = vlib.call(routines.Histogram1288, a, c['qmax'])
            ev.update(y=vlib.arr(np.ma.compressed(a)), qmax=c['qmax'], out=o, h0=h0, h1=stack.digest(a))
            if o == 'ok':
                ev.update(hist_fields(h))
        elif e == 'hp':
            a = masked(c['img'], mask, c['dt'])
            h0 = stack.digest(a)
            o, h = vlib.call(routines.high_pass_filter, a, c['dim'])
            ev.update(img=vlib.arr(c['img']), mask=[] if mask == 'nomask' else mask, dim=c['dim'], out=o, h0=h0, h1=stack.digest(a))
            if o == 'ok':
                r = h['img']
                if isinstance(r, np.ma.MaskedArray):
                    ev['rmask'] = np.ma.getmaskarray(r).tolist()
                    ev['res'] = vlib.arr(np.ma.filled(r, 0))
                else:
                    ev['rmask'] = []
                    ev['res'] = vlib.arr(np.asarray(r))
                ev['mult'] = vlib.num(h['multiplicator'])
                ev['dt'], ev['rdt'] = str(a.dtype), str(r.dtype)
        else:
            sp = res.flat_spatial()
            s, sd = masked(c['sum'], mask, 'i8'), masked(c['sum_dark'], mask, 'i8')
            sp.update({'sum': s, 'sum_dark': sd, 'L': c['L'], 'L_dark': c['L_dark']})
            r = Results1288({'temporal': {k: np.array([1., 2., 3.]) for k in res.TKEYS}, 'spatial': sp})
            h0 = stack.digest(sp)
            o, h = vlib.call(getattr, r, {'dsnu': 'histogram_DSNU', 'prnu': 'histogram_PRNU',
                                          'dsnu_acc': 'histogram_DSNU_accumulated',
                                          'prnu_acc': 'histogram_PRNU_accumulated'}[e])
            dark = e.startswith('dsnu')
            ev.update(img=c['sum_dark'] if dark else [[x - y for x, y in zip(p, q)] for p, q in zip(c['sum'], c['sum_dark'])],
                      mask=mask, L=c['L_dark'] if dark else c['L'], out=o, h0=h0, h1=stack.digest(sp))
            if o == 'ok':
                ev.update(hist_fields(h))
        evs.append(ev)
    return {'ev': evs}


def bayer(r, h, w, per=None):
    """A mask that is periodic: True is not valid."""
    ph, pw = per or r.choice([(2, 2), (2, 2), (2, 2), (1, 2), (2, 1)])
    n = ph * pw
    keep = set(r.sample(range(n), r.randint(1, n)))
    if (ph, pw) == (2, 2) and len(keep) == 2 and r.random() < .7:
        keep = {0, 3}
    return [[(y % ph) * pw + x % pw not in keep for x in range(w)] for y in range(h)]


def anymask(r, h, w):
    p = r.choice([.05, .3, .7])
    m = [[r.random() < p for _ in range(w)] for _ in range(h)]
    m[r.randrange(h)][r.randrange(w)] = False
    return m
