"""Simulated cameras: building one from a configuration, and generators."""
import vlib

PARAMS = ('f_number', 'pixel_area', 'bit_depth', 'width', 'height', 'temperature', 'temperature_ref', 'temperature_doubling',
          'exposure', 'exposure_min', 'exposure_max', 'K', 'K_min', 'K_max', 'K_steps', 'blackoffset', 'blackoffset_min',
          'blackoffset_max', 'blackoffset_steps', 'dark_current_ref', 'dark_signal_0', 'sigma2_dark_0', 'u_esat', 'seed')


def field(v, h, w):
    """A picture of floats: a number, a seed for a random one or the rows."""
    import numpy as np
    if v is None:
        return None
    if isinstance(v, dict):
        g = np.random.RandomState(v['seed'])
        if v.get('kind') == 'normal':
            return g.normal(v['mean'], v['std'], (h, w))
        return np.round(g.uniform(v['lo'], v['hi'], (h, w)), v.get('digits', 3))
    if isinstance(v, list):
        return np.array(v, dtype=np.float64).reshape(h, w)
    return np.full((h, w), float(v))


def qe_of(cfg):
    """(Qe object or None)"""
    import numpy as np
    from emva1288.camera.routines import Qe
    q = cfg.get('qe')
    if q is None:
        return None
    h, w = cfg['height'], cfg['width']
    wl = np.array(q['w'], dtype=np.float64)
    arr = None
    if q.get('qe') is not None:
        arr = np.stack([field(x, h, w) for x in q['qe']], axis=2)
    filt = None
    if q.get('filter') is not None:
        filt = np.stack([field(x, h, w) for x in q['filter']], axis=2)
    return Qe(qe=arr, wavelength=wl, width=w, height=h, filter=filt)


def camera(cfg):
    from emva1288.camera.camera import Camera
    kw = {k: cfg[k] for k in PARAMS if k in cfg}
    q = qe_of(cfg)
    if q is not None:
        kw['qe'] = q
    for k in ('dsnu', 'prnu'):
        if cfg.get(k) is not None:
            kw[k] = field(cfg[k], cfg['height'], cfg['width'])
    return Camera(**kw)


def light(rad, cfg, nw):
    """The radiance of a scenario: scalar, one value per wavelength, or a picture of them."""
    import numpy as np
    if isinstance(rad, dict):
        h, w = cfg['height'], cfg['width']
        return np.stack([field(x, h, w) for x in rad['rows']], axis=2)
    if isinstance(rad, list):
        return np.array(rad, dtype=np.float64)
    return rad


def light_rows(rad, nw):
    """As rows per wavelength for the specification."""
    import numpy as np
    a = np.asarray(rad, dtype=np.float64)
    if a.ndim == 3:
        return [vlib.arr(a[:, :, k].ravel()) for k in range(nw)]
    if a.ndim == 1:
        return [[vlib.num(a[k])] for k in range(nw)]
    return [[vlib.num(float(a))]] * nw


def planes(a):
    """An array (h, w, nw) as a row of pixels per wavelength."""
    return [vlib.arr(a[:, :, k].ravel()) for k in range(a.shape[2])]


def ref():
    """pi/(h c) of the implementation."""
    import numpy as np
    from emva1288.camera import routines
    return vlib.num(routines.get_photons(1e9, 1.0, 1e12, np.array([1e9]), 0)[0])


def settings(c):
    return {'K': vlib.num(c.K), 'bo': vlib.num(c.blackoffset), 'exp': vlib.num(c.exposure)}
