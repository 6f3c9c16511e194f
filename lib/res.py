"""Results1288 on given temporal and spatial data: driver and generators."""
import vlib

PARTS = {
    'idx': ['index_u_ysat', 'index_sensitivity_min', 'index_sensitivity_max',
            'index_linearity_min', 'index_linearity_max'],
    'sens': ['R', 'K', 'inverse_K', 'QE', 'sigma_y_dark', 'u_p_min', 'u_p_min_area', 'u_e_min',
             'u_e_min_area', 'u_p_sat', 'u_p_sat_area', 'u_e_sat', 'u_e_sat_area', 'SNR_max',
             'SNR_max_dB', 'SNR_max_bit', 'inverse_SNR_max', 'DR', 'DR_dB'],
    'dark': ['K', 'sigma_y_dark', 'sigma_d', 'u_I_var_DN', 'u_I_var', 'u_I_mean_DN', 'u_I_mean'],
    'lin': ['LE_min', 'LE_max'],
    'spat': ['K'] + [n + d for n in ('s_2_y_measured', 'sigma_2_y_stack', 's_2_y_cav', 's_2_y_rav', 's_2_y',
                                     's_2_y_col', 's_2_y_row', 's_2_y_pixel') for d in ('', '_dark')]
            + ['DSNU1288_DN'] + [n + d for n in ('DSNU1288', 'PRNU1288') for d in ('', '_row', '_col', '_pixel')]}
TKEYS = ('texp', 'u_p', 'u_y', 'u_ydark', 's2_y', 's2_ydark')


def read(r, name):
    def get():
        v = getattr(r, name)
        return v() if callable(v) else v
    o, v = vlib.call(get)
    if o == 'ok' and v is None:
        o = 'none'
    return {'o': o, 'v': vlib.num(v) if o == 'ok' else 'nan'}


def flat_spatial(r=None):
    """The spatial dictionary of a small stack."""
    import numpy as np
    d = {}
    for f, s in (('', [[40, 44, 41], [43, 46, 40], [41, 45, 44]]), ('_dark', [[4, 5, 4], [6, 4, 5], [4, 4, 7]])):
        d.update({'sum' + f: np.array(s, dtype=np.int64), 'var_mean' + f: 1.5, 'L' + f: 2, 'M' + f: 3, 'N' + f: 3,
                  'avg_var' + f: 3.25, 'avg_mean' + f: 21. if not f else 2.4, 'avg_var_cav' + f: .5,
                  'avg_var_rav' + f: .25})
    d['texp'], d['u_p'] = 1., 2.
    return d


def drive(scn, d):
    import numpy as np
    from emva1288.process.results import Results1288
    evs = []
    for c in scn['calls']:
        sp = flat_spatial()
        if 'stack' in c:
            import prep
            from emva1288.process.data import Data1288
            data = Data1288(prep.load(c['stack']['tp'], c['stack']['sp'])).data
            tp, sp = data['temporal'], data['spatial']
        else:
            tp = {k: np.array(c['d'][k], dtype=np.float64) for k in TKEYS}
            if 'sp' in c:
                for f, s in (('', c['sp']['bright']), ('_dark', c['sp']['dark'])):
                    for k, n in (('mes', 'avg_var'), ('stack', 'var_mean'), ('cav', 'avg_var_cav'), ('rav', 'avg_var_rav'),
                                 ('L', 'L'), ('M', 'M'), ('N', 'N'), ('mean', 'avg_mean')):
                        sp[n + f] = np.float64(s[k]) if k not in 'LMN' else s[k]
        kw = {}
        if c.get('forced') is not None:
            kw['index_u_ysat'] = c['forced']
        if c.get('area') is not None:
            kw['pixel_area'] = c['area']
        ev = {'e': 'res', 'part': c['part'], 'd': {k: vlib.arr(tp[k]) for k in TKEYS},
              'forced': [vlib.num(kw['index_u_ysat'])] if 'index_u_ysat' in kw else [],
              'area': [vlib.num(kw['pixel_area'])] if 'pixel_area' in kw else []}
        if c['part'] == 'spat':
            ev['sp'] = {n: {k: vlib.num(sp[m + f]) for k, m in
                            (('mes', 'avg_var'), ('stack', 'var_mean'), ('cav', 'avg_var_cav'), ('rav', 'avg_var_rav'),
                             ('L', 'L'), ('M', 'M'), ('N', 'N'), ('mean', 'avg_mean'))}
                        for n, f in (('bright', ''), ('dark', '_dark'))}
        r = Results1288({'temporal': tp, 'spatial': sp}, **kw)
        ev['res'] = {n: read(r, n) for n in PARTS[c['part']]}
        if c['part'] == 'lin':
            o, v = vlib.call(r.linearity)
            ev['lin'] = {'o': o}
            if o == 'ok':
                ev['lin'].update({'a': vlib.num(v['fit_slope']), 'b': vlib.num(v['fit_offset']),
                                  'dev': vlib.arr(v['relative_deviation']), 'min': vlib.num(v['linearity_error_min']),
                                  'max': vlib.num(v['linearity_error_max'])})
        evs.append(ev)
    return {'ev': evs}


# ---------------------------------------------------------------- generators

def camera(r, n=None, texp=None, over=None):
    """The temporal data of a camera: a linear signal with shot noise that
    saturates, with disturbances."""
    n = n or r.choice([3, 4, 5, 6, 8, 10, 15, 25, 50])
    top = r.choice([20., 100., 255., 1023., 4095., 65535.])
    k = 10 ** r.uniform(-2.5, 1)
    qe = r.uniform(.02, .95)
    resp = k * qe
    dark = r.uniform(0, top * .1)
    full = top - dark
    over = over or r.choice([.6, .9, 1.02, 1.1, 1.3, 2.5])
    pmax = full / resp * over
    s0 = r.choice([.05, .2, .5, 3, 40]) * r.uniform(.5, 1.5)
    d = {key: [] for key in TKEYS}
    texp = texp or r.choice(['one', 'one', 'two', 'series', 'same-mean'])
    t0 = 10 ** r.uniform(3, 8)
    noise = r.choice([0, 0, 1e-4, 3e-3, .05])
    imean, ivar = r.choice([0, 1e-9, 1e-7, -1e-9]) * r.uniform(.5, 2), r.choice([0, 1e-9, 1e-7, -1e-8]) * r.uniform(.5, 2)
    for i in range(1, n + 1):
        p = pmax * i / n
        if texp == 'one':
            t = t0
        elif texp == 'two':
            t = t0 if i <= n // 2 else 2 * t0
        else:
            t = t0 * i / n
        um = dark + imean * (t - t0)
        uv = s0 + abs(ivar) * t if ivar >= 0 else s0 + abs(ivar) * (t0 - t)
        d['texp'].append(t)
        d['u_p'].append(p)
        d['u_ydark'].append(um * (1 + r.gauss(0, 1e-3)) if noise else um)
        d['s2_ydark'].append(uv * (1 + r.gauss(0, .02)) if noise else uv)
        y = min(resp * p * (1 + r.gauss(0, noise)), full)
        v = uv + k * y * (1 + r.gauss(0, noise))
        if y >= full * .97:
            v *= max(0, r.uniform(0, .8) * (full - y) / full * 30)
        d['u_y'].append(um + y)
        d['s2_y'].append(abs(v))
    if texp == 'one':
        for key in ('u_ydark', 's2_ydark'):
            d[key] = [d[key][0]] * n
    if r.random() < .2 and n > 4:       # noise peaks
        for _ in range(r.choice([1, 2])):
            i = r.randrange(n)
            d['s2_y'][i] *= r.choice([.2, .9, 1.1, 3])
    return d


def whole(r):
    """Small whole numbers, few points, ties everywhere."""
    n = r.randint(2, 7)
    ys = sorted(r.choice([1, 2, 3, 5, 7, 10, 14, 19, 20, 20, 20]) for _ in range(n))
    if r.random() < .3:
        r.shuffle(ys)
    dark = r.randint(0, 3)
    return {'texp': [r.choice([1, 2, 3, 1000]) for _ in range(n)] if r.random() < .4 else [5] * n,
            'u_p': [3 * (i + 1) for i in range(n)], 'u_y': [y + dark for y in ys], 'u_ydark': [dark] * n,
            's2_y': [r.randint(0, 4) + 1 for _ in range(n)], 's2_ydark': [r.choice([0, .2, .24, .25, 1])] * n}


def from_s2(s, r):
    n = len(s)
    ys = [2, 5, 9, 14, 17, 19, 20, 20, 20][:n] if n < 10 else None
    return {'texp': [7] * n, 'u_p': [i + 1 for i in range(n)], 'u_y': [y + 1 for y in ys], 'u_ydark': [1] * n,
            's2_y': [x + 1 for x in s] if r.random() < .5 else s, 's2_ydark': [0] * n}


def from_y(s):
    n = len(s)
    return {'texp': [7] * n, 'u_p': [3 * (i + 1) for i in range(n)], 'u_y': [y + 1 for y in s], 'u_ydark': [1] * n,
            's2_y': [2 * y + 3 for y in s], 's2_ydark': [3] * n}


def corrupted(traces, fields):
    """Canaries: one result of a trace bumped."""
    out = []
    for t in traces[::max(1, len(traces) // 12)]:
        for f in fields:
            for k, e in enumerate(t['ev']):
                if f in e.get('res', {}) and e['res'][f]['o'] == 'ok' and e['res'][f]['v'] not in ('nan', 'inf', '-inf') \
                        and len(e['d']['u_p']) > 2:
                    out.append(vlib.corrupt(t, ['ev', k, 'res', f, 'v'], vlib.bump(e['res'][f]['v'], 1)))
                    break
    return out


def chunks(calls, n, src=None):
    return [dict({'calls': calls[i:i + n]}, **({'src': src} if src else {})) for i in range(0, len(calls), n)]
