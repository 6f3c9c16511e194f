"""Results documents: driver and generators.

A document is a list of figures [sec, name, kind, v, keys, arr, (meta)]; the
numbers are those of module Rat."""
import json
import math
import os
import re
import struct

import vlib


def tofloat(x):
    return None if x == 'none' else float(x) if x in ('nan', 'inf', '-inf') else vlib.frac(x)


def build(doc):
    """The results dictionary of a document."""
    import numpy as np
    d = {}
    for f in doc:
        i = dict(f.get('meta') or {})
        if f['kind'] == 'value':
            v = tofloat(f['v'])
            if v is not None:
                v = int(v) if f.get('int') else np.float64(v) if f.get('np') else float(v)
            i['value'] = v
        else:
            i['data'] = {k: np.array([int(tofloat(x)) if f.get('int') else float(tofloat(x)) for x in a],
                                     dtype=np.int64 if f.get('int') else np.float64) for k, a in zip(f['keys'], f['arr'])}
        if f.get('meta_last'):
            i.update({k: i.pop(k) for k in list(f.get('meta') or {})})
        d.setdefault(f['sec'], {})[f['name']] = i
    return d


def dbl(x):
    """A number as the double it is, always as a string."""
    if x in ('none', 'nan', 'inf', '-inf'):
        return x
    return str(vlib.num(float(vlib.frac(x))))


def fig(sec, name, kind, v='none', keys=(), arr=()):
    return {'sec': vlib.codes(sec), 'name': vlib.codes(name), 'kind': kind, 'v': dbl(v),
            'keys': [vlib.codes(k) for k in keys], 'arr': [[dbl(x) for x in a] for a in arr]}


def plain(doc):
    return [fig(f['sec'], f['name'], f['kind'], f['v'], f['keys'], f['arr']) for f in doc]


def canon(d):
    """A dictionary that was read, as a document."""
    if d is None:
        return {'none': True, 'doc': []}
    out = []
    for sec, figs in d.items():
        for name, i in figs.items():
            if 'data' in i:
                ks = sorted(i['data'])
                out.append(fig(sec, name, 'data', 'none', ks, [vlib.arr(i['data'][k]) for k in ks]))
            else:
                out.append(fig(sec, name, 'value', vlib.num(i['value'])))
    return {'none': False, 'doc': out}


def lines_of(text, names):
    """Lines [sec, name, ok] of a comparison.  A long name runs into the next column."""
    out, sec, ls = [], None, text.split('\n')
    k = 0
    while k < len(ls):
        if ls[k].startswith('*' * 20) and k + 2 < len(ls):
            sec = ls[k + 1]
            k += 3
            continue
        if ls[k].strip():
            x = ls[k].rstrip()
            if x.endswith(('OK', 'FAIL')):
                out.append({'sec': vlib.codes(sec or ''), 'name': vlib.codes(max([n for n in names if x.startswith(n)] or x.split()[:1], key=len)), 'ok': x.endswith('OK')})
            else:
                out.append({'sec': vlib.codes(sec or ''), 'name': vlib.codes('?' + x), 'ok': False})
        k += 1
    return out


def commas(x):
    """The document with decimal commas in its values, however it is laid out."""
    return re.sub(rb'<value>[^<]*', lambda m: m.group().replace(b'.', b','), x)


def put(r, doc, how):
    """Write a document; returns what to hand to the reader."""
    d = build(doc)
    if how == 'file':
        r.dict_to_xml(d, filename='r.xml')
        return 'r.xml'
    x = r.dict_to_xml(d)
    if how == 'str':
        return x.decode()
    if how in ('bytesfile', 'commafile'):
        if how == 'commafile':
            x = commas(x)
        with open('r2.xml', 'wb') as f:
            f.write(x)
        return 'r2.xml'
    if how == 'comma':
        return commas(x)
    return x


def digest(doc):
    return repr(doc)


def drive(scn, d):
    from emva1288.process import routines as r
    evs = []
    for c in scn['calls']:
        if c['e'] == 'trip':
            dd = build(c['doc'])
            h0 = digest(dd)
            o, x = vlib.call(put, r, c['doc'], c['how'])
            g = None
            if o == 'ok':
                o, g = vlib.call(r.xml_to_dict, x)
            evs.append({'e': 'trip', 'doc': plain(c['doc']), 'out': o, 'got': canon(g) if o == 'ok' else canon(None)})
            if c['how'] == 'file':
                vlib.call(r.dict_to_xml, dd)
                evs.append({'e': 'input', 'h0': h0, 'h1': digest(dd)})
            os.path.exists('r.xml') and os.remove('r.xml')
        elif c['e'] == 'junk':
            if c['file']:
                with open('j.xml', 'w') as f:
                    f.write(c['text'])
            o, g = vlib.call(r.xml_to_dict, 'j.xml' if c['file'] else c['text'])
            evs.append({'e': 'junk', 'out': o, 'got': {'none': g is None}})
        else:
            for n in (1, 2):
                r.dict_to_xml(build(c['d%d' % n]), filename='c%d.xml' % n)
            args = ['c1.xml', 'c2.xml']
            if c.get('as') == 'str':
                args = [r.dict_to_xml(build(c['d1'])), r.dict_to_xml(build(c['d2']))]
            pair = [('d1', 'd2'), ('d2', 'd1')]
            for k, (p, q) in enumerate(pair if c.get('both') else pair[:1]):
                fn = 'out%d.txt' % k
                tofile = k == 0
                o, text = vlib.call(r.compare_xml, *(args[::-1] if k else args), **({'filename': fn} if tofile else {}))
                ev = {'e': 'cmp', 'out': o, 'lines': [], 'file': 'same',
                      'd1': [lower(f) for f in plain(c[p])], 'd2': [lower(f) for f in plain(c[q])]}
                if o == 'ok':
                    ev['lines'] = lines_of(text, ['PRESENT'] + [f['name'].lower() for f in c['d1'] + c['d2']])
                    if tofile:
                        with open(fn) as f:
                            ev['file'] = 'same' if f.read() == text else 'other'
                evs.append(ev)
    return {'ev': evs}


def lower(f):
    low = lambda c: [x + 32 if 65 <= x <= 90 else x for x in c]
    return dict(f, sec=low(f['sec']), name=low(f['name']), keys=[low(k) for k in f['keys']])


# ---------------------------------------------------------------- generators

def tame(x):
    """Within the doubles whose seven digits are normal."""
    return x == 0 or 1e-290 < abs(x) < 1e290


def number(r, finite=False):
    k = r.choice(['small', 'dec', 'bits', 'int', 'pow', 'special', 'zero', 'tiny'])
    if k == 'small':
        v = r.choice([1., -1., .5, .1, 1 / 3., 2 / 3., 100., 1e-5, 12.5, 99.99999, 9999999.5, 1234567.5, 12345678.])
    elif k == 'dec':
        v = round(r.uniform(-1000, 1000), r.randint(0, 12))
    elif k == 'bits':
        while True:
            v = struct.unpack('<d', struct.pack('<Q', r.getrandbits(64)))[0]
            if math.isfinite(v) and tame(v):
                break
    elif k == 'int':
        v = float(r.randint(-10**r.randint(1, 15), 10**r.randint(1, 15)))
    elif k == 'pow':
        v = 10. ** r.randint(-20, 20) * r.choice([1, -1, .9999999, .99999995, .999999949, 1.0000001])
    elif k == 'special' and not finite:
        return r.choice(['nan', 'inf', '-inf', 'none'])
    elif k == 'tiny' and not finite:
        v = r.choice([5e-324, 1e-310, -2.2e-308, 1.7976931348623157e308])
    else:
        v = r.choice([0., 0., -0.])
    return vlib.num(v)


SECS = ['spatial', 'sensitivity', 'Dark_Current', 'linearity', 'other', 'S1', 'a', 'defect_pixel', 'info', 'reg.x-1']
NAMES = ['K', 'QE', 'u_p_min', 'SNR_max_dB', 's_2_y', 'DSNU1288', 'R', 'x', 'index_start', 'PRNU1288_pixel', 'm.1', '_u',
         'a_very_long_name_of_a_figure_over_forty_characters', 'ok', 'data1', 'Gain', 'LE_min']
KEYS = ['bins', 'values', 'model', 'x', 'Y', 'fit_slope', 'rel.dev']


def meta(r):
    if r.random() < .5:
        return {}
    m = {'short': r.choice(['System gain', 'a < b & c', '', 'µ and σ', '1.5']), 'unit': r.choice(['$e^-$', '\\%', 'DN'])}
    if r.random() < .5:
        m['symbol'] = '$\\sigma_{y.dark}$'
    return m


def array(r, num):
    n = r.choice([0, 1, 1, 2, 3, 5, 17])
    if r.random() < .004:
        n = r.choice([256, 1001, 1500])
    if r.random() < .3:
        return [num()] * n
    return [num() for _ in range(n)]


def document(r, finite=False):
    doc, seen = [], set()
    secs = r.sample(SECS, r.randint(0 if r.random() < .1 else 1, 4))
    for sec in secs:
        for _ in range(r.choice([1, 1, 2, 3, 6])):
            n = r.choice(NAMES)
            if (sec.lower(), n.lower()) in seen:
                continue
            seen.add((sec.lower(), n.lower()))
            f = {'sec': sec, 'name': n, 'v': 'none', 'keys': [], 'arr': [], 'meta': meta(r), 'meta_last': r.random() < .3,
                 'int': False, 'np': r.random() < .5}
            if r.random() < .6:
                f['kind'] = 'value'
                f['v'] = number(r, finite)
            else:
                f['kind'] = 'data'
                f['keys'] = r.sample(KEYS, r.randint(1, 3))
                f['arr'] = [array(r, lambda: no_none(number(r, finite))) for _ in f['keys']]
            if r.random() < .2:
                f['int'] = True
                i = lambda: r.choice([0, 1, -5, 255, 1234567, 12345678, 10**12])
                if f['kind'] == 'value':
                    f['v'] = vlib.num(i())
                else:
                    f['arr'] = [[vlib.num(i()) for _ in a] for a in f['arr']]
            doc.append(f)
    return doc


def no_none(x):
    return 'nan' if x == 'none' else x


def nudge(r, x):
    """A number close to x, at or beyond the seventh digit."""
    if x in ('nan', 'inf', '-inf', 'none'):
        return r.choice([x, 1])
    v = float(vlib.frac(x))
    k = r.choice(['same', 'ulp', 'eps', 'digit', 'tie', 'sign', 'other', 'none'])
    if k == 'same':
        w = v
    elif k == 'ulp':
        w = math.nextafter(v, r.choice([math.inf, -math.inf]))
    elif k == 'eps':
        w = v * (1 + r.choice([-1, 1]) * 10. ** -r.randint(5, 12) * r.uniform(.3, 3))
    elif k in ('digit', 'tie') and v and tame(v):
        e = math.floor(math.log10(abs(v)))
        w = float('%.6e' % v) + (10. ** (e - 6)) * r.choice([.4, .49, .5, .499999, .500001, .6, 1, -.4, -.5, -.6, -1])
        if not tame(w):
            w = v
    elif k == 'sign':
        w = -v
    elif k == 'none':
        return r.choice(['none', 'nan', 'inf'])
    else:
        w = v + 1
    return vlib.num(w if math.isfinite(w) else v)


def variant(r, doc):
    """A document that differs here and there."""
    out = json.loads(json.dumps(doc))
    r.shuffle(out) if r.random() < .3 else None
    for f in list(out):
        x = r.random()
        if x < .4:
            pass
        elif x < .75:
            if f['kind'] == 'value':
                f['v'] = nudge(r, f['v']) if not f['int'] else f['v']
            elif f['arr']:
                k = r.randrange(len(f['arr']))
                a = f['arr'][k]
                y = r.random()
                if y < .5 and a and not f['int']:
                    j = r.randrange(len(a))
                    a[j] = no_none(nudge(r, a[j]))
                elif y < .65 and a:
                    a.pop(r.randrange(len(a)))
                elif y < .75 and a:
                    f['arr'][k] = a[:1]
                elif y < .85:
                    a.append(a[-1] if a else 0)
                elif y < .95:
                    f['keys'][k] = 'renamed'
                elif len(f['keys']) > 1:
                    del f['keys'][k], f['arr'][k]
        elif x < .85:
            out.remove(f)
        elif x < .9:
            f['sec'] = 'moved'
        elif x < .95 and f['kind'] == 'value':
            f.update(kind='data', keys=['x'], arr=[[no_none(f['v'])]], v='none')
        elif not f['int']:
            f['sec'], f['name'] = f['sec'].upper(), f['name'].lower()
    seen, res = set(), []
    for f in out:
        k = (f['sec'].lower(), f['name'].lower())
        if k not in seen:
            seen.add(k)
            res.append(f)
    # one spelling of a section
    first = {}
    for f in res:
        f['sec'] = first.setdefault(f['sec'].lower(), f['sec'])
    return res


def of_tlc(doc):
    """A document emitted by MC_XmlDoc."""
    return [{'sec': ''.join(map(chr, f['sec'])), 'name': ''.join(map(chr, f['name'])), 'kind': f['kind'], 'v': f['v'],
             'keys': [''.join(map(chr, k)) for k in f['keys']], 'arr': f['arr'], 'meta': {}, 'int': False} for f in doc]
