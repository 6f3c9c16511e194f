"""Descriptor files: generators and the driver of the real parser."""
import os
import random

import vlib

WS = [' ', '  ', '\t', ' \t ']
NAMES = ['a.png', 'img_0001.tif', 'images\\a.png', 'images/b.png', './c.png', 'x/../d.png',
         '..\\e.png', '../f/g.png', 'd.e.f', 'A\\B\\c', '7', 'i', 'b', '#x.png', 'n-1,2.png', '/abs/h.png', 'a//b.png',
         'q\\\\r.png', 'very_long_name_of_an_image_file_0000001.png', 'dir.1/sub-2\\im.png', '.hid/x', '~/h']


def number(r, values):
    v = r.choice(values)
    forms = [v]
    if '.' in v and r.random() < .4:
        forms.append(v.replace('.', ','))
    if '.' not in v and 'e' not in v:
        forms += [v + '.0', v + ',0', '+' + v, '0' + v, v + '.']
    return r.choice(forms)


EXPS = ['1', '2', '10', '0.5', '1000000', '500000.1', '33333.3', '16666.7', '4e3', '12345678.9', '0', '1e-3',
        '999999999.999', '3.3', '.25']
PHS = ['1', '2', '0.001', '123.456', '98765.432', '0.1', '0.3', '1e5', '7', '10.5', '0.125', '1234567.891', '0']


def anynumber(r):
    """A decimal numeral of any magnitude and precision."""
    k = r.choice(['tiny', 'small', 'mid', 'big', 'exp', 'long'])
    if k == 'tiny':
        s = '0.' + '0' * r.randint(1, 12) + str(r.randint(1, 999))
    elif k == 'small':
        s = '%d.%0*d' % (r.randint(0, 9), r.randint(1, 9), r.randint(0, 9))
    elif k == 'mid':
        s = '%d.%d' % (r.randint(0, 10**5), r.randint(0, 10**r.randint(1, 9)))
    elif k == 'big':
        s = str(r.randint(0, 10**r.randint(6, 20)))
    elif k == 'exp':
        s = '%d.%de%d' % (r.randint(0, 99), r.randint(0, 999), r.randint(-20, 20))
    else:
        s = '%d.%d' % (r.randint(0, 10**9), r.randint(0, 10**17))
    return s.replace('.', ',') if r.random() < .15 else s


def near(r, s):
    """A numeral close to the given one but of another value."""
    if 'e' in s:
        return anynumber(r)
    return s + ('' if '.' in s or ',' in s else '.') + r.choice(['0001', '000001', '5', '00000000001', '04'])


def series(r, nser, clean=True):
    """Blocks of a descriptor.  clean: well-formed (no duplicates)."""
    out, keys = [], set()
    last = None
    while len(out) < nser:
        n = r.choice([2, 2, 2, 3, 4, 5, 7])
        dark = r.random() < .4
        e = number(r, EXPS) if r.random() < .6 else anynumber(r)
        p = '0' if dark else number(r, PHS) if r.random() < .6 else anynumber(r)
        if last and r.random() < .3:
            n, e, p = last
            dark = p == '0'
            if dark or r.random() < .4:
                e = near(r, e)
            else:
                p = near(r, p)
        last = (n, e, p)
        k = (n == 2, float(e.replace(',', '.')), float(p.replace(',', '.')))
        if clean and k in keys:
            continue
        keys.add(k)
        head = ['d', e] if dark else ['b', e, p]
        pool = [r.choice(NAMES) if r.random() < .5 else 'im%d.png' % r.randrange(10**6) for _ in range(n)]
        out.append([head] + [['i', x] for x in pool])
    return out


def layout(r, blocks):
    """Text of token lines with random layout."""
    eol = r.choice(['\n', '\n', '\r\n', '\r', None])
    out = []
    for blk in blocks:
        for w in blk:
            if r.random() < .12:
                out.append(r.choice(['', '   ', '\t', '# comment', '#', '  # b 1 2', '#i x', '\t#n 1 2 3', '# v 9']))
            s = r.choice(WS) if r.random() < .7 else ' '
            line = s.join(w)
            if r.random() < .2:
                line = r.choice(WS) + line
            if r.random() < .2:
                line = line + r.choice(WS)
            out.append(line)
    txt = ''
    for k, ln in enumerate(out):
        e = eol or r.choice(['\n', '\r\n', '\r'])
        # a lone CR before a blank line would be read as CR LF
        txt += ln + (e if k < len(out) - 1 or r.random() < .8 else '')
    return txt


def wellformed(r):
    blocks = series(r, r.choice([0, 1, 1, 2, 3, 4, 6, 9, 14]))
    extra = []
    if r.random() < .8:
        extra.append([['n', r.choice(['8', '10', '12', '+16', '08']), str(r.randrange(1, 5000)), str(r.randrange(1, 5000))]])
    for _ in range(r.choice([0, 1, 1, 1, 2])):
        extra.append([['v', r.choice(['4.0', '3.1', '3,0', 'x', '4.0a', '#4'])] + (['more'] if r.random() < .1 else [])])
    for x in extra:
        blocks.insert(r.randrange(len(blocks) + 1), x)
    return blocks


def flaw(r, blocks):
    """One way of making a well-formed descriptor malformed."""
    ser = [b for b in blocks if len(b) > 2 and len(b[0]) == {'b': 3, 'd': 2}.get(b[0][0])]
    if not ser:
        ser = series(r, 1)
        blocks.extend(ser)
    kind = r.choice(['short', 'short', 'dup', 'dup', 'dupdark', 'fields', 'fields', 'single', 'twon', 'number', 'number',
                     'nnumber', 'imgfields', 'interrupt', 'lastshort', 'darkb'])
    b = r.choice(ser)
    if kind == 'short':
        del b[r.choice([1, 2]):]
    elif kind == 'lastshort':
        b = [['b', '77', '78'], ['i', 'z']]
        blocks.append(b)
    elif kind == 'dup':
        head = list(b[0])
        if r.random() < .6:
            head[1] = head[1].replace(',', '.') if ',' in head[1] else \
                head[1].replace('.', ',') if '.' in head[1] else head[1] + ('.0' if 'e' not in head[1] else '')
        n = len(b) - 1
        m = 2 if n == 2 else r.choice([3, 4, 6])
        blocks.insert(r.randrange(len(blocks) + 1), [head] + [['i', 'dup%d' % k] for k in range(m)])
    elif kind in ('dupdark', 'darkb'):
        e = number(r, EXPS)
        n = r.choice([2, 3])
        one = [['d', e]] + [['i', 'p%d' % k] for k in range(n)]
        two = [['b', e, r.choice(['0', '0.0', '0,0', '-0', '0e5'])]] + [['i', 'q%d' % k] for k in range(n)]
        pair = [one, two]
        r.shuffle(pair)
        for x in pair:
            blocks.insert(r.randrange(len(blocks) + 1), x)
    elif kind == 'fields':
        if r.random() < .3:
            b = [['n', '8', '4'], ['n', '8', '4', '3', '2'], ['n', '8']][r.randrange(3)]
            blocks.insert(r.randrange(len(blocks) + 1), [b])
        elif r.random() < .5:
            b[0].append('1')
        elif b[0][0] == 'b':
            del b[0][2]
        else:
            b[0] = ['d']
    elif kind == 'imgfields':
        b[r.randrange(1, len(b))].append(r.choice(['x', '2.png', '#c']))
    elif kind == 'single':
        blocks.insert(r.randrange(len(blocks) + 1), [[r.choice(['v', 'n', 'b', 'd', 'i', 'x', '12'])]])
    elif kind == 'twon':
        have = [x for x in blocks if x[0][0] == 'n']
        one = have[0][0] if have and r.random() < .5 else ['n', '8', '640', '480']
        for _ in range(1 if have else 2):
            blocks.insert(r.randrange(len(blocks) + 1), [list(one)])
    elif kind == 'number':
        if len(b[0]) < 2:
            b[0].append('1')
        b[0][r.randrange(1, len(b[0]))] = r.choice(['x', '1.2.3', '--1', '1e', 'e5', '1,2,3', '12a', '0x10', '1..2', ','])
    elif kind == 'nnumber':
        n = ['n', '8', '640', '480']
        n[r.randrange(1, 4)] = r.choice(['x', '8.0', '8,0', '1e2', '0x8', '4-'])
        blocks[:] = [x for x in blocks if x[0][0] != 'n']
        blocks.insert(r.randrange(len(blocks) + 1), [n])
    elif kind == 'interrupt':
        # a line inside a series cuts it in two
        at = r.randrange(1, len(b))
        rest = b[at:]
        del b[at:]
        blocks.insert(blocks.index(b) + 1 if b in blocks else 0, [['v', '9']] + rest)
        if len(b) >= 3:
            del b[2:]
    return blocks


def scenario(r, blocks):
    s = {'text': layout(r, blocks)}
    s['where'] = r.choice(['', 'sub', 'sub/deep', 'sub/../other'])
    s['rel'] = r.random() < .4
    if r.random() < .45:
        s['path'] = r.choice(['imgs', './imgs', '../up', '/data/set', 'a/b/', '', '/', '/data/../set/'])
    return s


def drive(scn, d):
    from emva1288.process.parser import ParseEmvaDescriptorFile
    evs = []
    for s in scn['files']:
        folder = os.path.join(d, s.get('where', ''))
        os.makedirs(os.path.join(d, s.get('where', '').split('/')[0]), exist_ok=True)
        os.makedirs(folder, exist_ok=True)
        fn = os.path.join(folder, 'EMVA.txt')
        with open(fn, 'wb') as f:
            f.write(s['text'].encode())
        arg = os.path.relpath(fn, d) if s.get('rel') else fn
        path = s.get('path')
        base = os.path.join(d, path) if path is not None else folder
        out, p = vlib.call(ParseEmvaDescriptorFile, arg, path) if path is not None else \
            vlib.call(ParseEmvaDescriptorFile, arg)
        ev = {'e': 'parse', 'text': vlib.codes(s['text']), 'base': vlib.codes(base), 'out': out}
        if out == 'ok':
            ev['ver'] = vlib.codes(p.version) if p.version is not None else []
            f = p.format
            ev['fmt'] = [vlib.num(f[k]) for k in ('bits', 'width', 'height')] if f else []
            if f and set(f) != {'bits', 'width', 'height'}:
                ev['e'] = 'format keys'
            if set(p.images) != {'temporal', 'spatial'}:
                ev['e'] = 'image kinds'
            ev['imgs'] = [{'kind': k, 'exp': vlib.num(e), 'ph': vlib.num(ph),
                           'files': [vlib.codes(os.path.join(d, x)) for x in files]}
                          for k in p.images for e in p.images[k] for ph, files in p.images[k][e].items()]
        evs.append(ev)
    return {'ev': evs}


def from_tlc(emitted, want, per=25):
    """Scenarios from the enumerated files of MC_Descriptor."""
    files = []
    for e in emitted:
        files.append({'text': ''.join(x + '\n' for x in e['lines'])})
    return [{'src': 'tlc', 'files': files[i:i + per]} for i in range(0, len(files), per)]


def canaries(traces, prop):
    out = []
    for t in traces:
        for k, e in enumerate(t['ev']):
            if e['out'] == 'ok' and e['imgs'] and e['fmt']:
                i = e['imgs'][-1]
                out.append(vlib.corrupt(t, ['ev', k, 'imgs', len(e['imgs']) - 1, 'files'], i['files'][::-1]
                                        if i['files'][0] != i['files'][-1] else i['files'][1:]))
                out.append(vlib.corrupt(t, ['ev', k, 'fmt', 0], 3))
                out.append(vlib.corrupt(t, ['ev', k, 'out'], 'SyntaxError'))
                break
        if len(out) >= 9:
            break
    for t in traces:
        for k, e in enumerate(t['ev']):
            if e['out'] == 'SyntaxError':
                return out + [vlib.corrupt(t, ['ev', k, 'out'], 'KeyError')]
    return out
