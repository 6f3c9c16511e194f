"""C03: image stacks are reduced exactly in integers."""
import vlib
import stack

TRACE = 'Trace_C03'
RULE = ('all stacks of up to three 2-pixel images over boundary values (enumerated by TLC from MC_Reduce, in 8 and 16 bit '
        'types) and random stacks of 1 to 5000 images of every integer type up to 16 bit (and wider types holding such '
        'values) are reduced by the real code; every result is compared with the reduction machine of Reduce.tla in exact '
        'arithmetic')
ASSUMPTIONS = ['images are integer arrays of values of at most 16 bit, all of one shape',
               'dmean is a float: relative tolerance 1e-11 plus 1e-13 of the largest value per image']

DT = {8: ['u1', 'u2', 'i2', 'i4', 'u4', 'i8', '>u2'], 16: ['u2', '>u2', 'i4', 'u4', 'i8']}
SDT = {8: ['i1', 'i2', 'i8'], 16: ['i2', '>i2', 'i4']}


def scenarios(ctx):
    scns = []
    r = ctx.rng
    for e in ctx.mc('MC_Reduce', ctx.n('MC_Reduce', 'MC_Reduce_deep')):
        scns.append({'src': 'tlc', 'calls': [
            {'imgs': e['imgs'], 'dt': 'u1'},
            {'imgs': [[[x * 257 for x in row] for row in i] for i in e['imgs']], 'dt': 'u2'},
            {'imgs': [[[x - 128 for x in row] for row in i] for i in e['imgs']], 'dt': 'i1'}]})
    sizes = [1, 2, 2, 3, 4, 7, 16, 50] + ([257, 1000] if ctx.quick else [257, 1000, 4001])
    for k in range(ctx.n(250, 3000)):
        L = r.choice(sizes)
        cells = 4 if L > 100 else 12 if L > 10 else 40
        w = r.randint(1, cells)
        h = r.randint(1, max(1, cells // w))
        bits = r.choice([8, 16])
        signed = r.random() < .2
        dt = r.choice((SDT if signed else DT)[bits])
        style = r.choice(['edge', 'small', 'noise', 'any', 'shift', 'same'])
        imgs = stack.images(r, L, h, w, bits, style, signed)
        call = {'imgs': imgs, 'dt': dt, 'seq': r.choice(['list', 'tuple']), 'order': r.choice(['C', 'F', 'neg', 'ro'])}
        calls = [call]
        if r.random() < .5:
            perm = imgs[:]
            r.shuffle(perm)
            calls.append(dict(call, imgs=perm))
        scns.append({'calls': calls})
    # beyond the 53 bits of a double
    for k in range(ctx.n(2, 12)):
        L = r.choice([4000, 5000])
        scns.append({'calls': [{'imgs': stack.images(r, L, 1, 2, 16, 'noise'), 'dt': 'u2'}]})
    return scns


def drive(scn, d):
    import numpy as np
    from emva1288.process.routines import get_int_imgs
    evs = []
    for c in scn['calls']:
        imgs = []
        for i in c['imgs']:
            a = np.array(i, dtype=np.dtype(c['dt']))
            o = c.get('order', 'C')
            if o == 'F':
                a = np.asfortranarray(a)
            elif o == 'neg':
                a = a[::-1].copy()[::-1]
            elif o == 'ro':
                a.flags.writeable = False
            imgs.append(a)
        if c.get('seq') == 'tuple':
            imgs = tuple(imgs)
        h0 = stack.digest(imgs)
        out, x = vlib.call(get_int_imgs, imgs)
        ev = {'e': 'reduce', 'imgs': c['imgs'], 'dt': c['dt'], 'out': out, 'h0': h0, 'h1': stack.digest(imgs),
              'top': max(abs(v) for i in c['imgs'] for row in i for v in row)}
        if out == 'ok':
            ev.update(L=x['L'], sum=vlib.arr(x['sum']), pvar=vlib.arr(x['pvar']), dmean=vlib.num(x['dmean']))
        evs.append(ev)
    return {'ev': evs}


def canaries(traces):
    out = []
    for t in traces[::max(1, len(traces) // 3)]:
        e = t['ev'][0]
        if e['out'] != 'ok':
            continue
        out.append(vlib.corrupt(t, ['ev', 0, 'sum', 0, 0], vlib.num(vlib.frac(e['sum'][0][0]) + 1)))
        out.append(vlib.corrupt(t, ['ev', 0, 'pvar', 0, 0], vlib.num(vlib.frac(e['pvar'][0][0]) + 1)))
        out.append(vlib.corrupt(t, ['ev', 0, 'dmean'], vlib.num(vlib.frac(e['dmean']) + vlib.Fraction(1, 10**6))))
        out.append(vlib.corrupt(t, ['ev', 0, 'h1'], 'x'))
    return out
