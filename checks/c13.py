"""C13: the high-pass filter is the exact integer box filter."""
import defect
import vlib

TRACE = 'Trace_Defect'
RULE = ('all two-valued 3x3 and 4x3 images and all masks of 3x3 (MC_Defect) and random images of several integer types, with '
        'filter sizes 2 to 9, without mask, with the masks of colour filters of any phase and with masks that are none, go '
        'through high_pass_filter; every result pixel, its mask, the factor and the type are compared with HighPass.tla')
ASSUMPTIONS = ['images at least as large as the filter, with a valid pixel to filter, sizes from 2 on',
               'the values of the result fit in the type of the image']
drive = defect.drive


def scenarios(ctx):
    r = ctx.rng
    calls = []
    for e in ctx.mc('MC_Defect', ctx.n('MC_Defect', 'MC_Defect_deep')):
        s = e['s']
        if e['mode'] == 'f':
            calls.append({'e': 'hp', 'img': [s[i:i + 3] for i in range(0, len(s), 3)], 'dt': r.choice(['i2', 'i4', 'i8']), 'dim': 3})
        elif e['mode'] == 'm' and not s[4]:
            calls.append({'e': 'hp', 'img': [[1, 2, 4], [8, 16, 32], [64, 128, 256]], 'dt': 'i8', 'dim': 3,
                          'mask': [[x == 1 for x in s[i:i + 3]] for i in (0, 3, 6)]})
    if ctx.quick:
        calls = r.sample(calls, 1500)
    scns = [{'src': 'tlc', 'calls': calls[i:i + 50]} for i in range(0, len(calls), 50)]
    calls = []
    while len(calls) < ctx.n(700, 10000):
        dim = r.choice([2, 3, 3, 3, 4, 5, 5, 5, 5, 7, 9])
        h, w = dim + r.choice([0, 0, 1, 2, 3, 4]), dim + r.choice([0, 1, 2, 3, 5])
        dt = r.choice(['i2', 'i4', 'i8', 'i8'])
        top = {'i2': 30000, 'i4': 2**30, 'i8': 2**45}[dt] // (dim * dim * 2)
        style = r.choice(['any', 'spot', 'ramp', 'small'])
        img = [[r.randint(-top, top) if style == 'any' else r.randint(0, 3) if style == 'small' else x * 3 + y if style == 'ramp' else 0
                for x in range(w)] for y in range(h)]
        if style == 'spot':
            img[r.randrange(h)][r.randrange(w)] = top
        m = r.choice([None, None, 'nomask', 'bayer', 'bayer', 'bayer', 'any'])
        if m == 'bayer':
            m = defect.bayer(r, h, w)
            if r.random() < .2:     # one pixel off
                y, x = r.randrange(h), r.randrange(w)
                m[y][x] = not m[y][x]
        elif m == 'any':
            m = defect.anymask(r, h, w)
        c = dim // 2
        if isinstance(m, list) and all(all(row[c:w - c]) for row in m[c:h - c]):
            continue
        calls.append({'e': 'hp', 'img': img, 'dt': dt, 'dim': dim, 'mask': m})
    return scns + [{'calls': calls[i:i + 10]} for i in range(0, len(calls), 10)]


def canaries(traces):
    out = []
    for t in traces[::max(1, len(traces) // 20)]:
        for k, e in enumerate(t['ev']):
            if e['out'] == 'ok' and not e['rmask']:
                out.append(vlib.corrupt(t, ['ev', k, 'res', 0, 0], vlib.bump(e['res'][0][0], 1)))
                out.append(vlib.corrupt(t, ['ev', k, 'mult'], vlib.bump(e['mult'], 1)))
                break
    return out
