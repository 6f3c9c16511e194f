"""Image stacks: generators."""
import hashlib


def digest(x):
    import numpy as np
    h = hashlib.sha1()

    def rec(v):
        if isinstance(v, dict):
            for k in sorted(v, key=repr):
                h.update(repr(k).encode())
                rec(v[k])
        elif isinstance(v, (list, tuple)):
            h.update(b'%d' % len(v))
            for y in v:
                rec(y)
        elif isinstance(v, np.ma.MaskedArray):
            h.update(b'masked')
            rec(np.ma.getmaskarray(v))
            rec(np.ma.filled(v, 0))
        elif isinstance(v, np.ndarray):
            h.update(str((v.dtype.kind, v.dtype.itemsize, v.shape)).encode())
            h.update(repr(v.tolist()).encode())
        else:
            h.update(repr(v).encode())
    rec(x)
    return h.hexdigest()


def value(r, lo, hi, style):
    if style == 'edge':
        return r.choice([lo, lo, hi, hi, hi - 1, lo + 1, (lo + hi) // 2])
    if style == 'small':
        return max(lo, min(hi, r.randrange(0, 4)))
    if style == 'noise':
        m = lo + (hi - lo) * 2 // 3
        return max(lo, min(hi, m + r.randrange(-6, 7)))
    return r.randint(lo, hi)


def images(r, L, h, w, bits, style=None, signed=False):
    """L images of h x w as nested lists."""
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    style = style or r.choice(['edge', 'small', 'noise', 'any'])
    if style == 'shift':        # the same image, level by level
        base = [[r.randint(lo, hi // 2) for _ in range(w)] for _ in range(h)]
        return [[[x + (k * hi) // (2 * L) for x in row] for row in base] for k in range(L)]
    if style == 'same':
        base = [[r.randint(lo, hi) for _ in range(w)] for _ in range(h)]
        return [base for _ in range(L)]
    return [[[value(r, lo, hi, style) for _ in range(w)] for _ in range(h)] for _ in range(L)]
