"""Is an access inside of its block: bounds as integer sums over the values the code computed."""
from val import *

def parts(st, t):
    """t as integer: (constant, {term: coefficient}), or None if it may not be the integer sum of its parts"""
    if t[0] == 'c': return tos(t[2], t[1]), {}
    if t[0] == 'lin':
        k = tos(t[2], t[1]); d = {}
        for x, c in t[3]:
            c = tos(c, t[1]); q = parts(st, x)
            if q is None: return None
            k += c * q[0]
            for y, cy in q[1].items(): d[y] = d.get(y, 0) + c * cy
        # the sum itself must not wrap
        if t[1] < 64 and not st.exact(t): return 0, {t: 1}
        return k, d
    if t[0] == 'bits':
        b = t[2]; n = 0
        while n < len(b) and b[n] == 0: n += 1
        if n < len(b) and b[n] != 1:
            y = b[n][0]; m = 0
            if b[n][1] == 0:
                while n + m < len(b) and m < y[1] and b[n + m] == (y, m): m += 1
                rest = b[n + m:]
                if all(x == 0 for x in rest) and st.urng(y)[1] < (1 << m) and (m < y[1] or st.urng(y)[1] < 1 << (y[1] - 1)) or m == y[1] and all(x == (y, m - 1) for x in rest):
                    q = parts(st, y) or (0, {y: 1})
                    return q[0] << n, {z: c << n for z, c in q[1].items()}
                # a sum of which only the low bits count, but which has no more
                if m and all(x == 0 for x in rest): pass
    return 0, {t: 1}

def rng(st, t):
    """range of a value, also as it is known after its extension"""
    r = st.rng(t)
    if t[1] == 64 and t[0] == 'bits' and all(b == 0 for b in t[2][32:]):
        q = st.urng(mkbits(32, t[2][:32])); r = max(r[0], q[0]), min(r[1], q[1])
    if t[1] >= 64 or r[0] < 0: return r
    q = st.rng(ext(t, 64, False))
    return max(r[0], q[0]), min(r[1], q[1])
def above(st, t):
    """lower bound of a value from the sums it is part of"""
    b = rng(st, t)[0]
    for y in list(st.bnd) + list(st.ubnd):
        z = y[2][0][0] if y[0] == 'bits' and y[2][0] not in (0, 1) else y
        if z[0] != 'lin': continue
        q = parts(st, y)
        if q is None or q[1].get(t) != 1: continue
        b = max(b, rng(st, y)[0] - q[0] - sum(c * (rng(st, x)[1] if c > 0 else rng(st, x)[0]) for x, c in q[1].items() if x != t))
    return b
def diff(st, q, p):
    """upper bound of q - p"""
    if q[1] == p[1]: return st.diff(q, p, 'S')
    if q[1] < p[1] and st.rng(q)[0] >= 0: return st.diff(ext(q, p[1], False), p, 'S')
    if p[1] < q[1] and st.rng(p)[0] >= 0: return st.diff(q, ext(p, q[1], False), 'S')
    return None

def least(st, k, d, deep=True):
    """lower bound of an integer sum"""
    d = {t: c for t, c in d.items() if c}
    if not d: return k
    best = k + sum(c * (rng(st, t)[0] if c > 0 else rng(st, t)[1]) for t, c in d.items())
    neg = [t for t, c in d.items() if c < 0]; pos = [t for t, c in d.items() if c > 0]
    if not neg:
        for c in set(d.values()):
            g = [t for t in pos if d[t] == c]; w = {t[1] for t in g}
            if len(g) < 2 or len(w) > 1: continue
            t = g[0]
            for y in g[1:]: t = add(t, y)
            if st.exact(t): best = max(best, k + c * st.rng(t)[0] + sum(d[y] * st.rng(y)[0] for y in pos if y not in g))
        if best < 0 and deep and len(pos) == 1: best = max(best, k + d[pos[0]] * above(st, pos[0]))
        return best
    q = neg[0]
    for p in pos:
        x = diff(st, q, p)
        if x is None: continue
        c = min(d[p], -d[q]); e = dict(d); e[p] -= c; e[q] += c
        best = max(best, least(st, k - c * x, e, deep))
    # several parts of one sum
    g = [t for t in pos if t[1] == q[1] and d[t] >= -d[q]]
    if len(g) > 1:
        t = g[0]
        for y in g[1:]: t = add(t, y)
        x = st.diff(q, t, 'S') if st.exact(t) else None
        if x is not None:
            e = dict(d); c = -d[q]; e[q] = 0
            for y in g: e[y] -= c
            best = max(best, least(st, k - c * x, e, deep))
    # q is less than a sum
    if deep:
        for (a, y), x in list(st.dbm.items()):
            if a[0] == 'U' and (st.rng(a[1])[0] < 0 or st.rng(y[1])[0] < 0): continue
            u = next((u for u in neg if a[1] == u or u[1] < a[1][1] and a[1] == ext(u, a[1][1], False)), None)
            e = parts(st, y[1]) if u else None
            if e is None or set(e[1]) == {y[1]}: continue
            n = dict(d); c = n.pop(u)
            best = max(best, least(st, k + c * (x + rng(st, y[1])[1]), dict(n), False))
            for t, f in e[1].items(): n[t] = n.get(t, 0) + c * f
            best = max(best, least(st, k + c * (x + e[0]), n, False))
    # the largest value of q
    e = dict(d); c = e.pop(q)
    if len(neg) > 1 or pos: best = max(best, least(st, k + c * rng(st, q)[1], e, deep))
    return best

def inside(st, off, size, total):
    """is [off, off + size) certainly within [0, total)"""
    size = size if isinstance(size, tuple) else C(size, 64)
    a = [parts(st, st.simp(x)) for x in (off, size, total)]
    if any(x is None for x in a): return False
    (ko, do), (ks, ds), (kt, dt) = a
    if least(st, ko, do) < 0: return False
    d = dict(dt)
    for x in (do, ds):
        for t, c in x.items(): d[t] = d.get(t, 0) - c
    return least(st, kt - ko - ks, d) >= 0
