"""Abstract interpreter over the exported program.

Domain: disjunctions of (finite symbolic heap, value terms, interval + bit +
difference-bound facts).  Calls are inlined, branches refine, loops whose exit
test is decided by the abstract heap are unrolled, all others are solved by a
widening fixpoint at the loop head.  No path is handed to a solver."""
import math
import sys
from val import *
from ir import AnalysisBroken
sys.setrecursionlimit(20000)

class Infeasible(Exception):
    pass

class Obj:
    __slots__ = ('size', 'type', 'kind', 'cells', 'sc', 'dflt', 'freed', 'owner', 'name', '_k')
    def __init__(s, size, type=None, kind='heap', dflt=('undef',), name=None):
        s.size, s.type, s.kind = size, type, kind
        s.cells, s.sc, s.dflt, s.freed, s.owner, s.name = {}, {}, [(0, 1 << 62, dflt)], False, None, name
        s._k = None
    def clone(s, owner):
        o = Obj.__new__(Obj)
        o.size, o.type, o.kind, o.freed, o.name = s.size, s.type, s.kind, s.freed, s.name
        o.cells, o.sc, o.dflt, o.owner, o._k = dict(s.cells), dict(s.sc), list(s.dflt), owner, None
        return o
    def k(s):
        if s._k is None:
            s._k = (frozenset(s.cells.items()), frozenset(s.sc.items()), tuple(s.dflt), s.freed)
        return s._k

def lowpart(y, x):
    """y is the low bits of x"""
    if y[0] != 'bits': return False
    a, b = y[2], bits_of(x); n = 0
    while n < len(a) and a[n] == b[n] and a[n] != 0: n += 1
    return n > 0 and all(q == 0 for q in a[n:])

def narrowed(x, y):
    """k if y is the sign extension of the low k bits of x, -k if the zero extension"""
    b = y[2]; n = 0
    if y[1] != x[1]: return 0
    while n < len(b) and b[n] == (x, n): n += 1
    if n == 0 or n == len(b): return 0
    if all(q == (x, n - 1) for q in b[n:]): return n
    if all(q == 0 for q in b[n:]): return -n
    return 0

class State:
    __slots__ = ('mem', 'bnd', 'ubnd', 'bit', 'ne', 'dbm', 'eqp', 'trace', 'tok', 'memo', 'data')
    _n = 0
    def __init__(s):
        s.mem, s.bnd, s.ubnd, s.bit, s.ne, s.dbm, s.eqp = {}, {}, {}, {}, set(), {}, {}
        s.trace = None; s.memo = {}; s.data = {}
        s.newtok()
    def newtok(s):
        State._n += 1; s.tok = State._n
    def fork(s):
        n = State.__new__(State)
        n.mem, n.bnd, n.ubnd, n.bit, n.ne, n.dbm, n.eqp = dict(s.mem), dict(s.bnd), dict(s.ubnd), dict(s.bit), set(s.ne), dict(s.dbm), dict(s.eqp)
        n.trace, n.memo, n.data = s.trace, {}, s.data
        s.newtok(); n.newtok()
        return n
    def w(s, rid):
        o = s.mem[rid]
        if o.owner != s.tok:
            o = o.clone(s.tok); s.mem[rid] = o
        o._k = None
        return o
    def ev(s, e): s.trace = (s.trace, e)
    def events(s):
        out = []; t = s.trace
        while t is not None:
            out.append(t[1]); t = t[0]
        return out[::-1]
    # ---------- ranges
    def rng(s, t):
        """signed interval"""
        return s.ranges(t)[0:2]
    def urng(s, t):
        return s.ranges(t)[2:4]
    def ranges(s, t):
        m = s.memo.get(t)
        if m is not None: return m
        if t[0] in ('lin', 'bits') and s.dbm:
            H = 1 << (t[1] - 1); s.memo[t] = (-H, H - 1, 0, 2 * H - 1)      # (while it is computed: relations may lead back to it)
        r = s._ranges(t)
        s.memo[t] = r
        if s.dbm and t[0] == 's' and t[1] == 64: s.memo[t] = r = s.viasum(t, r)
        return r
    def viasum(s, t, r):
        """bounds of a symbol that is part of a compared sum:  u <= t + y + v  and  t + y <= u + v"""
        ix = s.memo.get('sumix')
        if ix is None:
            ix = {}
            for (x, y), k in s.dbm.items():
                for n, o in ((x, y), (y, x)):
                    if n[0] == 'S' and o[0] == 'S' and n[1][0] == 'lin' and len(n[1][3]) <= 3:
                        for z, c in n[1][3]:
                            if c == 1 and z[0] == 's': ix.setdefault(z, []).append((n[1], o[1], k, n is x))
            s.memo['sumix'] = ix
        for lin, u, k, up in ix.get(t, ()):
            if not s.exact(lin): continue
            d = sub(u, sub(lin, t))     # u - rest
            if d[0] == 'lin' and len(d[3]) > 3 or not (d[0] != 'lin' or s.exact(d)): continue
            lo, hi = s.rng(d)
            if up: r = s._clip(t, r[0], min(r[1], hi + k), r[2], r[3])
            else: r = s._clip(t, max(r[0], lo - k), r[1], r[2], r[3])
        return r
    def _clip(s, t, slo, shi, ulo, uhi):
        w = t[1]
        b = s.bnd.get(t)
        if b: slo, shi = max(slo, b[0]), min(shi, b[1])
        b = s.ubnd.get(t)
        if b: ulo, uhi = max(ulo, b[0]), min(uhi, b[1])
        H = 1 << (w - 1)
        for _ in range(2):
            if slo >= 0: ulo, uhi = max(ulo, slo), min(uhi, shi)
            elif shi < 0: ulo, uhi = max(ulo, slo + 2 * H), min(uhi, shi + 2 * H)
            if uhi < H: slo, shi = max(slo, ulo), min(shi, uhi)
            elif ulo >= H: slo, shi = max(slo, ulo - 2 * H), min(shi, uhi - 2 * H)
        return (slo, shi, ulo, uhi)
    def _ranges(s, t):
        w = t[1]; H = 1 << (w - 1); k = t[0]
        if k == 'c': 
            v = t[2]; return (sval(t), sval(t), v, v)
        slo, shi, ulo, uhi = -H, H - 1, 0, 2 * H - 1
        if k == 's':
            b = SYMR.get(t)
            if b: slo, shi = max(slo, b[0]), min(shi, b[1])
        elif k in ('ptr', 'fn'):
            return (1, H - 1, 1, 2 * H - 1)
        elif k == 'lin':
            for mode in (0, 1, 2):
                lo = hi = tos(t[2], w) if mode != 2 else t[2]
                for x, c in t[3]:
                    a = s.ranges(x)
                    l, h = (a[0], a[1]) if mode == 0 else (a[2], a[3])
                    cc = tos(c, w)
                    if cc >= 0: lo += cc * l; hi += cc * h
                    else: lo += cc * h; hi += cc * l
                if -H <= lo and hi <= H - 1: slo, shi = max(slo, lo), min(shi, hi)
                if 0 <= lo and hi <= 2 * H - 1: ulo, uhi = max(ulo, lo), min(uhi, hi)
            # x - y <= k  bounds the sum of x and the parts of -y
            if s.dbm and 2 <= len(t[3]) <= 3:
                parts = {x for x, c in t[3]}
                for (x, y), b in s.dbm.items():
                    if x[0] != 'S' or y[0] != 'S' or x[1][1] != w or not (x[1] in parts and y[1][0] == 'lin' or y[1] in parts and x[1][0] == 'lin'): continue
                    d = sub(x[1], y[1])
                    if d[0] != 'lin' or d[3] != t[3]: continue
                    e = tos(t[2] - d[2], w); p, q = s.ranges(x[1]), s.ranges(y[1])
                    if p[0] - q[1] + e >= -H and b + e < H: slo, shi = max(slo, p[0] - q[1] + e), min(shi, b + e)
            # x - x % y lies between 0 and x
            if len(t[3]) == 2 and t[2] == 0:
                for (x, c), (y, d) in (t[3], t[3][::-1]):
                    if c == 1 and d == (1 << w) - 1 and (y[0] == 'op' and y[2] in ('srem', 'urem') and y[3] == x or lowpart(y, x)):
                        r = s.ranges(x)
                        if r[0] >= 0: slo, shi = max(slo, 0), min(shi, r[1])
                        ulo, uhi = max(ulo, 0), min(uhi, r[3])
            elif len(t[3]) > 2:
                for y, d in t[3]:
                    if d == (1 << w) - 1 and y[0] == 'op' and y[2] in ('srem', 'urem') and y[3][0] == 'lin' and add(t, y) == y[3]:
                        r = s.ranges(y[3])
                        if r[0] >= 0: slo, shi = max(slo, 0), min(shi, r[1])
                        ulo, uhi = max(ulo, 0), min(uhi, r[3])
            # facts about the same sum with another constant or the opposite sign
            if s.bnd and len(t[3]) > 1:
                kk = tos(t[2], w); b0 = mklin(w, 0, dict(t[3])) if t[2] else t; b = s.bnd.get(b0) if t[2] else None
                if b and -H <= b[0] + kk and b[1] + kk <= H - 1: slo, shi = max(slo, b[0] + kk), min(shi, b[1] + kk)
                b = s.bnd.get(neg(b0))
                if b and -H <= kk - b[1] and kk - b[0] <= H - 1: slo, shi = max(slo, kk - b[1]), min(shi, kk - b[0])
            # differences known from relations:  c*a - c*b  for a pair of terms
            n = len(t[3])
            if 2 <= n <= 5 and s.dbm:
                cs = [tos(c, w) for _, c in t[3]]; kk = tos(t[2], w)
                for dom in 'SU':
                    iv = []
                    for (x, _), c in zip(t[3], cs):
                        r = s.ranges(x); l, h = (r[0], r[1]) if dom == 'S' else (r[2], r[3])
                        iv.append((l, h))
                    part = lambda c, i: (c * iv[i][0], c * iv[i][1]) if c >= 0 else (c * iv[i][1], c * iv[i][0])
                    def best(left, cc, depth):
                        """interval of the sum over the indices in `left` with coefficients cc"""
                        lo = hi = 0
                        for i in left:
                            q = part(cc[i], i); lo += q[0]; hi += q[1]
                        if depth == 0: return lo, hi
                        for i in left:
                            for j in left:
                                if cc[i] > 0 > cc[j]:
                                    x, y = t[3][i][0], t[3][j][0]
                                    dh = s.diff(x, y, dom); dl = s.diff(y, x, dom)
                                    if dh is None and dl is None: continue
                                    m = min(cc[i], -cc[j])
                                    ih, il = iv[i][1] - iv[j][0], iv[i][0] - iv[j][1]
                                    dh = ih if dh is None else min(dh, ih); dl = il if dl is None else max(-dl, il)
                                    c2 = list(cc); c2[i] -= m; c2[j] += m
                                    l2, h2 = best([q for q in left if c2[q]], c2, depth - 1)
                                    lo = max(lo, l2 + m * dl); hi = min(hi, h2 + m * dh)
                        return lo, hi
                    lo, hi = best(list(range(n)), cs, 2 if n > 2 else 1)
                    lo += kk; hi += kk
                    if -H <= lo and hi <= H - 1: slo, shi = max(slo, lo), min(shi, hi)
                    if 0 <= lo and hi <= 2 * H - 1: ulo, uhi = max(ulo, lo), min(uhi, hi)
        elif k == 'bits':
            b = t[2]; lo = hi = 0; i = 0
            while i < w:
                x = b[i]
                if x == 0: i += 1; continue
                if x == 1: lo += 1 << i; hi += 1 << i; i += 1; continue
                y, n = x; j = i
                while j + 1 < w and b[j + 1] not in (0, 1) and b[j + 1][0] == y and b[j + 1][1] == n + (j + 1 - i): j += 1
                nb = j - i + 1
                full = (1 << nb) - 1
                if y[0] == 'cmp' and y[1] == 1:
                    tv = s.truth(y)
                    l, h = (1, 1) if tv is True else (0, 0) if tv is False else (0, 1)
                elif y[0] == 'bop':
                    v = s.bitval((y, 0)); l, h = (v, v) if v is not None else (0, 1)
                elif nb == 1 and (y, n) in s.bit:
                    l = h = s.bit[(y, n)]
                else:
                    r = s.ranges(y)
                    if n + nb == y[1]: l, h = r[2] >> n, r[3] >> n        # top bits included
                    elif r[3] < (1 << (n + nb)): l, h = r[2] >> n, r[3] >> n
                    elif (r[2] >> (n + nb)) == (r[3] >> (n + nb)): l, h = (r[2] >> n) & full, (r[3] >> n) & full
                    else: l, h = 0, full
                    if s.bit:
                        kl = kh = 0; any_ = False
                        for q in range(nb):
                            v = s.bit.get((y, n + q))
                            if v is None: kh |= 1 << q
                            else: any_ = True; kl |= v << q; kh |= v << q
                        if any_: l, h = max(l, kl), min(h, kh)
                lo += l << i; hi += h << i; i = j + 1
            ulo, uhi = max(ulo, lo), min(uhi, hi)
            # sign extension pattern
            tb = b[-1]
            if tb not in (0, 1):
                y, n = tb
                if n == y[1] - 1 and y[0] not in ('cmp', 'bop'):
                    j = w - 1
                    while j > 0 and b[j - 1] == tb: j -= 1
                    # low part must be contiguous bits of y ending at bit j
                    st = j - n if n <= j else None
                    if st is None:
                        # ashr: bits (n-j.. n) of y
                        sh = n - j
                        if all(b[q] == (y, q + sh) for q in range(0, j + 1)):
                            r = s.ranges(y)
                            slo, shi = max(slo, r[0] >> sh), min(shi, r[1] >> sh)
                    elif all(b[q] == (y, q - st) for q in range(st, j + 1)) and all(b[q] == 0 for q in range(0, st)):
                        r = s.ranges(y)
                        slo, shi = max(slo, r[0] << st), min(shi, r[1] << st)
        elif k == 'cmp':
            tv = s.truth(t)
            if tv is True: ulo = uhi = 1
            elif tv is False: ulo = uhi = 0
        elif k == 'op':
            n = t[2]
            if n == 'mul':
                a, b = s.ranges(t[3]), s.ranges(t[4])
                ps = [a[i] * b[j] for i in (0, 1) for j in (0, 1)]
                lo, hi = min(ps), max(ps)
                if -H <= lo and hi <= H - 1: slo, shi = lo, hi
                lo, hi = a[2] * b[2], a[3] * b[3]
                if hi <= 2 * H - 1: ulo, uhi = lo, hi
            elif n == 'sdiv':
                a, b = s.rng(t[3]), s.rng(t[4])
                bs = [v for v in (b[0], b[1]) if v]
                if b[0] < 0 < b[1]: bs += [-1, 1]
                elif b[0] == 0 and b[1] > 0: bs.append(1)
                elif b[1] == 0 and b[0] < 0: bs.append(-1)
                q = []
                for x in a:
                    for y in bs:
                        v = abs(x) // abs(y)
                        q.append(v if (x < 0) == (y < 0) else -v)
                if a[0] < 0 < a[1]: q.append(0)
                if q and max(q) <= H - 1: slo, shi = min(q), max(q)
            elif n == 'udiv':
                a, b = s.urng(t[3]), s.urng(t[4])
                ulo, uhi = a[0] // max(b[1], 1), a[1] // max(b[0], 1)
            elif n == 'urem':
                a, b = s.urng(t[3]), s.urng(t[4])
                ulo, uhi = 0, min(a[1], max(b[1] - 1, 0))
            elif n == 'srem':
                a, b = s.rng(t[3]), s.rng(t[4])
                mx = max(abs(b[0]), abs(b[1])) - 1
                slo, shi = (max(-mx, a[0]) if a[0] < 0 else 0), (min(mx, a[1]) if a[1] > 0 else 0)
            elif n == 'ashr':
                a, b = s.rng(t[3]), s.urng(t[4])
                if b[1] < w:
                    c = [a[i] >> b[j] for i in (0, 1) for j in (0, 1)]
                    slo, shi = min(c), max(c)
            elif n == 'lshr':
                a, b = s.urng(t[3]), s.urng(t[4])
                if b[1] < w: ulo, uhi = a[0] >> b[1], a[1] >> b[0]
            elif n == 'shl':
                a, b = s.ranges(t[3]), s.urng(t[4])
                if b[1] < w:
                    if a[3] << b[1] <= 2 * H - 1: ulo, uhi = a[2] << b[0], a[3] << b[1]
                    c = [a[i] << b[j] for i in (0, 1) for j in (0, 1)]
                    if -H <= min(c) and max(c) <= H - 1: slo, shi = min(c), max(c)
            elif n == 'and':
                a, b = s.urng(t[3]), s.urng(t[4]); uhi = min(a[1], b[1])
            elif n == 'or':
                a, b = s.urng(t[3]), s.urng(t[4])
                ulo = max(a[0], b[0]); uhi = (1 << max(a[1].bit_length(), b[1].bit_length())) - 1
            elif n == 'xor':
                a, b = s.urng(t[3]), s.urng(t[4]); uhi = (1 << max(a[1].bit_length(), b[1].bit_length())) - 1
            elif n == 'abs':
                a = s.rng(t[3]); slo, shi = 0, max(abs(a[0]), abs(a[1]))
        return s._clip(t, slo, shi, ulo, uhi)
    def const(s, t):
        """constant value of t in this state (unsigned) or None"""
        if t[0] == 'c': return t[2]
        if t[0] in ('ptr', 'fn'): return None
        r = s.ranges(t)
        if r[0] == r[1]: return r[0] & M[t[1]]
        if r[2] == r[3]: return r[2]
        return None
    def simp(s, t):
        if t[0] in ('c', 'ptr', 'fn'): return t
        v = s.const(t)
        if v is not None: return ('c', t[1], v)
        if t in s.eqp: return s.simp(s.eqp[t])
        if t[0] == 'lin' and s.eqp:
            if any(x in s.eqp for x, _ in t[3]):
                r = C(t[2], t[1])
                for x, c in t[3]: r = add(r, s.simp(x), 1, c)
                return s.simp(r)
        if t[0] == 'bits' and s.bit:
            ch = False; out = []
            for b in t[2]:
                v = b if b in (0, 1) else s.bit.get(b)
                if v is None: v = b
                else: ch |= v != b
                out.append(v)
            if ch: return mkbits(t[1], out)
        return t
    def bitval(s, b):
        if b in (0, 1): return b
        if b in s.bit: return s.bit[b]
        y = b[0]
        if y[0] == 'cmp':
            tv = s.truth(y); return None if tv is None else int(tv)
        if y[0] == 'bop':
            o = y[2]
            if o == 'not':
                v = s.bitval(y[3]); return None if v is None else 1 - v
            p, q = s.bitval(y[3]), s.bitval(y[4])
            if o == 'and':
                if p == 0 or q == 0: return 0
                if p == 1 and q == 1: return 1
            elif o == 'or':
                if p == 1 or q == 1: return 1
                if p == 0 and q == 0: return 0
            elif p is not None and q is not None: return p ^ q
            return None
        r = s.ranges(y)
        if r[2] == r[3]: return (r[2] >> b[1]) & 1
        if r[3] < (1 << b[1]): return 0
        if (r[2] >> b[1]) == (r[3] >> b[1]): return (r[2] >> b[1]) & 1
        return None
    # ---------- difference bounds: nodes ('S',t)/('U',t)
    def dec(s, t, dom):
        """(node|None, k): value of t in domain dom = node + k"""
        k = 0
        while True:
            if t[0] == 'c': return None, k + (sval(t) if dom == 'S' else t[2])
            if t[0] == 'bits':
                b = t[2]; w = t[1]; b0 = b[0]
                if b0 not in (0, 1) and b0[1] == 0 and b0[0][0] not in ('cmp', 'bop') and b0[0][1] < w:
                    y = b0[0]; wy = y[1]
                    if all(b[i] == (y, i) for i in range(wy)):
                        top = b[wy:]
                        if all(x == 0 for x in top): t, dom = y, 'U'; continue
                        if all(x == (y, wy - 1) for x in top) and (dom == 'S' or s.rng(y)[0] >= 0): t, dom = y, 'S'; continue
                elif b0 not in (0, 1) and b0[1] == 0 and b0[0][0] not in ('cmp', 'bop') and b0[0][1] > w:
                    # cut to fewer bits without losing any
                    y = b0[0]; r = s.ranges(y)
                    if all(b[i] == (y, i) for i in range(w)):
                        if dom == 'S' and -(1 << w - 1) <= r[0] and r[1] < 1 << w - 1: t = y; continue
                        if dom == 'U' and r[3] < 1 << w: t = y; continue
            if t[0] == 'lin' and t[2]:
                x = t[3][0][0] if len(t[3]) == 1 and t[3][0][1] == 1 else ('lin', t[1], 0, t[3])
                r = s.ranges(x); w = t[1]; H = 1 << (w - 1)
                kk = tos(t[2], w)
                if dom == 'S' and -H <= r[0] + kk and r[1] + kk <= H - 1: k += kk; t = x; continue
                if dom == 'U':
                    if 0 <= r[2] + kk and r[3] + kk <= 2 * H - 1: k += kk; t = x; continue
                    if 0 <= r[2] + t[2] and r[3] + t[2] <= 2 * H - 1: k += t[2]; t = x; continue
            break
        if dom == 'U' and s.rng(t)[0] >= 0: dom = 'S'
        return (dom, t), k
    def nrng(s, n):
        r = s.ranges(n[1])
        return (r[0], r[1]) if n[0] == 'S' else (r[2], r[3])
    def diffn(s, a, b, depth=5):
        """least known k with node a <= node b + k"""
        if a == b: return 0
        if not s.dbm: return None
        q = s.memo.get(('from', a))
        if q is not None: return q.get(b)
        best = {a: 0}; front = {a}
        adj = s.memo.get('adj')
        if adj is None:
            adj = {}
            for (x, y), k in s.dbm.items(): adj.setdefault(x, []).append((y, k))
            s.memo['adj'] = adj
        for _ in range(depth):
            nf = set()
            for x in front:
                for y, k in adj.get(x, ()):
                    v = best[x] + k
                    if y not in best or v < best[y]: best[y] = v; nf.add(y)
            if not nf: break
            front = nf
        s.memo[('from', a)] = best
        return best.get(b)
    def diff(s, a, b, dom):
        """least known k with a <= b + k (relations only)"""
        if not s.dbm: return None
        key_ = ('diff', a, b, dom)
        if key_ in s.memo: return s.memo[key_]
        s.memo[key_] = None   # recursion guard
        na, ka = s.dec(a, dom); nb, kb = s.dec(b, dom)
        r = None
        if na is not None and nb is not None:
            d = s.diffn(na, nb)
            if d is not None: r = d + ka - kb
        s.memo[key_] = r
        return r
    def le(s, a, b, dom, strict=False):
        """is a <= b (or a < b) certain"""
        if a == b: return not strict
        ra, rb = (s.rng(a), s.rng(b)) if dom == 'S' else (s.urng(a), s.urng(b))
        if ra[1] <= rb[0] - (1 if strict else 0): return True
        k = s.diff(a, b, dom)
        if k is not None and k <= (-1 if strict else 0): return True
        # the signed value of the difference, when it cannot wrap
        if a[0] != 'c' and b[0] != 'c' and a[0] not in ('ptr', 'fn') and b[0] not in ('ptr', 'fn') and (a[0] == 'lin' or b[0] == 'lin'):
            H = 1 << (a[1] - 1)
            if rb[1] - ra[0] < H and ra[1] - rb[0] <= H:
                d = sub(b, a)
                m = 1 if strict else 0
                if d[0] != 'lin' or len(d[3]) <= 3:
                    if s.rng(d)[0] >= m: return True
                    if s.dbm and len(s.dbm) < 200 and d[0] in ('lin', 's', 'bits'):
                        q = s.tight(d, False)
                        if q is not None and q >= m: return True
                        if d[0] == 'lin' and len(d[3]) <= 4 and s.split(d, m): return True
                # through a sum that bounds b from below or a from above
                if len(s.dbm) < 200:
                    nb, kb = s.dec(b, dom); na, ka = s.dec(a, dom)
                    for (x, y), k in s.dbm.items():
                        # x <= y + k
                        if nb is not None and y == nb and x[1][0] == 'lin' and x[0] == nb[0]:
                            q = sub(x[1], a); r = s.nrng(x)
                            if r[1] - ra[0] < H and ra[1] - r[0] <= H and s.rng(q)[0] - k + kb >= m: return True
                        if na is not None and x == na and y[1][0] == 'lin' and y[0] == na[0]:
                            q = sub(b, y[1]); r = s.nrng(y)
                            if rb[1] - r[0] < H and r[1] - rb[0] <= H and s.rng(q)[0] - k - ka >= m: return True
        # bounds that follow from related values
        if s.dbm and len(s.dbm) < 200 and (a[0] == 'c') != (b[0] == 'c') and dom == 'S':
            m = 1 if strict else 0
            d = sub(b, a)
            if d[0] == 'lin' and len(d[3]) <= 4 and s.split(d, m): return True
            if a[0] == 'c' and b[0] in ('lin', 's', 'bits'):
                q = s.tight(b, False)
                if q is not None and sval(a) + m <= q: return True
            elif b[0] == 'c' and a[0] in ('lin', 's', 'bits'):
                q = s.tight(a, True)
                if q is not None and q + m <= sval(b): return True
        return False
    def split(s, d, m):
        """d >= m through a relation between its positive and its negative terms"""
        w = d[1]; H = 1 << (w - 1); k = tos(d[2], w); pos, neg = {}, {}; g = 0
        for x, c in d[3]:
            c = tos(c, w); g = math.gcd(g, abs(c)); (pos if c > 0 else neg)[x] = abs(c)
        if not pos or not neg or not g: return False
        p = mklin(w, 0, {x: c // g for x, c in pos.items()}); n = mklin(w, 0, {x: c // g for x, c in neg.items()})
        rp, rn = s.rng(p), s.rng(n)
        if g * (rp[1] - rn[0]) + k >= H or g * (rp[0] - rn[1]) + k < -H: return False
        q = s.diff(n, p, 'S')
        if q is not None and -g * q + k >= m: return True
        if len(d[3]) > 2:
            for x, c in d[3]:
                c = tos(c, w); r = s.rng(x); v = min(c * r[0], c * r[1])
                if max(c * r[0], c * r[1]) - v < H:
                    e = mklin(w, k + v, {y: e for y, e in d[3] if y != x})
                    if -H <= k + v < H and e[0] == 'lin' and s.split(e, m): return True
            # pairs of a positive and a negative term
            for x, c in neg.items():
                for y, e in pos.items():
                    if e % c: continue
                    r = s.rng(y)
                    if r[1] * (e // c) >= H or r[0] * (e // c) < -H: continue
                    q = s.diff(x, mklin(w, 0, {y: e // c}), 'S')
                    if q is None: continue
                    t = mklin(w, k - c * q, {z: f for z, f in d[3] if z != x and z != y})
                    if t[0] == 'c':
                        if tos(t[2], w) >= m: return True
                    elif s.rng(t)[0] >= m or t[0] == 'lin' and s.split(t, m): return True
        return False
    def tight(s, t, up):
        """bound of t from the bounds of values related to its parts; None if it may wrap"""
        k, parts = (tos(t[2], t[1]), t[3]) if t[0] == 'lin' else (0, ((t, 1),))
        if len(parts) > 3: return None
        H = 1 << (t[1] - 1); lo = hi = k; v = k; whole = None
        n, kx = s.dec(t, 'S')
        if n is not None and t[0] == 'lin':
            for (p, q) in s.dbm:
                d = s.diffn(n, q) if up else s.diffn(p, n)
                if d is None: continue
                y = s.nrng(q)[1] + d + kx if up else s.nrng(p)[0] - d + kx
                whole = y if whole is None else min(whole, y) if up else max(whole, y)
        for x, c in parts:
            c = tos(c, t[1]); r = s.rng(x)
            lo += min(c * r[0], c * r[1]); hi += max(c * r[0], c * r[1])
            n, kx = s.dec(x, 'S')
            b = r[1] if (c > 0) == up else r[0]
            if n is not None:
                for (p, q) in s.dbm:
                    if (c > 0) == up:
                        d = s.diffn(n, q)
                        if d is not None: b = min(b, s.nrng(q)[1] + d + kx)
                    else:
                        d = s.diffn(p, n)
                        if d is not None: b = max(b, s.nrng(p)[0] - d + kx)
            v += c * b
        if lo < -H or hi >= H: return None
        return v if whole is None else min(v, whole) if up else max(v, whole)
    # ---------- truth of comparisons
    def truth(s, t):
        if t[0] == 'c': return bool(t[2])
        if t[0] == 'bits':
            v = s.bitval(t[2][0]) if t[1] == 1 else None
            return None if v is None else bool(v)
        if t[0] == 's':
            v = s.const(t); return None if v is None else bool(v)
        if t[0] != 'cmp': return None
        p = t[2]
        if p == 'not':
            v = s.truth(t[3]); return None if v is None else not v
        a, b = t[3], t[4]
        if p in ('eq', 'ne'):
            e = s.equal(a, b)
            return None if e is None else (e if p == 'eq' else not e)
        if p not in INV: return None
        if a[0] == 'ptr' or b[0] == 'ptr':
            if a[0] == 'ptr' and b[0] == 'ptr' and a[2] == b[2]: a, b = a[3], b[3]
            else: return None
        if a == b: return p[1:] in ('le', 'ge')
        dom = 'S' if p[0] == 's' else 'U'
        if p[1:] == 'lt':
            if s.le(a, b, dom, True): return True
            if s.le(b, a, dom): return False
        elif p[1:] == 'le':
            if s.le(a, b, dom): return True
            if s.le(b, a, dom, True): return False
        elif p[1:] == 'gt':
            if s.le(b, a, dom, True): return True
            if s.le(a, b, dom): return False
        elif p[1:] == 'ge':
            if s.le(b, a, dom): return True
            if s.le(a, b, dom, True): return False
        return None
    def equal(s, a, b):
        if a == b: return True
        a, b = s.simp(a), s.simp(b)
        if a == b: return True
        if a[0] == 'c' and b[0] == 'c': return a[2] == b[2]
        if a[0] in ('ptr', 'fn') or b[0] in ('ptr', 'fn'):
            if a[0] not in ('ptr', 'fn'): a, b = b, a
            if b[0] == 'c': 
                return False if (b[2] == 0 or a[0] == 'fn' or True) else None
            if a[0] != b[0] and b[0] in ('ptr', 'fn'): return False
            if b[0] == 'fn': return a[2] == b[2]
            if b[0] == 'ptr':
                if a[2] != b[2]:
                    return False
                return s.equal(a[3], b[3])
            if ('eq', a, b) in s.ne or ('eq', b, a) in s.ne: return False
            if b[0] == 's' and b in FRESHPTR: return None
            return None
        if ('eq', a, b) in s.ne or ('eq', b, a) in s.ne: return False
        ra, rb = s.ranges(a), s.ranges(b)
        if ra[1] < rb[0] or rb[1] < ra[0] or ra[3] < rb[2] or rb[3] < ra[2]: return False
        for x, y in ((a, b), (b, a)):
            # y is x cut to fewer bits and extended again: equal only within the narrow range
            if y[0] == 'bits' and x[0] not in ('bits', 'c'):
                k = narrowed(x, y)
                if k:
                    lo, hi = s.rng(x)
                    if k > 0 and (hi < -(1 << k - 1) or lo >= 1 << k - 1): return False
                    if k > 0 and -(1 << k - 1) <= lo and hi < 1 << k - 1: return True
                    if k < 0:
                        lo, hi = s.urng(x)
                        if lo >= 1 << -k: return False
                        if hi < 1 << -k: return True
        if b[0] == 'c' and a[0] == 'bits':
            for i, x in enumerate(a[2]):
                v = s.bitval(x)
                if v is not None and v != ((b[2] >> i) & 1): return False
        if s.le(a, b, 'S', True) or s.le(b, a, 'S', True) or s.le(a, b, 'U', True) or s.le(b, a, 'U', True): return False
        d = sub(a, b)
        if d[0] == 'c': return d[2] == 0
        r = s.ranges(d)
        if r[0] > 0 or r[1] < 0 or r[2] > 0: return False
        return None
    # ---------- assuming
    def set_s(s, t, lo, hi):
        if t[0] in ('ptr', 'fn'): return
        r = s.rng(t)
        lo, hi = max(lo, r[0]), min(hi, r[1])
        if lo > hi: raise Infeasible()
        if (lo, hi) == r: return
        s.bnd[t] = (lo, hi); s.memo = {}
        w = t[1]
        if t[0] == 'lin' and len(t[3]) == 2:
            (x, c), (y, d) = t[3]
            if tos(c, w) == -1 and d == 1: (x, c), (y, d) = (y, d), (x, c)
            if c == 1 and tos(d, w) == -1 and x[0] not in ('ptr', 'fn') and y[0] not in ('ptr', 'fn'):
                H = 1 << (w - 1); kk = tos(t[2], w); rx, ry = s.rng(x), s.rng(y)
                if -H <= rx[0] - ry[1] + kk and rx[1] - ry[0] + kk <= H - 1:
                    s.add_diff(y, x, 'S', kk - lo); s.add_diff(x, y, 'S', hi - kk)
        if t[0] == 'lin' and t[2] and len(t[3]) > 1:
            H = 1 << (w - 1); kk = tos(t[2], w)
            if -H <= lo - kk and hi - kk <= H - 1:
                b0 = mklin(w, 0, dict(t[3])); r0 = s.rng(b0)
                if -H <= r0[0] + kk and r0[1] + kk <= H - 1: s.bnd[b0] = (max(r0[0], lo - kk), min(r0[1], hi - kk)); s.memo = {}
        if t[0] == 'lin' and len(t[3]) == 1:
            x, c = t[3][0]; c = tos(c, w); kk = tos(t[2], w); rx = s.rng(x)
            H = 1 << (w - 1)
            if c in (1, -1):
                nlo, nhi = (lo - kk, hi - kk) if c == 1 else (kk - hi, kk - lo)
                if c * rx[0 if c > 0 else 1] + kk >= -H and c * rx[1 if c > 0 else 0] + kk <= H - 1: s.set_s(x, nlo, nhi)
            elif c > 1 and c * rx[0] + kk >= -H and c * rx[1] + kk <= H - 1:
                s.set_s(x, -((kk - lo) // c), (hi - kk) // c)
        elif t[0] == 'bits':
            b = t[2]; b0 = b[0]
            if b0 not in (0, 1) and b0[1] == 0 and b0[0][0] not in ('cmp', 'bop') and b0[0][1] < w:
                y = b0[0]; wy = y[1]
                if all(b[i] == (y, i) for i in range(wy)):
                    if all(x == 0 for x in b[wy:]): s.set_u(y, max(lo, 0), hi)
                    elif all(x == (y, wy - 1) for x in b[wy:]): s.set_s(y, lo, hi)
            elif all(x == 0 for x in b[1:]) and lo == hi: s.set_bit(b0, lo)
        elif t[0] == 'op' and t[2] == 'ashr' and t[4][0] == 'c':
            n = t[4][2]; s.set_s(t[3], lo << n, ((hi + 1) << n) - 1)
        if lo == hi and s.SETTLE and s.dbm: s.settle(t, 'S', lo)
    SETTLE = False   # carry values found along comparisons
    def settle(s, t, dom, v):
        """t is v: what t is compared to is bounded"""
        n, k = s.dec(t, dom)
        if n is None: return
        v -= k
        for (x, y), q in list(s.dbm.items()):
            if y == n: z, lo, hi = x, -(1 << 127), v + q
            elif x == n: z, lo, hi = y, v - q, 1 << 127
            else: continue
            if z[0] == 'S': s.set_s(z[1], lo, hi)
            else: s.set_u(z[1], max(lo, 0), hi)
    def close(s):
        """carry bounds along all comparisons; raises Infeasible"""
        for _ in range(4):
            m = False
            for (x, y), k in list(s.dbm.items()):
                rx, ry = s.nrng(x), s.nrng(y)
                if rx[1] > ry[1] + k:
                    m = True
                    if x[0] == 'S': s.set_s(x[1], -(1 << 127), ry[1] + k)
                    else: s.set_u(x[1], 0, ry[1] + k)
                if ry[0] < rx[0] - k:
                    m = True
                    if y[0] == 'S': s.set_s(y[1], rx[0] - k, 1 << 127)
                    else: s.set_u(y[1], max(0, rx[0] - k), 1 << 127)
            if not m: break
        return s
    def set_u(s, t, lo, hi):
        if t[0] in ('ptr', 'fn'): return
        r = s.urng(t)
        lo, hi = max(lo, r[0]), min(hi, r[1])
        if lo > hi: raise Infeasible()
        if (lo, hi) == r: return
        s.ubnd[t] = (lo, hi); s.memo = {}
        w = t[1]
        H = 1 << (w - 1)
        rs = s.rng(t)
        if rs[0] > rs[1]: raise Infeasible()
        if t[0] == 'lin' and len(t[3]) == 1:
            x, c = t[3][0]; rx = s.ranges(x)
            if c == 1:
                kk = tos(t[2], w)
                for q in (kk, t[2]):
                    if 0 <= rx[2] + q and rx[3] + q <= 2 * H - 1: s.set_u(x, lo - q, hi - q); break
                else:
                    if hi < H and -H <= rx[0] + kk and rx[1] + kk <= H - 1: s.set_s(x, lo - kk, hi - kk)
            elif c < H and rx[3] * c + t[2] <= 2 * H - 1:
                s.set_u(x, max(0, -((t[2] - lo) // c)), max(0, (hi - t[2]) // c) if hi >= t[2] else -1)
        elif t[0] == 'bits':
            b = t[2]; b0 = b[0]
            if b0 not in (0, 1) and b0[1] == 0 and b0[0][0] not in ('cmp', 'bop') and b0[0][1] < w:
                y = b0[0]; wy = y[1]
                if all(b[i] == (y, i) for i in range(wy)):
                    if all(x == 0 for x in b[wy:]): s.set_u(y, lo, hi)
                    elif all(x == (y, wy - 1) for x in b[wy:]) and hi < H: s.set_s(y, lo, hi)
            elif b0 not in (0, 1) and b0[0][0] not in ('cmp', 'bop') and b0[0][1] == w and b0[1] > 0:
                y, n = b0
                if b == bits_of(lshr(y, n)): s.set_u(y, lo << n, ((hi + 1) << n) - 1)
        if lo == hi:
            s.known_bits(t, lo)
            if s.SETTLE and s.dbm: s.settle(t, 'U', lo)
    def known_bits(s, t, v):
        if t[0] != 'bits': return
        for i, x in enumerate(t[2]):
            if x in (0, 1):
                if x != ((v >> i) & 1): raise Infeasible()
            else: s.set_bit(x, (v >> i) & 1)
    def set_bit(s, b, v):
        if b in (0, 1):
            if b != v: raise Infeasible()
            return
        o = s.bitval(b)
        if o is not None:
            if o != v: raise Infeasible()
            return
        y = b[0]
        if y[0] == 'cmp': s.assume(y, bool(v)); return
        s.bit[b] = v; s.memo = {}
        if y[0] == 'bop':
            o = y[2]
            if o == 'not': s.set_bit(y[3], 1 - v)
            elif o == 'and' and v: s.set_bit(y[3], 1); s.set_bit(y[4], 1)
            elif o == 'or' and not v: s.set_bit(y[3], 0); s.set_bit(y[4], 0)
        elif b[1] == y[1] - 1:
            if v: s.set_s(y, -(1 << (y[1] - 1)), -1)
            else: s.set_s(y, 0, (1 << (y[1] - 1)) - 1)
    def assume(s, t, val=True):
        """restrict the state to t == val; raises Infeasible"""
        tv = s.truth(t)
        if tv is not None:
            if tv != val: raise Infeasible()
            return
        if t[0] == 'bits':
            s.set_bit(t[2][0], int(val)); return
        if t[0] == 's':
            s.set_u(t, int(val), int(val)); return
        if t[0] != 'cmp': return
        if t[2] == 'not': return s.assume(t[3], not val)
        if t[2] not in INV: 
            return
        p = t[2] if val else INV[t[2]]
        a, b = s.simp(t[3]), s.simp(t[4])
        if p in ('ugt', 'uge', 'sgt', 'sge'): p = SWAP[p]; a, b = b, a
        if a[0] == 'ptr' and b[0] == 'ptr' and a[2] == b[2]: a, b = a[3], b[3]
        if p == 'eq': s.assume_eq(a, b)
        elif p == 'ne': s.assume_ne(a, b)
        else:
            if a[0] in ('ptr', 'fn') or b[0] in ('ptr', 'fn'): return
            st = 1 if p[1:] == 'lt' else 0
            if not st and b[0] != 'c' and a[0] != 'c' and (('eq', a, b) in s.ne or ('eq', b, a) in s.ne):
                # at most and different: less
                if s.le(b, a, p[0].upper()): raise Infeasible()
                st = 1
            if p[0] == 's':
                s.set_s(a, -(1 << 127), s.rng(b)[1] - st); s.set_s(b, s.rng(a)[0] + st, 1 << 127); dom = 'S'
            else:
                s.set_u(a, 0, s.urng(b)[1] - st); s.set_u(b, s.urng(a)[0] + st, 1 << 127); dom = 'U'
            s.add_diff(a, b, dom, -st)
            if dom == 'S' and (a[0] == 'lin' and b[0] in ('lin', 's') or b[0] == 'lin' and a[0] == 's'):
                # a sum of three against another: the difference is bounded
                d = sub(b, a)
                if d[0] == 'lin' and len(d[3]) == 3 and s.exact(d): s.set_s(d, st, 1 << 127)
    def add_diff(s, a, b, dom, k):
        """a <= b + k"""
        na, ka = s.dec(a, dom); nb, kb = s.dec(b, dom)
        if na is None or nb is None or na == nb: return
        v = k - ka + kb
        o = s.dbm.get((na, nb))
        if o is None or v < o:
            r = s.dbm.get((nb, na))
            if r is not None and r + v < 0: raise Infeasible()      # a < b and b <= a
            s.dbm[(na, nb)] = v; s.memo = {}
        # sums without wrap that share a part: the rest compares alike
        one = lambda n: n[1][0] == 'lin' and s.exact(n[1])
        has = lambda x, l: any(y == x and c == 1 for y, c in l[1][3])
        if dom == 'S' and na[0] == nb[0] == 'S' and (one(na) and (one(nb) or nb[1][0] == 's' and has(nb[1], na)) or na[1][0] == 's' and one(nb) and has(na[1], nb)):
            d = sub(na[1], nb[1])
            if d[0] == 's': d = ('lin', d[1], 0, ((d, 1),))
            if d[0] == 'lin' and len(d[3]) <= 2 and len(d[3]) < sum(len(n[1][3]) if n[1][0] == 'lin' else 1 for n in (na, nb)):
                w = d[1]; kk = tos(d[2], w); q = [(x, tos(c, w)) for x, c in d[3]]
                pos = [x for x, c in q if c == 1]; neg = [x for x, c in q if c == -1]
                if len(pos) + len(neg) == len(q):
                    if len(pos) == 1 and len(neg) == 1: s.add_diff(pos[0], neg[0], 'S', v - kk)
                    elif pos and not neg and len(pos) == 1: s.set_s(pos[0], -(1 << 127), v - kk)
                    elif neg and not pos and len(neg) == 1: s.set_s(neg[0], kk - v, 1 << 127)
    def exact(s, t):
        """a sum whose signed value is the sum of the signed values of its parts"""
        w = t[1]; H = 1 << (w - 1); lo = hi = tos(t[2], w)
        for x, c in t[3]:
            if x[0] in ('ptr', 'fn'): return False
            c = tos(c, w); r = s.rng(x)
            lo += min(c * r[0], c * r[1]); hi += max(c * r[0], c * r[1])
        return -H <= lo and hi <= H - 1
    def atmost(s, x, y, k):
        """is node x <= node y + k certain"""
        d = s.diffn(x, y)
        if d is not None and d <= k: return True
        if s.nrng(x)[1] - s.nrng(y)[0] <= k: return True
        if x[0] != y[0]: return False
        w = x[1][1]; r = s.nrng(x)
        m, M_ = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if x[0] == 'S' else (0, (1 << w) - 1)
        if not (m <= r[0] - k and r[1] - k <= M_): return False
        return s.le(add(x[1], C(-k, w)), y[1], x[0])
    def assume_eq(s, a, b):
        if a[0] in ('ptr', 'fn') or b[0] in ('ptr', 'fn'):
            if a[0] in ('ptr', 'fn'): a, b = b, a
            if a[0] == 'c': raise Infeasible()
            if a[0] in ('ptr', 'fn'):
                e = s.equal(a, b)
                if e is False: raise Infeasible()
                if a[0] == 'ptr' and b[0] == 'ptr' and a[2] == b[2]: s.assume_eq(a[3], b[3])
                return
            s.eqp[a] = b; s.memo = {}; return
        if b[0] != 'c' and a[0] == 'c': a, b = b, a
        if b[0] == 'c':
            if ('eq', a, b) in s.ne: raise Infeasible()
            v = b[2]; s.set_u(a, v, v); s.set_s(a, sval(b), sval(b))
            s.known_bits(a, v)
            if a[0] == 'lin': s.solve_lin(a, v)
            return
        ra, rb = s.ranges(a), s.ranges(b)
        s.set_s(a, rb[0], rb[1]); s.set_u(a, rb[2], rb[3]); ra = s.ranges(a)
        s.set_s(b, ra[0], ra[1]); s.set_u(b, ra[2], ra[3])
        for dom in 'SU': s.add_diff(a, b, dom, 0); s.add_diff(b, a, dom, 0)
        if a[0] == 's' and a[1] == 64 and a not in s.eqp and a not in syms(b): s.eqp[a] = b
        elif b[0] == 's' and b[1] == 64 and b not in s.eqp and b not in syms(a): s.eqp[b] = a
        s.memo = {}
    def tz(s, t):
        """number of low bits known to be zero"""
        if t[0] == 'c':
            return t[1] if t[2] == 0 else (t[2] & -t[2]).bit_length() - 1
        if t[0] == 'lin':
            return min([s.tz(C(t[2], t[1]))] + [s.tz(x) + (c & -c).bit_length() - 1 for x, c in t[3]])
        if t[0] == 'bits':
            n = 0
            for b in t[2]:
                if b == 0 or b != 1 and s.bit.get(b) == 0: n += 1
                else: break
            return n
        n = 0
        while n < t[1] and s.bit.get((t, n)) == 0: n += 1
        return n
    def solve_lin(s, t, v):
        w = t[1]
        if len(t[3]) == 1:
            x, c = t[3][0]
            if c & 1:
                inv = pow(c, -1, 1 << w); xv = ((v - t[2]) * inv) & M[w]
                s.set_u(x, xv, xv); s.set_s(x, tos(xv, w), tos(xv, w)); s.known_bits(x, xv)
    def assume_ne(s, a, b):
        if a[0] in ('ptr', 'fn') and b[0] in ('ptr', 'fn'):
            if a == b: raise Infeasible()
            if a[0] == 'ptr' and b[0] == 'ptr' and a[2] == b[2]: s.assume_ne(a[3], b[3])
            return
        if a[0] == 'c': a, b = b, a
        s.ne.add(('eq', a, b)); s.memo = {}
        if s.dbm and b[0] != 'c' and a[0] not in ('ptr', 'fn') and b[0] not in ('ptr', 'fn'):
            for dom in 'SU':
                if s.le(a, b, dom): s.add_diff(a, b, dom, -1)
                elif s.le(b, a, dom): s.add_diff(b, a, dom, -1)
        if b[0] == 'c':
            v, sv = b[2], sval(b); r = s.ranges(a)
            z = 1
            if s.bit and v == 0 or a[0] == 'lin' or s.bit and a[0] == 's':
                z = 1 << min(s.tz(a), 16)
                if v % z: return
            if r[2] == v: s.set_u(a, v + z, r[3])
            elif r[3] == v: s.set_u(a, r[2], v - z)
            r = s.ranges(a)
            if r[0] == sv: s.set_s(a, sv + z, r[1])
            elif r[1] == sv: s.set_s(a, r[0], sv - z)
            if a[0] == 'bits':
                unk = [(i, x) for i, x in enumerate(a[2]) if x not in (0, 1) and s.bitval(x) is None]
                kn = all(((v >> i) & 1) == (s.bitval(x)) for i, x in enumerate(a[2]) if (i, x) not in unk)
                if kn and len(unk) == 1: s.set_bit(unk[0][1], 1 - ((v >> unk[0][0]) & 1))
                if kn and not unk: raise Infeasible()
            # a = x + k != c
            if a[0] == 'lin' and a[2]:
                s.assume_ne(a[3][0][0] if len(a[3]) == 1 and a[3][0][1] == 1 else ('lin', a[1], 0, a[3]), C(v - a[2], a[1]))
            if a[0] == 'bits':
                b0 = a[2][0]
                if b0 not in (0, 1) and b0[1] == 0 and b0[0][0] not in ('cmp', 'bop') and b0[0][1] < a[1]:
                    y = b0[0]
                    if a == ext(y, a[1], False) and v <= M[y[1]] or a == ext(y, a[1], True): s.assume_ne(y, C(v, y[1]))

SYMR = {}       # symbol -> default signed interval
FRESHPTR = set()

class Snap:
    """contents of a region at an earlier time"""
    __slots__ = ('type', 'dflt')
    def __init__(s, type, dflt): s.type, s.dflt = type, dflt

class Hooks:
    """rules override what they need; every method may raise findings"""
    def access(self, I, st, rid, off, size, write, ins): pass
    def store(self, I, st, rid, off, size, val, old, ins): pass
    def div(self, I, st, ins, a, b): pass
    def shift(self, I, st, ins, a, b): pass
    def trunc(self, I, st, ins, a, res): pass
    def call(self, I, st, name, args, ins): return None
    def callret(self, I, st, name, args, ret, ins): pass
    def icall(self, I, st, target, args, ins): return None
    def ext(self, I, st, name, args, ins): return None
    def free(self, I, st, ptr, ins): pass
    def badderef(self, I, st, ptr, ins): pass
    def symrange(self, I, rid, ti, path, w): return None
    def branch(self, I, st, ins, cond): pass
    def index(self, I, st, off, ins): pass

def allbits(t):
    """minus a single bit: that bit everywhere"""
    if t[0] == 'lin' and not t[2] and len(t[3]) == 1 and tos(t[3][0][1], t[1]) == -1:
        x = t[3][0][0]
        if x[0] == 'bits' and x[2][0] not in (0, 1) and all(b == 0 for b in x[2][1:]): return mkbits(t[1], (x[2][0],) * t[1])
    return t
_hop = {}
def hasop(t):
    if t[0] == 'op': return True
    if t[0] != 'bits': return False
    r = _hop.get(t)
    if r is None: r = _hop[t] = any(b not in (0, 1) and b[0][0] == 'op' for b in dict.fromkeys(t[2]))
    return r

class Interp:
    UNROLL = 40
    FORCED = False      # unroll loops although their exit depends on the input
    MAXSTATES = 300
    KEEP = ()    # (region, offset): states in which these cells hold different constants or blocks are not joined
    AFFINE = False
    KEEPV = ()   # the same for cells which hold any different values
    FACTS = 0    # up to so many states which differ only in what is known of the same values stay apart
    MAXBACK = 48
    def __init__(s, prog, hooks=None, fail_alloc=True, io_fail=True):
        s.p = prog; s.h = hooks or Hooks()
        s.fail_alloc, s.io_fail = fail_alloc, io_fail
        s.fresh = 0; s.stack = []; s.ptrtype = {}; s.fnptr = set()
        s.depth = 0; s.steps = 0; s.maxsteps = 4000000
        s.symorigin = {}
        s.covered = set(); s.visited_fn = set()
        s.symexit = set()
        s.mixes = {}; s.names = {}
        s.summaries = {}     # name -> python model (I, st, args, ins) -> [(st, ret)]
        s.cur_ins = None
        s.widened = set()
    def sym(s, name, w, lo=None, hi=None):
        s.fresh += 1
        t = ('s', w, '%s#%d' % (name, s.fresh))
        if lo is not None: SYMR[t] = (lo, hi)
        return t
    def nsym(s, name, w, lo=None, hi=None):
        t = ('s', w, name)
        if lo is not None: SYMR[t] = (lo, hi)
        return t
    def loc(s, ins=None):
        ins = ins or s.cur_ins
        if not s.stack: return '?'
        f = s.stack[-1][0]
        return '%s:%s %s' % ((ins or {}).get('file', f.file), (ins or {}).get('line', f.line), f.name)
    def backtrace(s):
        out = []
        for f, ins in reversed(s.stack):
            out.append('%s:%s %s' % (f.file, f.line, f.name))
        return out
    # ------------- regions
    def region(s, st, rid, type=None, kind='param', size=None, dflt=('sym', ''), name=None):
        if size is None: size = C(s.p.sizeof(type), 64) if type is not None and s.p.sizeof(type) else None
        elif isinstance(size, int): size = C(size, 64)
        o = Obj(size, type, kind, dflt, name or rid); o.owner = st.tok
        st.mem[rid] = o
        return ('ptr', 64, rid, ZERO64)
    def setf(s, st, rid, path, val, w=None):
        o = st.w(rid)
        off = s.p.offset(o.type, path); lp = s.p.leaf(o.type, off)
        sz = s.p.types[lp[1]]['size'] if lp[1] is not None else 8
        if isinstance(val, int): val = C(val, 8 * sz)
        o.cells[off] = (sz, val); st.memo = {}
    def getf(s, st, rid, path):
        o = st.mem[rid]
        off = s.p.offset(o.type, path); lp = s.p.leaf(o.type, off)
        sz = s.p.types[lp[1]]['size'] if lp[1] is not None else 8
        return st.simp(s.rd(st, rid, C(off, 64), sz))
    def glob(s, st, name):
        rid = '@' + name
        if rid in st.mem: return rid
        g = s.p.globals[name]
        cache = s.p.__dict__.setdefault('_gobj', {})
        if name not in cache:
            ti = g.get('di')
            o = Obj(C(g['size'], 64), ti, 'global', ('undef',), rid)
            if g.get('decl'): o.dflt = [(0, 1 << 62, ('sym', ''))]
            for off, sz, op in g.get('init', []):
                if 'zero' in op: o.dflt.append((off, off + sz, ('zero',)))
                else: o.cells[off] = (sz, s.cop(op, sz * 8))
            cache[name] = o
        st.mem[rid] = cache[name]
        return rid
    def cop(s, o, w=None):
        if 'c' in o:
            return C(int(o['c']), o['w'])
        if 'g' in o:
            if o.get('fn'): return ('fn', 64, o['g'])
            return ('ptr', 64, '@' + o['g'], ZERO64)
        if 'base' in o:
            b = s.cop(o['base'])
            if b[0] == 'ptr': return ('ptr', 64, b[2], add(b[3], C(o['off'], 64)))
            return add(b, C(o['off'], 64))
        if 'fp' in o: return ('op', o['w'], 'fp', o['fp'])
        if 'undef' in o: return s.nsym('undef', o['w'] or 64)
        return s.sym('unk', o.get('w') or 64)
    def val(s, o, env):
        if 'v' in o: return env[o['v']]
        return s.cop(o)
    # ------------- memory
    def resolve(s, st, p, ins=None):
        """pointer value -> (rid, off) creating lazily summarised regions; None for null/unknown"""
        p = st.simp(p)
        if p[0] == 'ptr':
            rid = p[2]
            if rid not in st.mem:
                if rid.startswith('@'): s.glob(st, rid[1:])
                else: raise AnalysisBroken('region %s lost' % rid)
            return rid, p[3]
        if p[0] == 's':
            if st.const(p) == 0: return None
            rid = '*' + p[2]
            if rid not in st.mem:
                ti = s.ptrtype.get(p)
                s.region(st, rid, ti, 'lazy', None)
            try: st.assume_ne(p, NULL)
            except Infeasible: return None
            return rid, ZERO64
        if p[0] == 'lin':
            # pointer symbol + offset
            k, d = p[2], dict(p[3])
            cand = [t for t, c in d.items() if c == 1 and t in s.ptrtype]
            if len(cand) == 1:
                t = cand[0]; del d[t]
                base = s.resolve(st, t, ins)
                if base: return base[0], add(base[1], mklin(64, k, d))
            cand = [t for t, c in d.items() if c == 1 and t[0] == 'ptr']
            if len(cand) == 1:
                t = cand[0]; del d[t]
                return t[2], add(t[3], mklin(64, k, d))
        if p[0] == 'c': return None
        rid = '?' + key(p)[:60]
        if rid not in st.mem: s.region(st, rid, None, 'unknown', None)
        return rid, ZERO64
    def path(s, st, rid, off):
        """readable field path"""
        o = st.mem.get(rid)
        c = st.const(off) if not isinstance(off, int) else off
        if o is None: return '?'
        if o.type is None: return '+%s' % (c if c is not None else show(off))
        if c is None:
            lo = st.urng(off)[0] if not isinstance(off, int) else 0
            base = tos(off[2], 64) if off[0] == 'lin' else lo
            p = s.p.leaf(o.type, base if base >= 0 else lo)[0]
            import re
            return re.sub(r'\[\d+\](?!.*\[)', '[*]', p)
        return s.p.leaf(o.type, tos(c, 64))[0]
    def dfl(s, st, rid, o, off, sz):
        kind = None
        for lo, hi, k in reversed(o.dflt):
            if lo <= off and off + sz <= hi: kind = k; break
            if lo < off + sz and off < hi: kind = ('mixed',); break
        w = sz * 8
        if kind is None: kind = ('undef',)
        if kind[0] == 'zero': return C(0, w)
        if kind[0] == 'undef': return ('s', w, 'undef:%s+%d' % (rid, off))
        if kind[0] == 'mixed':
            # partly overwritten: an unknown that stands for this combination of contents
            k = (rid, off, sz) + tuple(d for d in o.dflt if d[0] < off + sz and off < d[1])
            if k not in s.mixes: s.mixes[k] = s.sym('mixed:%s+%d' % (rid, off), w)
            return s.mixes[k]
        if kind[0] == 'copy':     # contents of another region at a fixed time
            return s.dfl(st, kind[1], Snap(kind[2], kind[4]), off - kind[3], sz)
        lp = s.p.leaf(o.type, off) if o.type is not None else ('+%d' % off, None, off, [])
        exact = o.type is None or (lp[2] == off and (lp[1] is None or s.p.types[lp[1]]['size'] == sz))
        nm = '%s.%s%s%s' % (rid, lp[0], '' if exact else '+%d:%d' % (off - lp[2], sz), kind[1])
        t = ('s', w, nm)
        if w == 64 and lp[1] is not None and s.p.is_ptr(lp[1]):
            if t not in s.ptrtype: s.ptrtype[t] = s.p.pointee(lp[1])
            if s.p.is_fnptr(lp[1]): s.fnptr.add(t)
        if t not in s.symorigin:
            s.symorigin[t] = (rid, off, lp[0])
            r = s.h.symrange(s, rid, o.type, lp[0], w)
            if r is not None: SYMR[t] = r
        return t
    def rd(s, st, rid, off, sz):
        o = st.mem[rid]; w = sz * 8
        c = st.const(off)
        if c is not None:
            c = tos(c, 64)
            e = o.cells.get(c)
            if e and e[0] == sz: return e[1]
            # overlapping cells?
            ov = [(a, e) for a, e in o.cells.items() if a < c + sz and c < a + e[0]] if len(o.cells) < 40 else [(a, o.cells[a]) for a in range(c - 15, c + sz) if a in o.cells and c < a + o.cells[a][0]]
            if not ov and o.sc:
                v = s.rd_sc(st, o, off, sz)
                if v is not None: return v
            if not ov: return s.dfl(st, rid, o, c, sz)
            if len(ov) == 1:
                a, (asz, v) = ov[0]
                if a <= c and c + sz <= a + asz and v[0] not in ('ptr', 'fn'):
                    return mkbits(w, bits_of(v)[(c - a) * 8:(c - a + sz) * 8])
            # assemble bytes
            bits = []
            for q in range(c, c + sz):
                hit = [(a, e) for a, e in ov if a <= q < a + e[0]]
                if hit:
                    a, (asz, v) = hit[0]
                    if v[0] in ('ptr', 'fn'): return s.sym('mix', w)
                    bits.extend(bits_of(v)[(q - a) * 8:(q - a) * 8 + 8])
                else: bits.extend(bits_of(s.dfl(st, rid, o, q, 1)))
            return mkbits(w, bits)
        e = o.sc.get(off)
        if e and e[0] == sz: return e[1]
        # unknown index
        lo, hi = st.rng(off)
        if o.kind == 'global' or all(k[2][0] in ('zero',) for k in o.dflt[-1:]):
            vals = [e[1] for a, e in o.cells.items() if lo <= a <= hi and e[0] == sz]
            n = len(vals)
            if (o.kind == 'global' or vals) and all(v[0] == 'c' for v in vals) and n:
                svs = [sval(v) for v in vals]
                zero = any(d[2][0] == 'zero' and d[0] <= hi and lo < d[1] for d in o.dflt)
                if zero: svs.append(0)
                t = ('op', w, 'tab', rid, off)
                SYMT[t] = (min(svs), max(svs))
                st.bnd[t] = (min(svs), max(svs)); st.memo = {}
                return t
        lp = s.p.leaf(o.type, max(lo, 0) if off[0] != 'lin' else max(tos(off[2], 64), 0)) if o.type is not None else ('+', None, 0, [])
        ver = len(o.dflt) and o.dflt[-1][2][1] if o.dflt[-1][2][0] == 'sym' else ''
        nm = ('s', w, '%s.%s[%s]%s' % (rid, lp[0], show(off), ver))
        ov = any(a <= hi + sz and lo < a + e[0] for a, e in o.cells.items()) or any(True for k in o.sc if k != off)
        if ov:
            nm = s.sym('%s.%s[*]' % (rid, lp[0]), w)
            vs = [e[1] for a, e in o.cells.items() if a <= hi and lo < a + e[0]] + [e[1] for e in o.sc.values()]
            if all(v[0] not in ('ptr', 'fn') and v[1] == w for v in vs):
                rs = [st.rng(v) for v in vs]
                if o.dflt[-1][2][0] == 'sym':
                    b = s.h.symrange(s, rid, o.type, lp[0], w)
                    rs.append(b if b is not None else (-(1 << (w - 1)), (1 << (w - 1)) - 1))
                elif o.dflt[-1][2][0] == 'zero': rs.append((0, 0))
                else: rs.append((-(1 << (w - 1)), (1 << (w - 1)) - 1))
                SYMR[nm] = (min(r[0] for r in rs), max(r[1] for r in rs))
            return nm
        if w == 64 and lp[1] is not None and s.p.is_ptr(lp[1]) and nm not in s.ptrtype: s.ptrtype[nm] = s.p.pointee(lp[1])
        if nm not in s.symorigin:
            s.symorigin[nm] = (rid, off, lp[0])
            b = s.h.symrange(s, rid, o.type, lp[0], w)
            if b is not None: SYMR[nm] = b
        return nm
    def rd_sc(s, st, o, off, sz):
        for k, e in o.sc.items():
            lo, hi = st.rng(k); c = st.rng(off)
            if lo < c[1] + sz and c[0] < hi + e[0]: return s.sym('weak', sz * 8)
        return None
    def wr(s, st, rid, off, sz, v):
        c = st.const(off)
        o = st.w(rid)
        if c is not None:
            c = tos(c, 64)
            dead = [] if c in o.cells and o.cells[c][0] == sz else [a for a, e in o.cells.items() if a < c + sz and c < a + e[0]] if len(o.cells) < 40 else [a for a in range(c - 15, c + sz) if a in o.cells and c < a + o.cells[a][0]]
            for a in dead:
                asz, av = o.cells.pop(a)
                # keep the untouched bytes of a partly overwritten cell
                if av[0] in ('ptr', 'fn'): continue
                b = bits_of(av)
                if a < c: o.cells[a] = (c - a, mkbits((c - a) * 8, b[:(c - a) * 8]))
                if c + sz < a + asz: o.cells[c + sz] = (a + asz - c - sz, mkbits((a + asz - c - sz) * 8, b[(c + sz - a) * 8:]))
            o.cells[c] = (sz, v)
            if o.sc:
                for k in list(o.sc):
                    lo, hi = st.rng(k)
                    if lo < c + sz and c < hi + o.sc[k][0]: del o.sc[k]
        else:
            lo, hi = st.rng(off)
            for a in [a for a, e in o.cells.items() if lo < a + e[0] and a < hi + sz]:
                asz, av = o.cells.pop(a)
                if av[0] in ('ptr', 'fn') or v[0] in ('ptr', 'fn') or asz != sz:
                    o.cells[a] = (asz, s.sym('weak:%s+%d' % (rid, a), asz * 8))
                else:
                    r1, r2 = st.rng(av), st.rng(v)
                    n = s.sym('weak:%s+%d' % (rid, a), asz * 8, min(r1[0], r2[0]), max(r1[1], r2[1]))
                    o.cells[a] = (asz, n)
            for k in list(o.sc):
                if k != off:
                    d = st.rng(sub(k, off))
                    if not (d[0] >= sz or d[1] <= -o.sc[k][0]): del o.sc[k]
            s.fresh += 1
            d = o.dflt[-1][2]
            rr = st.rng(v) if v[0] not in ('ptr', 'fn') else None
            if d[0] == 'zero' and rr == (0, 0): pass
            else:
                nl, nh = max(lo, 0), min(hi + sz, 1 << 62)
                if nl < nh: o.dflt.append((nl, nh, ('sym', "'%d" % s.fresh)))
                if len(o.dflt) > 12: o.dflt = o.dflt[-12:]; 
            o.sc[off] = (sz, v)
        st.memo = {}
    def load(s, st, p, sz, ins):
        r = s.resolve(st, p, ins)
        if r is None:
            s.h.badderef(s, st, p, ins)
            return None
        rid, off = r
        s.h.access(s, st, rid, off, C(sz, 64), False, ins)
        return st.simp(s.rd(st, rid, off, sz))
    def storev(s, st, p, sz, v, ins):
        if s.NAMEOPS: v = s.named(st, v)
        r = s.resolve(st, p, ins)
        if r is None:
            s.h.badderef(s, st, p, ins)
            return False
        rid, off = r
        s.h.access(s, st, rid, off, C(sz, 64), True, ins)
        s.h.store(s, st, rid, off, sz, v, None, ins)
        s.wr(st, rid, off, sz, v)
        return True
    def havoc(s, st, rid, lo=None, hi=None):
        o = st.w(rid); s.fresh += 1
        if lo is None: lo, hi = 0, 1 << 62
        for a in [a for a, e in o.cells.items() if a < hi and lo < a + e[0]]: del o.cells[a]
        o.sc.clear()
        o.dflt.append((lo, hi, ('sym', "'%d" % s.fresh)))
        st.memo = {}
    def memset(s, st, p, v, n, ins):
        r = s.resolve(st, p, ins)
        nc = st.const(n)
        if nc == 0: return
        if r is None: 
            s.h.badderef(s, st, p, ins); return
        rid, off = r
        s.h.access(s, st, rid, off, n, True, ins)
        s.h.store(s, st, rid, off, n, v, 'memset', ins)
        oc = st.const(off); vc = st.const(v)
        if oc is not None and nc is not None:
            oc = tos(oc, 64)
            o = st.w(rid)
            for a in [a for a, e in o.cells.items() if a < oc + nc and oc < a + e[0]]:
                asz, av = o.cells.pop(a)
                if av[0] in ('ptr', 'fn'): continue
                b = bits_of(av)
                if a < oc: o.cells[a] = (oc - a, mkbits((oc - a) * 8, b[:(oc - a) * 8]))
                if oc + nc < a + asz: o.cells[oc + nc] = (a + asz - oc - nc, mkbits((a + asz - oc - nc) * 8, b[(oc + nc - a) * 8:]))
            for k in list(o.sc):
                lo, hi = st.rng(k)
                if lo < oc + nc and oc < hi + o.sc[k][0]: del o.sc[k]
            if oc <= 0 and (o.size is not None and st.const(o.size) is not None and oc + nc >= st.const(o.size)): o.dflt = []
            s.fresh += 1
            o.dflt.append((oc, oc + nc, ('zero',) if vc == 0 else ('sym', "'m%d" % s.fresh)))
            st.memo = {}
        else:
            lo, _ = st.rng(off); hi = st.rng(off)[1] + st.urng(n)[1]
            o = st.mem[rid]
            if vc == 0:
                # zero or unchanged: weak update
                s.havoc(st, rid, max(lo, 0), min(max(hi, 1), 1 << 62))
            else: s.havoc(st, rid, max(lo, 0), min(max(hi, 1), 1 << 62))
    def memcpy(s, st, d, src, n, ins):
        nc = st.const(n)
        if nc == 0: return
        rs = s.resolve(st, src, ins); rdst = s.resolve(st, d, ins)
        if rs is None or rdst is None:
            s.h.badderef(s, st, src if rs is None else d, ins); return
        s.h.access(s, st, rs[0], rs[1], n, False, ins)
        s.h.access(s, st, rdst[0], rdst[1], n, True, ins)
        s.h.store(s, st, rdst[0], rdst[1], n, ('ptr', 64, rs[0], rs[1]), 'memcpy', ins)
        so, do = st.const(rs[1]), st.const(rdst[1])
        if nc is not None and so is not None and do is not None and nc <= 4096:
            so, do = tos(so, 64), tos(do, 64)
            O = st.mem[rs[0]]
            todo = []
            t = O.type if O.type is not None else st.mem[rdst[0]].type
            base = so if O.type is not None else do
            lv = []
            if t is not None:
                lv = [(o_ - base + so, sz) for (_, o_, sz, _) in s.p.leaves(t) if base <= o_ and o_ + sz <= base + nc]
            seen = set()
            for a, e in O.cells.items():
                if so <= a and a + e[0] <= so + nc: todo.append((a, e[0])); seen.update(range(a, a + e[0]))
            for a, sz in lv:
                if not any(q in seen for q in range(a, a + sz)): todo.append((a, sz)); seen.update(range(a, a + sz))
            rest = [q for q in range(so, so + nc) if q not in seen]
            i = 0
            while i < len(rest):
                j = i
                while j + 1 < len(rest) and rest[j + 1] == rest[j] + 1: j += 1
                a, n_ = rest[i], j - i + 1
                while n_ > 0:
                    q = 8 if n_ >= 8 and a % 8 == 0 else 4 if n_ >= 4 and a % 4 == 0 else 1
                    todo.append((a, q)); a += q; n_ -= q
                i = j + 1
            vals = [(a - so + do, sz, s.rd(st, rs[0], C(a, 64), sz)) for a, sz in todo]
            for a, sz, v in vals: s.wr(st, rdst[0], C(a, 64), sz, v)
        elif nc is not None and so is not None and do is not None and not st.mem[rs[0]].sc and nc < 1 << 40:
            # a long block: known cells move, the rest stands for the source as it is now
            so, do = tos(so, 64), tos(do, 64); O = st.mem[rs[0]]
            snap = ('copy', rs[0], O.type, do - so, tuple(O.dflt))
            mv = [(a - so + do, e) for a, e in O.cells.items() if so <= a and a + e[0] <= so + nc]
            cut = [(a, e[0]) for a, e in O.cells.items() if a < so + nc and so < a + e[0] and not (so <= a and a + e[0] <= so + nc)]
            if cut: s.havoc(st, rdst[0], do, do + nc)
            else:
                o = st.w(rdst[0])
                for a in [a for a, e in o.cells.items() if a < do + nc and do < a + e[0]]: del o.cells[a]
                for k in list(o.sc):
                    lo, hi = st.rng(k)
                    if lo < do + nc and do < hi + o.sc[k][0]: del o.sc[k]
                o.dflt.append((do, do + nc, snap))
                for a, e in mv: o.cells[a] = e
                st.memo = {}
        else:
            lo = st.rng(rdst[1])[0]; hi = st.rng(rdst[1])[1] + st.urng(n)[1]
            s.havoc(st, rdst[0], max(lo, 0), min(max(hi, 1), 1 << 62))
            if st.const(rdst[1]) == 0 and st.const(rs[1]) == 0:
                st.w(rdst[0]).cells.clear()
                st.w(rdst[0]).sc[('copyof', 64, rs[0])] = (0, n) if False else (0, C(0, 8))
                st.w(rdst[0]).sc.pop(('copyof', 64, rs[0]))
                st.ev(('copied', rdst[0], rs[0], n, s.loc(ins)))
    # ------------- calls
    def run(s, fname, args, st):
        """analyse function on abstract arguments; list of (state, return term)"""
        f = s.p.fn(fname)
        return s.exec_fn(f, args, st, None)
    NAMEOPS = False    # products and quotients passed on or stored are abbreviated by a symbol of the same range
    def named(s, st, v):
        if v[0] not in ('bits', 'op') or v[1] not in (32, 64) or not hasop(v): return v
        if v[0] == 'bits' and sum(1 for b in v[2] if b not in (0, 1)) < 16: return v
        y = s.names.get(v)
        if y is None: y = s.names[v] = ('s', v[1], 'term%d' % len(s.names))
        lo, hi, ul, uh = st.ranges(v)
        st.set_s(y, lo, hi); st.set_u(y, ul, uh)
        return y
    def exec_fn(s, f, args, st, ins):
        s.p.prep(f)
        if len(s.stack) > 60: raise AnalysisBroken('call depth exceeded at %s' % f.name)
        if sum(1 for g, _ in s.stack if g is f) > 3:
            st.ev(('recursion', f.name))
            return [(st, s.sym('rec:' + f.name, f.rw or 64))]
        s.visited_fn.add(f.name)
        s.stack.append((f, ins))
        try:
            env = {}
            for a, v in zip(f.args, args): env[a['id']] = s.named(st, v) if s.NAMEOPS else v
            entry = f.rpo[0]
            top = [l for l in f.loops if l.parent is None]
            rets = []
            exits = s.scope(f, None, set(f.rpo), entry, top, [(st, env)], rets)
        finally:
            s.stack.pop()
        out = []
        for st2, v in rets:
            dead = [r for r in st2.mem if r.startswith('&%d:' % len(s.stack))]
            out.append((st2, v))
        return s.merge_rets(out, f)
    def merge_rets(s, outs, f):
        if len(outs) < 2: return outs
        groups = {}
        for st, v in outs:
            k = (v, st.trace, s.memkey(st))
            groups.setdefault(k, []).append(st)
        res = []
        for (v, tr, mk), sts in groups.items():
            if len(sts) > 1 and len(outs) <= s.FACTS: res.extend((q, v) for q in sts); continue
            res.append((sts[0] if len(sts) == 1 else s.join_facts(sts), v))
        if s.MAXRET and len(res) > s.MAXRET: res = s.squeeze(f, res)
        return res
    MAXRET = None
    envs = []
    def squeeze(s, f, res):
        """join the exit states of a call with the same constant result"""
        groups = {}
        for st, v in res: groups.setdefault((s.heapkey(st), v if v is None or v[0] in ('c', 'ptr', 'fn') else 'sym'), []).append((st, {0: v} if v is not None else {}))
        out = []
        for g in groups.values():
            if len(g) > 1:
                s.widened.add('%s: %d exit states joined' % (f.name, len(g)))
                g = [s.join(f, None, g, 'R%s.%d' % (f.name, s.nextid()))]
            out.append((g[0][0], g[0][1].get(0)))
        return out
    def heapkey(s, st):
        """blocks in use and ghost facts; states that differ in them are never joined by MAXRET/MAXSTATES"""
        g = st.mem.get('&ghost')
        k = (frozenset((r, o.freed) for r, o in st.mem.items() if r.startswith('heap')), frozenset(g.cells.items()) if g is not None else None)
        if s.KEEP:
            k += (tuple((v[2] if v[0] in ('c', 'ptr') else '?') if v is not None else None for v in ((st.mem[r].cells.get(o) or (0, None))[1] if r in st.mem else None for r, o in s.KEEP)),)
        if s.KEEPV: k += (tuple(st.mem[r].cells.get(o) if r in st.mem else None for r, o in s.KEEPV),)
        return k
    def memkey(s, st):
        return frozenset((r, o.k() if o.owner == st.tok or True else id(o)) for r, o in st.mem.items() if not r.startswith('@'))
    def join_facts(s, sts):
        """same memory, different facts -> keep what all agree on"""
        a = sts[0].fork()
        for t in dict.fromkeys([t for x in sts for t in x.bnd]):
            r = [x.rng(t) for x in sts]; a.bnd[t] = (min(x[0] for x in r), max(x[1] for x in r))
        nu = {}
        for t in dict.fromkeys([t for x in sts for t in x.ubnd]):
            r = [x.urng(t) for x in sts]; nu[t] = (min(x[0] for x in r), max(x[1] for x in r))
        a.ubnd = nu
        for t in list(a.bit):
            if any(x.bitval(t) != a.bit[t] for x in sts[1:]): del a.bit[t]
        for q in list(a.ne):
            if any(x.equal(q[1], q[2]) is not False for x in sts[1:]): a.ne.discard(q)
        nd = {}
        pairs = dict.fromkeys(q for x in sts for q in x.dbm)
        for (x, y) in pairs:
            ds = []
            for o in sts:
                d = o.dbm.get((x, y)) if len(pairs) > 600 else o.diffn(x, y)
                rx, ry = o.nrng(x), o.nrng(y); r = rx[1] - ry[0]
                ds.append(r if d is None or r < d else d)
            m, k = max(ds), min(ds)
            if k < m and k < (1 << 40) and all(d == k or o.atmost(x, y, k) for o, d in zip(sts, ds)): m = k
            if m <= (1 << 40) and m < a.nrng(x)[1] - a.nrng(y)[0]: nd[(x, y)] = m
        a.dbm = nd
        for t in list(a.eqp):
            if any(x.eqp.get(t) != a.eqp[t] for x in sts[1:]): del a.eqp[t]
        a.memo = {}
        return a
    # ------------- scopes and loops
    def scope(s, f, loop, body, entry, subloops, inc, rets):
        """run the blocks of `body` (one pass, inner loops solved); returns
        (back edges to entry, exits) as lists of (succ, pred-applied state, env)"""
        pend = {entry: list(inc)}
        backs, exits = [], []
        inner = {}
        for l in subloops:
            for b in l.body: inner[b] = l
        done = set()
        for b in f.rpo:
            if b not in body: continue
            l = inner.get(b)
            if l is not None:
                if b != l.header or l.header in done: continue
                done.add(l.header)
                ins_ = pend.pop(b, [])
                if not ins_: continue
                outs = s.run_loop(f, l, ins_, rets)
            else:
                ins_ = pend.pop(b, [])
                if not ins_: continue
                ins_ = s.reduce(f, b, ins_)
                outs = []
                for st, env in ins_: outs.extend(s.block(f, loop, body, b, st, env, rets))
            for succ, st, env in outs:
                if succ not in body: exits.append((succ, st, env))
                elif succ == entry and (loop is not None): backs.append((st, env))
                else: pend.setdefault(succ, []).append((st, env))
        return backs, exits
    def reduce(s, f, b, sts):
        if len(sts) < 2: return sts
        live = f.livein[b]
        groups = {}
        for st, env in sts:
            k = (st.trace, frozenset((i, env[i]) for i in live if i in env), s.memkey(st))
            groups.setdefault(k, []).append((st, env))
        out = []
        for k, g in groups.items():
            if len(g) > 1 and len(sts) <= s.FACTS: out.extend(g)
            else: out.append(g[0] if len(g) == 1 else (s.join_facts([x[0] for x in g]), g[0][1]))
        if len(out) > s.MAXSTATES:
            s.widened.add('%s block %s: %d states joined' % (f.name, b, len(out)))
            # a status already decided (a constant) keeps states apart
            con = sorted({i for st, env in out for i in live if i in env and env[i][0] == 'c' and env[i][1] == 32 and env[i][2] >> 31})
            groups, hgroups = {}, {}
            for st, env in out:
                h = s.heapkey(st)
                groups.setdefault((h, tuple(env.get(i) if env.get(i, (0,))[0] == 'c' else None for i in con)), []).append((st, env))
                hgroups.setdefault(h, []).append((st, env))
            if len(groups) > max(16, s.MAXSTATES): groups = hgroups
            out = [g[0] if len(g) == 1 else s.join(f, b, g, 'J%s.%d' % (f.name, s.nextid())) for g in groups.values()]
        return out
    def nextid(s):
        s.fresh += 1; return s.fresh
    def run_loop(s, f, l, inc, rets):
        inc = s.reduce(f, l.header, inc)
        if len(inc) > 60:
            s.widened.add('%s: %d loop entry states joined' % (l.id, len(inc)))
            inc = [s.join(f, l.header, inc, 'L%s.%d' % (l.id, s.nextid()))]
        outs = []
        for st, env in inc:
            outs.extend(s.loop1(f, l, st, env, rets))
        return outs
    def loop1(s, f, l, st0, env0, rets):
        # phase A: unroll while the loop's exit test is decided by the state
        save = st0.fork()
        cur, outs, r0 = [(st0, env0)], [], len(rets)
        ok = False
        tmp_r = []
        for it in range(s.UNROLL):
            nxt = []
            undecided = False
            for st, env in cur:
                mark = (l.id, len(s.stack)); s.symexit.discard(mark)
                b, e = s.scope(f, l, l.body, l.header, l.children, [(st, env)], tmp_r)
                if mark in s.symexit: undecided = True
                nxt += b; outs += e
            if undecided and not s.FORCED: break
            nxt = s.reduce(f, l.header, nxt) if nxt else nxt
            if not nxt: ok = True; break
            if len(nxt) > s.MAXBACK: break
            cur = nxt
        if ok:
            rets.extend(tmp_r)
            return outs
        # phase B: widening fixpoint from the entry state
        s.widened.add(l.id)
        tag = 'L%s.%d' % (l.id, s.nextid())
        entry = (save, env0); first = []
        if s.sets_flag(f, l):
            # a variable which the loop sets to a constant tells whether it ran: the first round apart
            tmp_r = []; b, first = s.scope(f, l, l.body, l.header, l.children, [(save.fork(), dict(env0))], tmp_r)
            rets.extend(tmp_r); b = s.reduce(f, l.header, b) if b else b
            if not b: return first
            entry = b[0] if len(b) == 1 else s.join(f, l.header, b, tag + 'p')
        H = entry; prev = None
        hist = {}
        for it in range(60):
            tmp_r = []
            hs, he = H
            b, e = s.scope(f, l, l.body, l.header, l.children, [(hs.fork(), dict(he))], tmp_r)
            if not b:
                rets.extend(tmp_r); return first + e
            N = s.join(f, l.header, [entry] + b, tag, widen=(hist, it))
            sig = s.hsig(N, tag)
            if sig == prev:
                # one narrowing pass on the exits is implied: N is stable
                rets.extend(tmp_r); return first + e
            prev = sig; H = N
        raise AnalysisBroken('no fixpoint at %s' % l.id)
    def sets_flag(s, f, l):
        for i in f.blocks[l.header]['ins']:
            if i['op'] != 'phi': break
            c = {str(v.get('c')) for v, p in i['inc'] if p in l.body and 'c' in v}
            if c and any(p not in l.body and str(v.get('c')) not in c for v, p in i['inc']): return True
        return False
    def hsig(s, N, tag):
        st, env = N
        mine = lambda t: t[2].startswith(tag + ':')
        sy = set()
        for o in st.mem.values():
            for e in o.cells.values():
                if e[1][0] == 's' and e[1][2].startswith(tag + ':'): sy.add(e[1])
        for v in env.values():
            if v[0] == 's' and v[2].startswith(tag + ':'): sy.add(v)
        if s.AFFINE:
            for v in list(env.values()) + [e[1] for o in st.mem.values() if o.owner is st.tok for e in o.cells.values()]:
                if v[0] == 'ptr': v = v[3]
                if v[0] in ('lin', 's') and any(mine(x) for x in syms(v)): sy.add(v)
        rs = frozenset((t, st.ranges(t)) for t in sy)
        d = frozenset((x, y, k) for (x, y), k in st.dbm.items() if x[1] in sy or y[1] in sy or s.AFFINE and (any(mine(q) for q in syms(x[1])) or any(mine(q) for q in syms(y[1]))))
        mk = frozenset((r, frozenset(o.cells.items()), frozenset(o.sc.items()), len(o.dflt), o.freed) for r, o in st.mem.items() if not r.startswith('@'))
        bt = frozenset((k, v) for k, v in st.bit.items())
        return (rs, d, mk, frozenset(env.items()), bt)
    THR = sorted(set([0, 1, -1, 2, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 4095, 4096, 32767, 32768, -32768, 65535, -32767] + [1 << k for k in (20, 24, 28, 31, 32, 47, 62)] + [(1 << k) - 1 for k in (20, 24, 28, 31, 32, 63)] + [-(1 << k) for k in (20, 31, 63)]))
    def join(s, f, b, sts, tag, widen=None):
        """general join of (state, env) pairs; differing slots become symbols of `tag`"""
        base, benv = sts[0]
        hist, it = widen if widen else ({}, 0)
        live = f.livein[b] if b is not None else benv
        mine = tag + ':'
        ist = lambda t: any(x[2].startswith(mine) for x in syms(t))
        S = [x[0] for x in sts]; E = [x[1] for x in sts]
        n = base.fork(); env = {}
        newsyms = []   # (sym, [(state, value)...])
        numbered = {}
        def slot(name, vals, w, ptype=None):
            sy = ('s', w, mine + name)
            if all(v == vals[0] for v in vals) and not (ist(vals[0])): return vals[0]
            if vals[0][0] == 'bits' and not ist(vals[0]) and all(v[0] in ('bits', 'c') for v in vals) and all(x.equal(vals[0], v) is True for x, v in zip(S, vals)): return vals[0]
            if any(v[0] in ('ptr', 'fn') for v in vals) and ptype is None:
                for v in vals:
                    if v[0] == 'ptr' and v[2] in base.mem: 
                        s.ptrtype.setdefault(sy, base.mem[v[2]].type)
                # pointers into one region: join the offsets
                if all(v[0] == 'ptr' and v[2] == vals[0][2] for v in vals):
                    return ('ptr', 64, vals[0][2], slot(name + '.o', [v[3] for v in vals], 64))
            # slots holding the same values on every joined path stay equal
            kk = (w, tuple(vals))
            o = numbered.get(kk)
            if o is not None: return o
            if w <= 32 and any(v[0] == 'bits' for v in vals) and all(v[0] in ('bits', 'c', 's') for v in vals):
                # flag words: keep the bits all paths agree on
                bs = [bits_of(v) for v in vals]; com = []
                for i in range(w):
                    b0 = bs[0][i]
                    com.append(b0 if all(b[i] == b0 for b in bs) and (b0 in (0, 1) or not ist(b0[0])) else None)
                if sum(1 for i, c in enumerate(com) if c not in (None, 0, 1) and c[1] == i and c[0][0] == 's') >= 2:
                    r = numbered[kk] = mkbits(w, tuple((sy, i) if c is None else c for i, c in enumerate(com)))
                    return r
            numbered[kk] = sy
            for v in vals:
                if v[0] == 's' and v in s.ptrtype: s.ptrtype.setdefault(sy, s.ptrtype[v])
            newsyms.append((sy, list(zip(S, vals))))
            return sy
        for i in live:
            vs = [e.get(i) for e in E]
            if any(v is None for v in vs): continue
            env[i] = slot('%%%d' % i, vs, vs[0][1])
        allr = []
        for x in S:
            for r in x.mem:
                if r not in allr: allr.append(r)
        nm = {}
        for r in allr:
            have = [x for x in S if r in x.mem]
            o0 = have[0].mem[r]
            if all(x.mem[r] is o0 for x in have) and not any(ist(e[1]) for e in o0.cells.values()):
                nm[r] = o0; continue
            if r.startswith('@'):
                nm[r] = o0; continue
            O = o0.clone(n.tok)
            offs = {}
            for x in have:
                for a, e in x.mem[r].cells.items(): offs.setdefault(a, set()).add(e[0])
            O.cells = {}
            bad = []
            for a, szs in offs.items():
                if len(szs) > 1: bad.append((a, max(szs))); continue
                sz = next(iter(szs))
                vs = [s.rd(x, r, C(a, 64), sz) if r in x.mem else None for x in S]
                if any(v is None for v in vs):
                    vs = [v if v is not None else have and s.rd(have[0], r, C(a, 64), sz) for v in vs]
                O.cells[a] = (sz, slot('%s+%d' % (r, a), vs, sz * 8))
            O.sc = {k: e for k, e in o0.sc.items() if all(x.mem[r].sc.get(k) == e for x in have) and not ist(k) and not ist(e[1])}
            if any(x.mem[r].dflt != o0.dflt for x in have):
                lo = min(d[0] for x in have for d in x.mem[r].dflt[1:] or [(0, 0, 0)])
                hi = max(d[1] for x in have for d in x.mem[r].dflt[1:] or [(0, 0, 0)])
                O.dflt = list(min((x.mem[r].dflt for x in have), key=len))
                O.dflt.append((max(lo, 0), max(hi, 1), ('sym', "'" + tag)))
            for a, sz in bad: O.dflt.append((a, a + sz, ('sym', "'" + tag)))
            O.freed = any(x.mem[r].freed for x in have)
            if O.size is not None and any(x.mem[r].size != o0.size for x in have):
                O.size = None if any(x.mem[r].size is None for x in have) else slot(r + '.size', [x.mem[r].size for x in have], 64)
            nm[r] = O
        n.mem = nm
        # trace
        if any(x.trace != base.trace for x in S):
            ev = set()
            for x in S:
                t = x.trace
                while t is not None and t is not base.trace:
                    if t[1][0] == 'loop' : ev |= t[1][2]
                    else: ev.add(tuple(y if isinstance(y, (str, int)) else '' for y in t[1][:4]))
                    t = t[0]
            n.trace = (base.trace, ('loop', tag, frozenset(ev)))
        # facts
        fixed = lambda t: not ist(t)
        nb = {}
        for t in dict.fromkeys([t for x in S for t in x.bnd]):
            if fixed(t):
                rs = [x.rng(t) for x in S]; nb[t] = (min(q[0] for q in rs), max(q[1] for q in rs))
        n.bnd = nb
        nb = {}
        for t in dict.fromkeys([t for x in S for t in x.ubnd]):
            if fixed(t):
                rs = [x.urng(t) for x in S]; nb[t] = (min(q[0] for q in rs), max(q[1] for q in rs))
        n.ubnd = nb
        n.bit = {k: v for k, v in base.bit.items() if fixed(k[0]) and all(x.bitval(k) == v for x in S)}
        n.ne = {q for q in base.ne if fixed(q[1]) and fixed(q[2]) and all(x.equal(q[1], q[2]) is False for x in S)}
        n.eqp = {k: v for k, v in base.eqp.items() if fixed(k) and fixed(v) and all(x.eqp.get(k) == v for x in S)}
        nd = {}
        def best(x, a, b_):
            d = x.diffn(a, b_)
            ra, rb = x.nrng(a), x.nrng(b_); r = ra[1] - rb[0]
            r = r if d is None else min(d, r)
            if s.AFFINE and a[0] == b_[0] == 'S':
                # a sum is bounded through one of its parts
                for v, y, up in ((a[1], b_, True), (b_[1], a, False)):
                    if v[0] != 'lin' or len(v[3]) > 3: continue
                    H = 1 << (v[1] - 1); rv = x.rng(v); t = y[1]
                    if t[1] == v[1]:
                        q = sub(v, t); rt = x.rng(t)
                        if (q[0] != 'lin' or len(q[3]) <= len(v[3])) and rv[1] - rt[0] < H and rt[1] - rv[0] <= H:
                            q = x.rng(q); r = min(r, q[1] if up else -q[0])
                    for part, c in v[3]:
                        if c != 1: continue
                        rp = x.rng(part)
                        if rv[1] - rp[0] >= H or rp[1] - rv[0] > H: continue
                        rd = x.rng(sub(v, part)); np, kp = x.dec(part, 'S')
                        if np is None or np[0] != 'S': continue
                        q = 0 if np == y else x.diffn(np, y) if up else x.diffn(y, np)
                        if q is not None: r = min(r, q + (rd[1] + kp if up else -rd[0] - kp))
            return r
        for (a, b_) in dict.fromkeys(q for x in S for q in x.dbm):
            if fixed(a[1]) and fixed(b_[1]):
                v = max(best(x, a, b_) for x in S)
                if v < (1 << 33) and v < n.nrng(a)[1] - n.nrng(b_)[0]: nd[(a, b_)] = v
        n.dbm = nd; n.memo = {}
        aff = s.affine(n, env, newsyms, hist, it, ist) if s.AFFINE and widen else {}
        for sy, pairs in newsyms:
            w = sy[1]; tg = aff.get(sy, sy)
            if any(v[0] in ('ptr', 'fn') for _, v in pairs):
                if all(v[0] in ('ptr', 'fn') or x.equal(v, NULL) is False for x, v in pairs): n.ne.add(('eq', sy, NULL))
                continue
            if w == 64 and sy in s.ptrtype and all(x.equal(v, NULL) is False for x, v in pairs): n.ne.add(('eq', sy, NULL))
            rs = [x.ranges(v) for x, v in pairs]
            if s.AFFINE:
                for i, (x, v) in enumerate(pairs):
                    if rs[i][0] < 0 <= rs[i][1] and v[0] == 'lin' and len(v[3]) <= 4 and x.le(C(0, w), v, 'S'): rs[i] = (0, rs[i][1], 0, min(rs[i][1], rs[i][3]))
            r = [min(q[0] for q in rs), max(q[1] for q in rs), min(q[2] for q in rs), max(q[3] for q in rs)]
            o = hist.get(sy)
            if o is not None and it >= 2:
                H = 1 << (w - 1)
                if r[0] < o[0]: r[0] = max([t for t in s.THR if t <= r[0]] + [-H]) if it < 8 else -H
                if r[1] > o[1]: r[1] = min([t for t in s.THR if t >= r[1]] + [H - 1]) if it < 8 else H - 1
                if r[2] < o[2]: r[2] = max([t for t in s.THR if 0 <= t <= r[2]] + [0]) if it < 8 else 0
                if r[3] > o[3]: r[3] = min([t for t in s.THR if t >= r[3]] + [2 * H - 1]) if it < 8 else 2 * H - 1
                r = [min(r[0], o[0]), max(r[1], o[1]), min(r[2], o[2]), max(r[3], o[3])]
            elif o is not None:
                r = [min(r[0], o[0]), max(r[1], o[1]), min(r[2], o[2]), max(r[3], o[3])]
            hist[sy] = r
            n.bnd[tg] = (r[0], r[1]); n.ubnd[tg] = (r[2], r[3])
            if s.AFFINE and tg == sy:
                for i in range(min(min(x.tz(v) for x, v in pairs), 6)): n.bit[(sy, i)] = 0
        n.memo = {}
        # relations of the new symbols with stable terms
        for sy, pairs in newsyms:
            if any(v[0] in ('ptr', 'fn') for _, v in pairs): continue
            for dom in 'SU':
                x0, v0 = pairs[-1]
                node, k0 = x0.dec(v0, dom)
                if node is None: 
                    x0, v0 = pairs[0]; node, k0 = x0.dec(v0, dom)
                nsy, kt = n.dec(aff.get(sy, sy), dom)
                cands = set()
                for (a, b_), k in list(x0.dbm.items()):
                    if node is not None and a == node and fixed(b_[1]): cands.add(('le', b_))
                    if node is not None and b_ == node and fixed(a[1]): cands.add(('ge', a))
                for (x, v) in pairs:
                    nn, _ = x.dec(v, dom)
                    if nn is not None and fixed(nn[1]): cands.add(('le', nn)); cands.add(('ge', nn))
                    if s.AFFINE and dom == 'S' and v[0] == 'lin' and len(v[3]) <= 3:
                        for t, c in v[3]:
                            if c == 1 and t[0] == 's' and fixed(t): cands.add(('le', ('S', t)))
                    if s.AFFINE and nn is not None:
                        for (a, b_) in x.dbm:
                            if a == nn and fixed(b_[1]): cands.add(('le', b_))
                            if b_ == nn and fixed(a[1]): cands.add(('ge', a))
                for kind, y in cands:
                    ks = []
                    for x, v in pairs:
                        nv, kv = x.dec(v, dom)
                        if nv is None:
                            ry = x.nrng(y); q = (kv - ry[0]) if kind == 'le' else (ry[1] - kv)
                        else: q = best(x, nv, y) + kv if kind == 'le' else best(x, y, nv) - kv
                        ks.append(q)
                    q = max(ks)
                    if q >= (1 << 33): continue
                    rs, ry = n.nrng(nsy) if nsy else (-(1 << 63), 1 << 64), n.nrng(y)
                    if q >= (rs[1] - ry[0] if kind == 'le' else ry[1] - rs[0]): continue
                    kk = ('rel', sy, dom, kind, y)
                    o = hist.get(kk)
                    if o is None and it >= 3: continue
                    if o is not None and q > o:
                        if it >= 3: hist[kk] = 1 << 40; continue
                    if o is not None and o >= (1 << 40): continue
                    if o is not None and it >= 5: q = max(q, o)     # (never tighter again)
                    hist[kk] = q
                    q = q - kt if kind == 'le' else q + kt
                    if nsy is None or nsy == y: continue
                    if kind == 'le': n.dbm[(nsy, y)] = min(q, n.dbm.get((nsy, y), q))
                    else: n.dbm[(y, nsy)] = min(q, n.dbm.get((y, nsy), q))
        n.memo = {}
        if s.AFFINE:
            # bounds that follow from the relations
            mine_ = {('S', sy) for sy, pairs in newsyms if sy in n.bnd}
            for (a, b_), k in list(n.dbm.items()):
                try:
                    if a in mine_ and fixed(b_[1]) and n.nrng(a)[1] > n.nrng(b_)[1] + k: n.set_s(a[1], -(1 << 127), n.nrng(b_)[1] + k)
                    if b_ in mine_ and fixed(a[1]) and n.nrng(b_)[0] < n.nrng(a)[0] - k: n.set_s(b_[1], n.nrng(a)[0] - k, 1 << 127)
                except Infeasible: pass
        if s.MAXRET: s.gc(n, env)
        return (n, env)
    def affine(s, n, env, newsyms, hist, it, ist):
        """slots that move in proportion to another slot around a loop are replaced by
        an affine expression of it; returns {slot symbol: expression}"""
        def deep(x, t):
            if t[0] != 'lin': return x.simp(t)
            r = C(t[2], t[1])
            for y, c in t[3]: r = add(r, x.simp(y), 1, c)
            return x.simp(r)
        ints = {sy: [(x, deep(x, v)) for x, v in pairs] for sy, pairs in newsyms if not any(v[0] in ('ptr', 'fn') for _, v in pairs)}
        rel = hist.get('aff')
        if rel is None:
            rel = {}; bases = []; cand = []
            for sy, pairs in ints.items():
                e = pairs[0][1]; d = [x.simp(sub(v, e)) for x, v in pairs[1:]]
                if not d or all(isc(q) and q[2] == 0 for q in d) or any(size(q) > 200 for q in d): continue
                q = next(q for q in d if not (isc(q) and q[2] == 0))
                k, parts = lin_parts(q); lead = min([abs(tos(c, sy[1])) for c in parts.values()] + ([abs(tos(k, sy[1]))] if k else []))
                cand.append((lead, len(cand), sy, e, d))
            for lead, _, sy, e, d in sorted(cand, key=lambda c: c[:2]):
                for b, eb, db, lb in bases:
                    if b[1] != sy[1] or lead % lb: continue
                    for k in (lead // lb, -(lead // lb)):
                        if abs(k) <= 64 and all(q == mulc(qb, k) for q, qb in zip(d, db)):
                            c = sub(e, mulc(eb, k))
                            if size(c) < 200: rel[sy] = (b, k, c); break
                    if sy in rel: break
                else: bases.append((sy, e, d, lead))
        else:
            ok = {}
            for sy, (b, k, c) in rel.items():
                if sy not in ints or b not in ints: continue
                if all(x.simp(sub(v, add(mulc(vb, k), c)))[:3] == ('c', sy[1], 0) for (x, v), (_, vb) in zip(ints[sy], ints[b])): ok[sy] = (b, k, c)
            rel = ok
        hist['aff'] = rel
        if not rel: return {}
        ex = {sy: add(mulc(b, k), c) for sy, (b, k, c) in rel.items()}
        def put(v):
            if v[0] == 's': return ex.get(v, v)
            if v[0] == 'ptr' and v[3] in ex: return ('ptr', 64, v[2], ex[v[3]])
            return v
        for i in env: env[i] = put(env[i])
        for r, o in n.mem.items():
            if o.owner is n.tok:
                for a, e in o.cells.items():
                    q = put(e[1])
                    if q != e[1]: o.cells[a] = (e[0], q)
                if o.size is not None: o.size = put(o.size)
        return ex
    def gc(s, n, env):
        """forget facts about values no longer held by memory or any frame"""
        vals = [e[1] for o in n.mem.values() for e in o.cells.values()]
        vals += [v for v in env.values()] + [v for e in s.envs for v in e.values()]
        live = set(); stack = [v for v in vals if v is not None]
        while stack:
            x = stack.pop()
            if not isinstance(x, tuple) or not x or x in live: continue
            live.add(x)
            stack.extend(y for y in x if isinstance(y, tuple))
        def ok(t):
            if t in live or t[0] == 'c': return True
            if t[0] == 's': return not (t[2][0] in 'JRL' and ':' in t[2])
            return s.AFFINE and t[0] == 'lin' and len(t[3]) <= 3 and all(x[0] == 's' and ok(x) for x, c in t[3])
        n.bnd = {t: v for t, v in n.bnd.items() if ok(t)}
        n.ubnd = {t: v for t, v in n.ubnd.items() if ok(t)}
        n.dbm = {q: v for q, v in n.dbm.items() if ok(q[0][1]) and ok(q[1][1])}
        n.ne = {q for q in n.ne if ok(q[1]) and ok(q[2])}
        n.eqp = {k: v for k, v in n.eqp.items() if ok(k) and ok(v)}
        n.bit = {k: v for k, v in n.bit.items() if ok(k[0])}
        n.memo = {}
    # ------------- blocks
    def edge(s, f, b, succ, st, env):
        """apply phis of succ"""
        ph = []
        for i in f.blocks[succ]['ins']:
            if i['op'] != 'phi': break
            for o, p in i['inc']:
                if p == b: ph.append((i['id'], s.val(o, env))); break
        live = f.livein[succ]
        ne = {k: v for k, v in env.items() if k in live}
        for k, v in ph: ne[k] = v
        return ne
    IFCONV = False
    def choice(s, f, b, T, F, st, env, c):
        """a choice between two constants is a value, not two paths"""
        def way(x):
            i = f.blocks[x]['ins']
            if len(i) == 1 and i[0]['op'] == 'br' and not i[0]['ops'] and f.pred[x] == [b]: return i[0]['succ'][0], x
            return x, None
        (m, t), (m2, e) = way(T), way(F)
        if m != m2: return None
        def go(x):
            v = s.edge(f, b, x if x is not None else m, st, env)
            return v if x is None else s.edge(f, x, m, st, v)
        p, q = go(t), go(e); out = dict(p)
        for k in set(p) | set(q):
            x, y = p.get(k), q.get(k)
            if x == y: continue
            if x is None or y is None or x[0] != 'c' or y[0] != 'c': return None
            out[k] = add(y, mulc(ext(c, x[1], False), x[2] - y[2])) if x[1] > 1 else None
            if out[k] is None: return None
        return m, st, out
    def block(s, f, loop, body, b, st, env, rets):
        cur = [(st, env)]
        blk = f.blocks[b]['ins']
        outs = []
        for ins in blk:
            op = ins['op']
            if op == 'phi': continue
            s.steps += 1
            if s.steps > s.maxsteps: raise AnalysisBroken('step budget exceeded in %s' % f.name)
            if op == 'br':
                for st, env in cur:
                    s.cur_ins = ins
                    if not ins['ops']:
                        outs.append((ins['succ'][0], st, s.edge(f, b, ins['succ'][0], st, env))); continue
                    c = st.simp(s.val(ins['ops'][0], env))
                    s.h.branch(s, st, ins, c)
                    tv = st.truth(c)
                    T, F = ins['succ']
                    if tv is None and T == F: tv = True
                    if tv is None and s.IFCONV:
                        j = s.choice(f, b, T, F, st, env, c)
                        if j is not None: outs.append(j); continue
                    if tv is None:
                        feas = []
                        for val_, su in ((True, T), (False, F)):
                            n = st.fork()
                            try: n.assume(c, val_)
                            except Infeasible: continue
                            feas.append((su, n))
                        if len(feas) == 2 and loop is not None:
                            self_l = loop
                            while self_l is not None:
                                if (T in self_l.body) != (F in self_l.body): s.symexit.add((self_l.id, len(s.stack)))
                                self_l = self_l.parent
                        for su, n in feas: outs.append((su, n, s.edge(f, b, su, n, env)))
                    else:
                        su = T if tv else F
                        outs.append((su, st, s.edge(f, b, su, st, env)))
                return outs
            if op == 'switch':
                for st, env in cur:
                    s.cur_ins = ins
                    v = st.simp(s.val(ins['ops'][0], env)); c = st.const(v); w = v[1]
                    if c is not None:
                        su = next((t for k, t in ins['cases'] if (int(k) & M[w]) == c), ins['def'])
                        outs.append((su, st, s.edge(f, b, su, st, env))); continue
                    tg = {}
                    for k, t in ins['cases']:
                        n = st.fork()
                        try: n.assume_eq(v, C(int(k), w))
                        except Infeasible: continue
                        if n.truth(('cmp', 1, 'eq', v, C(int(k), w))) is False: continue
                        tg.setdefault(t, []).append(n)
                    n = st.fork()
                    try:
                        for k, t in ins['cases']: n.assume_ne(v, C(int(k), w))
                        tg.setdefault(ins['def'], []).append(n)
                    except Infeasible: pass
                    if loop is not None and len(tg) > 1:
                        ll = loop
                        while ll is not None:
                            if len({t in ll.body for t in tg}) > 1: s.symexit.add((ll.id, len(s.stack)))
                            ll = ll.parent
                    for t, ns in tg.items():
                        for n in ns: outs.append((t, n, s.edge(f, b, t, n, env)))
                return outs
            if op == 'ret':
                for st, env in cur:
                    v = st.simp(s.val(ins['ops'][0], env)) if ins['ops'] else None
                    rets.append((st, v))
                return outs
            if op == 'unreachable': return outs
            if op in ('call', 'select'):
                nxt = []
                for st, env in cur:
                    s.cur_ins = ins
                    if op == 'select':
                        c = st.simp(s.val(ins['ops'][0], env)); tv = st.truth(c)
                        if s.IFCONV and tv is None and ins['w'] > 1:
                            x, y = (st.simp(s.val(o, env)) for o in ins['ops'][1:])
                            if x[0] == y[0] == 'c':
                                nxt.append((st, env | {ins['id']: add(y, mulc(ext(c, x[1], False), x[2] - y[2]))})); continue
                        for val_ in (True, False):
                            if tv is not None and tv != val_: continue
                            n = st.fork() if tv is None else st
                            try: n.assume(c, val_)
                            except Infeasible: continue
                            e2 = dict(env); e2[ins['id']] = n.simp(s.val(ins['ops'][1 if val_ else 2], env)); nxt.append((n, e2))
                    else:
                        for n, v in s.docall(f, ins, st, env):
                            e2 = dict(env); e2[ins['id']] = v; nxt.append((n, e2))
                cur = nxt
                if not cur: return outs
                if len(cur) > 400: cur = s.join_env(f, b, cur, ins['id'])
                continue
            nxt = []
            for st, env in cur:
                s.cur_ins = ins
                v = s.simple(f, ins, st, env)
                if v is False: continue        # path dies (null dereference)
                if v is not None: env[ins['id']] = v
                nxt.append((st, env))
            cur = nxt
            if not cur: return outs
        return outs
    def join_env(s, f, b, cur, rid):
        """join the states after a call with the same constant result and blocks in use"""
        groups = {}
        for st, env in cur:
            v = env.get(rid)
            groups.setdefault((s.heapkey(st), v if v is None or v[0] in ('c', 'ptr', 'fn') else 'sym'), []).append((st, env))
        if len(groups) > 300: raise AnalysisBroken('too many call outcomes in %s block %s: %d' % (f.name, b, len(cur)))
        s.widened.add('%s block %s: %d call outcomes joined' % (f.name, b, len(cur)))
        return [g[0] if len(g) == 1 else s.join(f, None, g, 'C%s.%d' % (f.name, s.nextid())) for g in groups.values()]
    # ------------- instructions
    def simple(s, f, ins, st, env):
        op = ins['op']; w = ins['w']
        if op == 'alloca':
            rid = '&%d:%s.%s' % (len(s.stack), f.name, f.vars.get(str(ins['id']), ['%%%d' % ins['id']])[0])
            n = s.val(ins['ops'][0], env); nc = st.const(n)
            ti = f.vars.get(str(ins['id']), [None, None])[1]
            if not ins['entry'] or nc != 1:
                rid += '#%d' % s.nextid()
            size = mulc(ext(n, 64, False) if n[1] < 64 else n, ins['size'])
            o = Obj(size, ti if nc == 1 else None, 'alloca', ('undef',), rid); o.owner = st.tok
            st.mem[rid] = o
            return ('ptr', 64, rid, ZERO64)
        if op == 'load':
            p = s.val(ins['ops'][0], env)
            v = s.load(st, p, (w + 7) // 8, ins)
            if v is None: return False
            if v[1] != w and v[0] not in ('ptr', 'fn'): v = trunc(v, w) if v[1] > w else ext(v, w, False)
            return v
        if op == 'store':
            v = st.simp(s.val(ins['ops'][0], env)); p = s.val(ins['ops'][1], env)
            sz = (ins['sw'] + 7) // 8
            if not s.storev(st, p, sz, v, ins): return False
            return None
        if op == 'getelementptr':
            p = st.simp(s.val(ins['ops'][0], env))
            off = C(ins['off'], 64)
            for o, sc in ins['var']:
                i = st.simp(s.val(o, env))
                if i[1] < 64: i = s.widen(st, i, 64, True)
                off = add(off, mulc(i, sc))
            if 'asz' in ins: s.h.index(s, st, off, ins)
            if p[0] == 'ptr': return ('ptr', 64, p[2], add(p[3], off))
            if off == ZERO64: return p
            if p[0] == 's' and p in s.ptrtype and not (st.const(p) == 0):
                r = s.resolve(st, p, ins)
                if r: return ('ptr', 64, r[0], add(r[1], off))
            if p[0] == 's' and p[1] == 64:
                s.ptrtype.setdefault(p, None)
                r = s.resolve(st, p, ins)
                if r: return ('ptr', 64, r[0], add(r[1], off))
            return add(p, off)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
            a = st.simp(s.val(ins['ops'][0], env)); b = st.simp(s.val(ins['ops'][1], env))
            if op in ('sdiv', 'udiv', 'srem', 'urem'): 
                s.h.div(s, st, ins, a, b)
            if op in ('shl', 'lshr', 'ashr'): s.h.shift(s, st, ins, a, b)
            r = s.binop(st, op, a, b, w)
            if ins.get('nsw') and r[0] == 'lin': s.nsw(st, op, a, b, r)
            return s.cap(st, r)
        if op == 'icmp':
            a = st.simp(s.val(ins['ops'][0], env)); b = st.simp(s.val(ins['ops'][1], env))
            return s.icmp(st, ins['pred'], a, b)
        if op in ('sext', 'zext'):
            a = st.simp(s.val(ins['ops'][0], env))
            if a[0] in ('ptr', 'fn'): return s.sym('extptr', w)
            if a[0] == 'cmp':
                tv = st.truth(a)
                if tv is not None: return C((M[w] if op == 'sext' else 1) if tv else 0, w)
                return mkbits(w, ((a, 0),) + ((((a, 0)) if op == 'sext' else 0),) * (w - 1))
            if a[0] in ('lin', 'bits'): return s.widen(st, a, w, op == 'sext')
            if op == 'sext' and st.rng(a)[0] >= 0: return ext(a, w, False)
            return ext(a, w, op == 'sext')
        if op == 'trunc':
            a = st.simp(s.val(ins['ops'][0], env))
            r = s.narrow(st, a, w)
            s.h.trunc(s, st, ins, a, r)
            return st.simp(r)
        if op in ('bitcast', 'freeze', 'addrspacecast'): return s.val(ins['ops'][0], env)
        if op in ('ptrtoint', 'inttoptr'):
            return s.val(ins['ops'][0], env)
        if op == 'extractvalue': return s.sym('ev', w or 64)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fcmp'):
            a = [s.val(o, env) for o in ins['ops']]
            if op == 'fcmp': return ('cmp', 1, 'f' + ins['pred'], a[0], a[1])
            r = ('op', w, op) + tuple(a)
            return s.cap(st, r)
        raise AnalysisBroken('unsupported instruction %s at %s' % (op, s.loc(ins)))
    def narrow(s, st, a, w):
        """truncation; a sum that fits as a whole but not by its terms stays one value"""
        if a[0] == 'lin' and len(a[3]) > 1:
            q = st.ranges(a)
            if (q[3] < (1 << w) or (-(1 << (w - 1)) <= q[0] and q[1] < (1 << (w - 1)))) and any(t[0] in ('s', 'op') for t, _ in a[3]):
                return mkbits(w, tuple((a, i) for i in range(w)))
        return trunc(a, w)
    def widen(s, st, a, w, signed):
        """extension of a sum; distributes over the terms when the sum does not wrap"""
        if a[0] == 'bits' and a[2][0] not in (0, 1) and a[2][0][1] == 0 and a[2][0][0][0] not in ('cmp', 'bop') and a[2][0][0][1] == w:
            x = a[2][0][0]
            if a[2] == tuple((x, i) for i in range(a[1])):
                r = st.ranges(x); n = a[1]
                if (not signed and r[3] < (1 << n)) or (signed and -(1 << (n - 1)) <= r[0] and r[1] < (1 << (n - 1))): return x
        if a[0] == 'lin':
            n = a[1]; H = 1 << (n - 1)
            for sg in ((True, False) if signed else (False, True)):
                x = mklin(w, tos(a[2], n) & M[w], {})
                d = {}
                for t, c in a[3]:
                    if t[0] in ('ptr', 'fn'): break
                    d[ext(t, w, sg and st.rng(t)[0] < 0)] = tos(c, n)
                else:
                    x = mklin(w, tos(a[2], n), d)
                    r = st.rng(x)
                    if signed and -H <= r[0] and r[1] <= H - 1: return x
                    if not signed and 0 <= r[0] and r[1] <= 2 * H - 1: return x
        if signed and st.rng(a)[0] >= 0: return ext(a, w, False)
        return ext(a, w, signed)
    def cap(s, st, t):
        if size(t) > (1500 if t[0] == 'op' and t[2] == 'xor' else 300):
            n = s.sym('big', t[1]); r = st.ranges(t)
            st.bnd[n] = r[:2]; st.ubnd[n] = r[2:]; st.memo = {}
            return n
        return t
    def nsw(s, st, op, a, b, r):
        """signed overflow is undefined in C: the sum stays in range"""
        w = r[1]; H = 1 << (w - 1)
        ra, rb = st.rng(a), st.rng(b)
        if op == 'add': lo, hi = ra[0] + rb[0], ra[1] + rb[1]
        elif op == 'sub': lo, hi = ra[0] - rb[1], ra[1] - rb[0]
        else: return
        if lo < -H or hi > H - 1:
            lo, hi = max(lo, -H), min(hi, H - 1)
            if lo <= hi:
                try: st.set_s(r, lo, hi)
                except Infeasible: pass
    def icmp(s, st, p, a, b):
        if a[0] == 'cmp' and b[0] == 'c':
            if (p == 'ne' and b[2] == 0) or (p == 'eq' and b[2] == 1): return a
            if (p == 'eq' and b[2] == 0) or (p == 'ne' and b[2] == 1): return notcmp(a)
        if a[0] == 'bits' and b[0] == 'c' and p in ('eq', 'ne'):
            nz = [(i, x) for i, x in enumerate(a[2]) if x != 0]
            if len(nz) == 1 and nz[0][1] not in (0, 1) and nz[0][1][0][0] == 'cmp' and b[2] in (0, 1 << nz[0][0]):
                c = nz[0][1][0]
                return c if (p == 'ne') == (b[2] == 0) else notcmp(c)
        if a[0] == 'c' and b[0] != 'c' and p in SWAP: a, b, p = b, a, SWAP[p]
        t = ('cmp', 1, p, a, b)
        tv = st.truth(t)
        if tv is not None: return TRUE if tv else FALSE
        return t
    def binop(s, st, op, a, b, w):
        if a[0] in ('ptr', 'fn') or b[0] in ('ptr', 'fn'):
            if op == 'sub' and a[0] == 'ptr' and b[0] == 'ptr' and a[2] == b[2]: return sub(a[3], b[3])
            if op == 'add' and a[0] == 'ptr': return ('ptr', 64, a[2], add(a[3], b))
            if op == 'add' and b[0] == 'ptr': return ('ptr', 64, b[2], add(b[3], a))
            if op == 'sub' and a[0] == 'ptr' and b[0] not in ('ptr', 'fn'): return ('ptr', 64, a[2], sub(a[3], b))
            return ('op', w, op, a, b)
        if op == 'sub' and s.AFFINE and b[0] == 'bits' and a[0] in ('s', 'bits') and lowpart(b, a):
            n = sum(1 for q in b[2] if q != 0)
            return st.simp(mkbits(w, (0,) * n + tuple(bits_of(a)[n:])))
        if op == 'add': return st.simp(add(a, b))
        if op == 'sub': return st.simp(sub(a, b))
        ca, cb = st.const(a), st.const(b)
        if op == 'mul' and s.AFFINE and cb and cb & (cb - 1) == 0 and a[0] == 'bits': op = 'shl'; cb = cb.bit_length() - 1
        if op == 'mul':
            if cb is not None: return st.simp(mulc(a, cb))
            if ca is not None: return st.simp(mulc(b, ca))
            x, y = sorted((a, b), key=key)
            return ('op', w, 'mul', x, y)
        if op in ('and', 'or', 'xor'):
            if w > 1: a, b = allbits(a), allbits(b)
            if w == 1:
                ta, tb = st.truth(a), st.truth(b)
                if op == 'xor' and tb is True: return notcmp(a) if a[0] == 'cmp' else bitop(op, a, b)
                if op == 'and':
                    if ta is False or tb is False: return FALSE
                    if ta is True: return b
                    if tb is True: return a
                if op == 'or':
                    if ta is True or tb is True: return TRUE
                    if ta is False: return b
                    if tb is False: return a
            r = bitop(op, a, b)
            if s.AFFINE and op == 'and' and cb and r[0] in ('bits', 'lin') and a[0] in ('s', 'lin') and st.rng(a)[0] >= 0 and st.rng(r)[0] >= 0: st.add_diff(r, a, 'S', 0)
            # masking that changes nothing
            if op == 'and' and cb:
                l = (cb & -cb).bit_length() - 1
                if (cb + (1 << l)) & cb == 0 and st.urng(a)[1] < cb + (1 << l) and (l == 0 or st.tz(a) >= l): return a
            return st.simp(r)
        if op == 'shl':
            if cb is not None and cb < w:
                if s.AFFINE and a[0] == 'bits' and 0 < cb:
                    # undoes a shift that lost nothing
                    y = a[2][0]
                    if y not in (0, 1) and y[1] == cb and y[0][0] == 's' and y[0][1] == w and a == lshr(y[0], cb) and st.tz(y[0]) >= cb: return y[0]
                return st.simp(mulc(a, 1 << cb))
        elif op == 'lshr':
            if cb is not None and cb < w: return st.simp(lshr(a, cb))
        elif op == 'ashr':
            if cb is not None and cb < w:
                if cb == 0: return a
                if a[0] == 'lin' and all(c % (1 << cb) == 0 for _, c in a[3]) and a[2] % (1 << cb) == 0:
                    q = mklin(w, tos(a[2], w) >> cb, {t: tos(c, w) >> cb for t, c in a[3]})
                    r = st.rng(q)
                    if -(1 << (w - 1 - cb)) <= r[0] and r[1] < (1 << (w - 1 - cb)): return q
                if st.rng(a)[0] >= 0 and a[0] in ('bits', 's'): return st.simp(lshr(a, cb))
                if a[0] == 'bits': return st.simp(ashr_bits(a, cb))
                return st.simp(('op', w, 'ashr', a, C(cb, w)))
        elif op in ('sdiv', 'udiv', 'srem', 'urem'):
            if ca is not None and cb:
                if op == 'udiv': return C(ca // cb, w)
                if op == 'urem': return C(ca % cb, w)
                x, y = tos(ca, w), tos(cb, w); q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                return C(q if op == 'sdiv' else x - q * y, w)
            if cb and (cb & (cb - 1)) == 0 and (op[0] == 'u' or st.rng(a)[0] >= 0):
                n = cb.bit_length() - 1
                if op in ('udiv', 'sdiv'): return st.simp(lshr(a, n)) if n else a
                return st.simp(bitop('and', a, C(cb - 1, w)))
            # exact quotient of a multiple
            if cb and cb > 1 and a[0] == 'lin' and op in ('udiv', 'sdiv') and all(c % cb == 0 and c < (1 << (w - 1)) for _, c in a[3]) and a[2] % cb == 0:
                q = mklin(w, a[2] // cb, {t: c // cb for t, c in a[3]})
                r = st.urng(q)
                if r[1] * cb <= M[w] and (op == 'udiv' or r[1] * cb < (1 << (w - 1))): return q
        return st.simp(('op', w, op, a, b))
    # ------------- calls
    def docall(s, f, ins, st, env):
        args = [st.simp(s.val(o, env)) if 'md' not in o else None for o in ins['ops']]
        c = ins['callee']
        if 'asm' in c: raise AnalysisBroken('inline assembly at ' + s.loc(ins))
        tgt = st.simp(s.val(c, env))
        if tgt[0] == 'fn':
            s.envs.append(env)
            try: return s.callfn(tgt[2], args, st, ins)
            finally: s.envs.pop()
        if st.const(tgt) == 0:
            s.h.badderef(s, st, tgt, ins); return []
        try: st.assume_ne(tgt, NULL)
        except Infeasible: return []
        r = s.h.icall(s, st, tgt, args, ins)
        if r is not None: return r
        st.ev(('cb', tgt, tuple(args), s.loc(ins)))
        # an unknown callback may change the info record handed to it
        for a in args:
            if a is not None and a[0] == 'ptr' and a[2].startswith('&'): s.havoc(st, a[2])
        return [(st, s.sym('cbret', ins['w'] or 64) if ins['w'] else None)]
    def callfn(s, name, args, st, ins):
        if name in s.summaries: return s.summaries[name](s, st, args, ins)
        fn = s.p.funcs.get(name)
        r = s.h.call(s, st, name, args, ins)
        if r is not None: return r
        if fn is not None and not fn.decl:
            # arguments passed to a callee through a cast function pointer may differ in number
            a = list(args)[:len(fn.args)]
            while len(a) < len(fn.args): a.append(s.nsym('undef', fn.args[len(a)]['w']))
            outs = s.exec_fn(fn, a, st, ins)
            w = ins['w']
            res = []
            for n, v in outs:
                if ins['k'] != 'v' and v is None: v = s.nsym('undef', w)
                if v is not None and w and v[1] != w and v[0] not in ('ptr', 'fn'): v = trunc(v, w) if v[1] > w else ext(v, w, False)
                s.h.callret(s, n, name, args, v, ins)
                res.append((n, v))
            return res
        return s.extern(name, args, st, ins)
    def extern(s, name, args, st, ins):
        w = ins['w']
        ni = ins.get('intr') or name
        if name.startswith('llvm.'): ni = name.split('.')[1]
        if ni in ('lifetime', 'stacksave', 'stackrestore', 'dbg', 'assume', 'donothing', 'prefetch'): return [(st, s.nsym('stk', 64))]
        if ni == 'memset':
            s.memset(st, args[0], trunc(args[1], 8) if args[1][1] > 8 else args[1], args[2], ins); return [(st, args[0])]
        if ni in ('memcpy', 'memmove'):
            s.memcpy(st, args[0], args[1], args[2], ins); return [(st, args[0])]
        if ni == 'abs':
            a = args[0]; outs = []
            for neg_ in (False, True):
                n = st.fork()
                try: n.assume(('cmp', 1, 'slt', a, C(0, a[1])), neg_)
                except Infeasible: continue
                outs.append((n, neg(a) if neg_ else a))
            return outs
        if ni in ('smax', 'smin', 'umax', 'umin'):
            a, b = args[:2]; outs = []
            p = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[ni]
            for t in (True, False):
                n = st.fork()
                try: n.assume(('cmp', 1, p, a, b), t)
                except Infeasible: continue
                outs.append((n, a if t else b))
            return outs
        r = s.h.ext(s, st, name, args, ins)
        if r is not None: return r
        loc = s.loc(ins)
        if name in ('malloc', 'calloc'):
            size = args[0] if name == 'malloc' else (mulc(args[0], st.const(args[1])) if st.const(args[1]) is not None else ('op', 64, 'mul', args[0], args[1]))
            outs = []
            if s.fail_alloc:
                n = st.fork(); s.nomem(n, loc); outs.append((n, NULL))
            outs.append((st, s.newheap(st, size, ('zero',) if name == 'calloc' else ('undef',), loc)))
            return outs
        if name == 'realloc':
            outs = []; p = st.simp(args[0])
            if s.fail_alloc:
                n = st.fork(); s.nomem(n, loc); outs.append((n, NULL))
            cases = []
            e = st.equal(p, NULL)
            if e is None:
                n = st.fork()
                try: n.assume_eq(p, NULL); cases.append((n, True))
                except Infeasible: pass
                try: st.assume_ne(p, NULL); cases.append((st, False))
                except Infeasible: pass
            else: cases.append((st, e))
            for n, isnull in cases:
                if isnull: outs.append((n, s.newheap(n, args[1], ('undef',), loc))); continue
                r = s.resolve(n, p, ins)
                s.h.free(s, n, p, ins)
                old = n.mem[r[0]]
                np_ = s.newheap(n, args[1], ('undef',), loc)
                o = n.w(np_[2]); o.cells = dict(old.cells); o.sc = dict(old.sc); o.type = old.type
                o.dflt = list(old.dflt)
                n.w(r[0]).freed = True
                n.ev(('free', r[0], r[1], loc))
                outs.append((n, np_))
            return outs
        if name == 'free':
            p = args[0]; e = st.equal(p, NULL)
            if e is True: return [(st, None)]
            outs = []
            if e is None:
                n = st.fork()
                try: n.assume_eq(p, NULL); outs.append((n, None))
                except Infeasible: pass
                try: st.assume_ne(p, NULL)
                except Infeasible: return outs
            r = s.resolve(st, p, ins)
            s.h.free(s, st, p, ins)
            st.ev(('free', r[0], r[1], loc))
            if r[0] in st.mem: st.w(r[0]).freed = True
            outs.append((st, None))
            return outs
        if name in ('fread', 'fwrite'):
            buf, sz, cnt, fp = args
            total = mulc(sz, st.const(cnt)) if st.const(cnt) is not None else mulc(cnt, st.const(sz)) if st.const(sz) is not None else ('op', 64, 'mul', sz, cnt)
            r = s.resolve(st, buf, ins)
            if r is None:
                if st.const(total) != 0: s.h.badderef(s, st, buf, ins); return []
            else:
                s.h.access(s, st, r[0], r[1], total, name == 'fread', ins)
            outs = []
            content = None
            if name == 'fwrite' and r is not None: content = (r[0], r[1])
            okst = st.fork() if s.io_fail else st
            if name == 'fread' and r is not None:
                lo = max(okst.rng(r[1])[0], 0); hi = min(okst.rng(r[1])[1] + okst.urng(total)[1], 1 << 62)
                s.h.store(s, okst, r[0], r[1], total, NULL, 'fread', ins)
                if hi > lo: s.havoc(okst, r[0], lo, hi)
            okst.ev((name, True, r, total, loc)); outs.append((okst, cnt))
            if s.io_fail and st.urng(cnt)[1] > 0:
                n = st
                t = s.sym(name + '.short', 64)
                try:
                    n.assume(('cmp', 1, 'ult', t, cnt), True)
                    if name == 'fread' and r is not None and hi > lo: s.havoc(n, r[0], lo, hi)
                    n.ev((name, False, r, total, loc))
                    if name == 'fread' and '&ghost' in n.mem:
                        m = n.fork(); s.iofail(m, 2); outs.append((m, t))
                    s.iofail(n); outs.append((n, t))
                except Infeasible: pass
            return outs
        if name in ('fseek', 'fflush', 'fclose', 'setvbuf', 'fseeko'):
            outs = []
            if s.io_fail:
                n = st.fork(); n.ev((name, False, tuple(args), loc)); s.iofail(n); outs.append((n, C(-1, w)))
            st.ev((name, True, tuple(args), loc)); outs.append((st, C(0, w)))
            return outs
        if name in ('ftell', 'ftello'):
            outs = []
            if s.io_fail:
                n = st.fork(); n.ev((name, False, tuple(args), loc)); s.iofail(n); outs.append((n, C(-1, w)))
            st.ev((name, True, tuple(args), loc)); outs.append((st, s.sym('ftell', w, 0, (1 << 62))))
            return outs
        if name in ('ferror', 'feof') and '&ghost' in st.mem:
            g = s.rd(st, '&ghost', C(4, 64), 4); outs = []
            t = s.sym(name, w); FR = C(1 if name == 'ferror' else 2, 32)
            for v in (True, False):
                n = st.fork()
                try:
                    (n.assume_eq if v else n.assume_ne)(g, FR); n.memo = {}
                    if v: n.assume_ne(t, C(0, w)); outs.append((n, t))
                    else: outs.append((n, C(0, w)))
                except Infeasible: continue
            return outs
        if name == 'rand': return [(st, s.sym('rand', w, 0, 0x7fffffff))]
        if name in ('pow', 'log2', 'exp2', 'floor', 'ceil', 'fabs', 'sqrt', 'powf', 'fmuladd', 'log', 'exp', 'round'):
            return [(st, ('op', w, name) + tuple(args))]
        if name in ('fileno', 'memcmp', 'strcmp', 'strncmp'):
            if name == 'memcmp':
                for a in args[:2]:
                    r = s.resolve(st, a, ins)
                    if r is None: s.h.badderef(s, st, a, ins); return []
                    s.h.access(s, st, r[0], r[1], args[2], False, ins)
                t = s.sym('memcmp', w); s.memcmp_eq(st, t, args)
                return [(st, t)]
            return [(st, s.sym(name, w))]
        if name == 'fcntl':
            t = s.sym('fcntl', w); st.ev((name, True, tuple(args), loc))
            if not s.io_fail or '&ghost' not in st.mem: return [(st, t)]
            n = st.fork(); s.iofail(n); st.assume_ne(t, C(-1, w)); st.set_s(t, 0, 1 << 31)
            return [(st, t), (n, C(-1, w))]
        st.ev(('ext', name, tuple(args), loc))
        if not w: return [(st, None)]
        return [(st, s.sym(name, w))]
    def memcmp_eq(s, st, t, args): pass
    def nomem(s, n, loc):
        n.ev(('alloc', None, loc))
        if '&ghost' in n.mem: n.w('&ghost').cells[0] = (4, C(1, 32)); n.memo = {}
    def iofail(s, n, kind=1):
        """note in the ghost cell that a file operation failed (1) or met the end of the file (2)"""
        if '&ghost' in n.mem:
            c = n.const(s.rd(n, '&ghost', C(4, 64), 4))
            if c == 0 or kind == 1: n.w('&ghost').cells[4] = (4, C(kind, 32)); n.memo = {}
    def newheap(s, st, size, dflt, loc):
        # named after the place and its occurrence, so that the same block has the same name on every path
        k = 0
        while 'heap:%s#%d' % (loc, k) in st.mem: k += 1
        rid = 'heap:%s#%d' % (loc, k)
        o = Obj(size, None, 'heap', dflt, rid); o.owner = st.tok
        st.mem[rid] = o; st.ev(('alloc', rid, loc))
        return ('ptr', 64, rid, ZERO64)
SYMT = {}
