"""Abstract value terms.

A term is a nested tuple; equal tuples denote equal values.
  ('c',w,v)                 constant, v unsigned
  ('s',w,name)              symbol
  ('lin',w,k,((t,c),...))   k + sum c*t  modulo 2^w
  ('bits',w,(b0..))         per bit: 0, 1 or (t,i) = bit i of t
  ('op',w,name,args...)     anything else
  ('cmp',1,pred,a,b)        comparison
  ('ptr',64,rid,off)        address in region rid
  ('fn',64,name)            function address
"""
M = {w: (1 << w) - 1 for w in range(0, 130)}

def C(v, w): return ('c', w, v & M[w])
ZERO64 = ('c', 64, 0)
NULL = ZERO64
TRUE, FALSE = ('c', 1, 1), ('c', 1, 0)

def isc(t): return t[0] == 'c'
def sval(t):
    v, w = t[2], t[1]
    return v - (1 << w) if v >> (w - 1) else v
def tos(v, w):
    v &= M[w]
    return v - (1 << w) if v >> (w - 1) else v
def width(t): return t[1]

_key = {}
def key(t):
    k = _key.get(t)
    if k is None:
        k = repr(t); _key[t] = k
        if len(_key) > 400000: _key.clear()
    return k

# ---- linear forms
def lin_parts(t):
    """k, {term: coef}"""
    if t[0] == 'c': return t[2], {}
    if t[0] == 'lin': return t[2], dict(t[3])
    if t[0] == 'bits':
        s = as_shift(t)
        if s:
            x, n = s
            return 0, {x: 1 << n} if n else {x: 1}
    return 0, {t: 1}

def as_shift(t):
    """bits term that is x<<n of a same-width x"""
    w, b = t[1], t[2]
    n = 0
    while n < w and b[n] == 0: n += 1
    if n == 0 or n == w: return None
    b0 = b[n]
    if b0 in (0, 1) or b0[1] != 0 or b0[0][1] != w: return None
    x = b0[0]
    for i in range(n, w):
        if b[i] != (x, i - n): return None
    return x, n

def mklin(w, k, d):
    k &= M[w]
    it = [(t, c & M[w]) for t, c in d.items() if c & M[w]]
    if not it: return ('c', w, k)
    if k == 0 and len(it) == 1 and it[0][1] == 1: return it[0][0]
    it.sort(key=lambda x: key(x[0]))
    return ('lin', w, k, tuple(it))

def add(a, b, ca=1, cb=1):
    w = a[1]
    ka, da = lin_parts(a); kb, db = lin_parts(b)
    d = {}
    for t, c in da.items(): d[t] = d.get(t, 0) + ca * c
    for t, c in db.items(): d[t] = d.get(t, 0) + cb * c
    return mklin(w, ca * ka + cb * kb, d)
def sub(a, b): return add(a, b, 1, -1)
def mulc(a, c): 
    k, d = lin_parts(a)
    return mklin(a[1], k * c, {t: x * c for t, x in d.items()})
def neg(a): return mulc(a, -1)

# ---- bits
def bits_of(t):
    w = t[1]
    if t[0] == 'c': return tuple((t[2] >> i) & 1 for i in range(w))
    if t[0] == 'bits': return t[2]
    if t[0] == 'lin' and t[2] == 0 and len(t[3]) == 1:
        x, c = t[3][0]
        if c and (c & (c - 1)) == 0:
            n = c.bit_length() - 1
            bx = bits_of(x)
            return tuple([0] * n) + bx[:w - n]
    return tuple((t, i) for i in range(w))

def mkbits(w, b):
    b = tuple(b)
    allc = True
    for x in b:
        if x != 0 and x != 1: allc = False; break
    if allc:
        v = 0
        for i, x in enumerate(b): v |= x << i
        return ('c', w, v)
    b0 = b[0]
    if b0 not in (0, 1) and b0[1] == 0 and b0[0][1] == w:
        x = b0[0]
        if all(b[i] == (x, i) for i in range(w)): return x
    s = as_shift(('bits', w, b))
    if s: return mklin(w, 0, {s[0]: 1 << s[1]})
    return ('bits', w, b)

def bitop(op, a, b):
    w = a[1]
    if isc(a) and isc(b):
        v = {'and': a[2] & b[2], 'or': a[2] | b[2], 'xor': a[2] ^ b[2]}[op]
        return ('c', w, v)
    if a == b:
        if op == 'xor': return C(0, w)
        return a
    if op == 'and' and isc(a): a, b = b, a
    if op == 'and' and isc(b) and bin(b[2]).count('1') <= 2 and a[0] == 'op' and a[2] in ('xor', 'or', 'and'):
        # a few bits of a wide operation
        return bitop(a[2], bitop('and', a[3], b), bitop('and', a[4], b))
    A, B = bits_of(a), bits_of(b)
    out = []; opq = None
    for i in range(w):
        x, y = A[i], B[i]
        if op == 'and':
            if x == 0 or y == 0 or opposite(x, y): r = 0
            elif x == 1: r = y
            elif y == 1 or x == y: r = x
            else: r = None
        elif op == 'or':
            if x == 1 or y == 1 or opposite(x, y): r = 1
            elif x == 0: r = y
            elif y == 0 or x == y: r = x
            else: r = None
        else:
            if x == 0: r = y
            elif y == 0: r = x
            elif x == y: r = 0
            elif x in (0, 1) and y in (0, 1): r = x ^ y
            elif opposite(x, y): r = 1
            elif xored(x, y) is not None: r = xored(x, y)
            elif xored(y, x) is not None: r = xored(y, x)
            elif x == 1: r = notbit(y)
            elif y == 1: r = notbit(x)
            else:
                r = None
        if r is None:
            if x not in (0, 1) and y not in (0, 1):
                kx, ky = sorted((x, y), key=lambda z: key(z))
                r = (('bop', 1, op, kx, ky), 0)
            else: r = (('bop', 1, op, x, y), 0)
        out.append(r)
    t = mkbits(w, out)
    nb = sum(1 for r in out if r not in (0, 1) and r[0][0] == 'bop')
    if nb > 2:
        x, y = sorted((a, b), key=key)
        return ('op', w, op, x, y)
    return t

def opposite(x, y): return x not in (0, 1) and y not in (0, 1) and (x[0][0] in ('bop', 'cmp') and notbit(x) == y or y[0][0] in ('bop', 'cmp') and notbit(y) == x)
def xored(x, y):
    """the other part if bit x is y combined with it"""
    if x in (0, 1) or y in (0, 1) or x[0][0] != 'bop' or x[0][2] != 'xor': return None
    return x[0][4] if x[0][3] == y else x[0][3] if x[0][4] == y else None
def notbit(x):
    if x[0][0] == 'bop' and x[0][2] == 'not': return x[0][3]
    if x[0][0] == 'cmp': return (notcmp(x[0]), 0)
    return (('bop', 1, 'not', x), 0)

INV = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}
def notcmp(t):
    if t[2] in INV: return ('cmp', 1, INV[t[2]], t[3], t[4])
    return ('cmp', 1, 'not', t, None)

def ext(t, w, signed):
    if t[1] == w: return t
    if isc(t): return C(sval(t) if signed else t[2], w)
    b = bits_of(t)
    top = b[-1] if signed else 0
    return mkbits(w, b + (top,) * (w - t[1]))

def trunc(t, w):
    if t[1] == w: return t
    if isc(t): return C(t[2], w)
    if t[0] in ('ptr', 'fn'): return ('op', w, 'trunc', t)
    if t[0] == 'lin':   # truncation is linear
        d = {}; k = t[2]
        for x, c in t[3]:
            tx = trunc(x, w) if x[0] not in ('ptr', 'fn') else ('op', w, 'trunc', x)
            kk, dd = lin_parts(tx)
            k += kk * c
            for y, cy in dd.items(): d[y] = d.get(y, 0) + cy * c
        return mklin(w, k, d)
    return mkbits(w, bits_of(t)[:w])

def lshr(t, n):
    w = t[1]
    b = bits_of(t)
    return mkbits(w, b[n:] + (0,) * n)
def ashr_bits(t, n):
    b = bits_of(t)
    return mkbits(t[1], b[n:] + (b[-1],) * n)

def mentions(t, pred):
    """does the term contain a symbol satisfying pred"""
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x: continue
        if x[0] == 's' and len(x) == 3 and isinstance(x[2], str):
            if pred(x): return True
            continue
        st.extend(y for y in x if isinstance(y, tuple))
    return False

_symc = {}
def syms(t):
    r = _symc.get(t)
    if r is None:
        s = set(); st = [t]
        while st:
            x = st.pop()
            if not isinstance(x, tuple) or not x: continue
            if x[0] == 's' and len(x) == 3 and isinstance(x[2], str): s.add(x); continue
            st.extend(y for y in x if isinstance(y, tuple))
        r = frozenset(s); _symc[t] = r
        if len(_symc) > 400000: _symc.clear()
    return r
def regions_in(t):
    s = set(); st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x: continue
        if x[0] == 'ptr' and len(x) == 4: s.add(x[2])
        st.extend(y for y in x if isinstance(y, tuple))
    return s
def size(t):
    n = 0; st = [t]
    while st:
        x = st.pop(); n += 1
        if n > 400: return n
        st.extend(y for y in x if isinstance(y, tuple))
    return n

def show(t, depth=0):
    if depth > 6: return '..'
    k = t[0]
    if k == 'c':
        return str(sval(t)) if t[1] > 1 else str(t[2])
    if k == 's': return t[2]
    if k == 'lin':
        p = []
        for x, c in t[3]:
            c = tos(c, t[1]); s = show(x, depth + 1)
            p.append(s if c == 1 else '-' + s if c == -1 else '%d*%s' % (c, s))
        kk = tos(t[2], t[1])
        if kk: p.append(str(kk))
        return '(' + ' + '.join(p) + ')'
    if k == 'bits':
        runs = []; i = 0; b = t[2]
        while i < len(b):
            if b[i] in (0, 1):
                j = i
                while j + 1 < len(b) and b[j + 1] in (0, 1): j += 1
                v = sum(b[q] << q for q in range(i, j + 1))
                if v: runs.append(hex(v))
            else:
                x, n = b[i]; j = i
                while j + 1 < len(b) and b[j + 1] == (x, n + j + 1 - i): j += 1
                runs.append('%s[%d:%d]@%d' % (show(x, depth + 1), n, n + j - i, i))
            i = j + 1
        return '{' + '|'.join(runs) + '}'
    if k == 'ptr':
        o = show(t[3], depth + 1)
        return '&%s%s' % (t[2], '' if o == '0' else '+' + o)
    if k == 'fn': return '@' + t[2]
    if k == 'cmp':
        if t[2] == 'not': return '!' + show(t[3], depth + 1)
        return '(%s %s %s)' % (show(t[3], depth + 1), t[2], show(t[4], depth + 1))
    if k == 'bop':
        return '%s<%s>' % (t[2], ','.join('%s.%d' % (show(x[0], depth + 1), x[1]) if isinstance(x, tuple) and len(x) == 2 else str(x) for x in t[3:]))
    if k == 'op': return '%s(%s)' % (t[2], ', '.join(show(x, depth + 1) if isinstance(x, tuple) else str(x) for x in t[3:]))
    return str(t)

def evalt(t, env):
    """value of a term under an assignment of its symbols, or None"""
    k = t[0]
    if t in env: return env[t] & M[t[1]]
    if k == 'c': return t[2]
    if k == 's': return None
    w = t[1]; m = M[w]
    if k == 'lin':
        r = t[2]
        for x, c in t[3]:
            v = evalt(x, env)
            if v is None: return None
            r += v * c
        return r & m
    if k == 'bits':
        r = 0; memo = {}
        for i, b in enumerate(t[2]):
            if b in (0, 1): r |= b << i; continue
            if b[0] in memo: v = memo[b[0]]
            else:
                v = memo[b[0]] = evalt(b[0], env) if isinstance(b[0], tuple) and b[0] and b[0][0] in ('s', 'op', 'lin', 'bits', 'c', 'cmp') else None
            if v is None or not isinstance(b[1], int): return None
            r |= (v >> b[1] & 1) << i
        return r
    if k == 'cmp':
        a, b = evalt(t[3], env), evalt(t[4], env)
        if a is None or b is None: return None
        wa = t[3][1]; p = t[2]
        if p[0] == 's': a, b = tos(a, wa), tos(b, wa)
        return int({'eq': a == b, 'ne': a != b}.get(p, {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}.get(p[1:])))
    if k == 'op':
        a = [evalt(x, env) for x in t[3:] if isinstance(x, tuple)]
        if any(x is None for x in a): return None
        o = t[2]
        if o == 'mul': return a[0] * a[1] & m
        if o == 'ashr': return tos(a[0], w) >> a[1] & m if a[1] < w else None
        if o == 'lshr': return a[0] >> a[1] & m
        if o == 'shl': return a[0] << a[1] & m
        if o in ('and', 'or', 'xor'): return {'and': a[0] & a[1], 'or': a[0] | a[1], 'xor': a[0] ^ a[1]}[o]
        if o in ('sdiv', 'srem') and a[1]:
            x, y = tos(a[0], w), tos(a[1], w); q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            return (q if o == 'sdiv' else x - q * y) & m
        if o == 'udiv' and a[1]: return a[0] // a[1]
        if o == 'urem' and a[1]: return a[0] % a[1]
    return None
