"""The intrusive lists of BlipKit: builders of well-formed lists and the
well-formedness walk used by C01, C02 and C03."""
from world import *

# name: container struct, head, tail, member struct, prev, next, owner
LISTS = {
    'unit':   ('BKContext', 'firstUnit', 'lastUnit', 'BKUnit', 'prevUnit', 'nextUnit', 'ctx'),
    'clock':  ('BKContext', 'firstClock', 'lastClock', 'BKClock', 'prevClock', 'nextClock', 'ctx'),
    'effect': ('BKContext', 'effectDividers.firstDivider', 'effectDividers.lastDivider', 'BKDivider', 'prevDivider', 'nextDivider', 'group'),
    'beat':   ('BKContext', 'beatDividers.firstDivider', 'beatDividers.lastDivider', 'BKDivider', 'prevDivider', 'nextDivider', 'group'),
    'cdiv':   ('BKClock', 'dividers.firstDivider', 'dividers.lastDivider', 'BKDivider', 'prevDivider', 'nextDivider', 'group'),
    'data':   ('BKData', 'stateList', None, 'BKDataState', None, 'nextState', 'data'),
    'instr':  ('BKInstrument', 'stateList', None, 'BKInstrumentState', 'prevState', 'nextState', 'instrument'),
}

class L:
    """one list of one container: (rid of container, base offset) + members as (rid, base offset)"""
    def __init__(s, w, kind, rid, base=0):
        s.w, s.kind, s.rid, s.base = w, kind, rid, base
        ct, h, t, mt, p, n, o = LISTS[kind]
        off = lambda ty, f: w.off(ty, f)
        s.head = base + off(ct, h); s.tail = base + off(ct, t) if t else None
        s.prev = off(mt, p) if p else None; s.next = off(mt, n); s.owner = off(mt, o)
        s.own = ('ptr', 64, rid, C(s.head if kind in ('effect', 'beat', 'cdiv') else base, 64))
    def build(s, members):
        """make the list contain exactly `members`, in order"""
        w = s.w
        def put(rid, off, v):
            w.st.w(rid).cells[off] = (8, v); w.st.memo = {}
        ptr = lambda m: P(m[0], m[1]) if m else NULL
        put(s.rid, s.head, ptr(members[0] if members else None))
        if s.tail is not None: put(s.rid, s.tail, ptr(members[-1] if members else None))
        for i, m in enumerate(members):
            put(m[0], m[1] + s.next, ptr(members[i + 1] if i + 1 < len(members) else None))
            if s.prev is not None: put(m[0], m[1] + s.prev, ptr(members[i - 1] if i else None))
            put(m[0], m[1] + s.owner, s.own)
    def rd(s, st, rid, off): return st.simp(s.w.I.rd(st, rid, C(off, 64), 8))
    def follow(s, st, p):
        if p == NULL or st.const(p) == 0: return None
        if p[0] == 'ptr' and st.const(p[3]) is not None: return (p[2], st.const(p[3]))
        return ('?', show(p))
    def walk(s, st, back=False, limit=12):
        """members reached from the head (or the tail); an error text instead when the chain is broken"""
        out = []; cur = s.follow(st, s.rd(st, s.rid, s.tail if back else s.head))
        while cur is not None:
            if cur[0] == '?': return 'link to %s' % cur[1]
            if cur[0] not in st.mem or st.mem[cur[0]].freed: return 'link to released object %s' % cur[0]
            if cur in out: return 'cycle at %s after %s' % (nm(cur), names(out))
            out.append(cur)
            if len(out) > limit: return 'endless'
            cur = s.follow(st, s.rd(st, cur[0], cur[1] + (s.prev if back else s.next)))
        return out
    def owner_of(s, st, m): return s.rd(st, m[0], m[1] + s.owner)
    def check(s, st, want, ordered=True):
        """None or a message when the list in `st` does not hold exactly `want`"""
        f = s.walk(st)
        if isinstance(f, str): return '%s list of %s: %s' % (s.kind, s.rid, f)
        if (f != want) if ordered else (sorted(f) != sorted(want)):
            return '%s list of %s holds [%s], expected [%s]' % (s.kind, s.rid, names(f), names(want))
        if s.tail is not None:
            b = s.walk(st, True)
            if isinstance(b, str): return '%s list of %s from its end: %s' % (s.kind, s.rid, b)
            if b[::-1] != f: return '%s list of %s reads [%s] from its start but [%s] from its end' % (s.kind, s.rid, names(f), names(b[::-1]))
        elif s.prev is not None:
            for i, m in enumerate(f):
                p = s.follow(st, s.rd(st, m[0], m[1] + s.prev))
                if p != (f[i - 1] if i else None): return '%s list of %s: back link of %s leads to %s' % (s.kind, s.rid, nm(m), nm(p))
        for m in f:
            if s.owner_of(st, m) != s.own: return '%s %s is listed by %s but does not know it (%s)' % (s.kind, nm(m), s.rid, show(s.owner_of(st, m)))
        return None
    def unowned(s, st, m):
        o = s.owner_of(st, m)
        if o == NULL or st.const(o) == 0: return None
        return '%s %s still points to its container (%s)' % (s.kind, nm(m), show(o))

def nm(m):
    if m is None: return 'NULL'
    return m[0] if m[1] in (0, None) else '%s+%s' % m
def names(l): return ', '.join(nm(m) for m in l)

def retname(w, st, ret):
    if ret is None: return 'void'
    c = st.const(ret)
    if c is None:
        lo, hi = st.rng(ret); return '%d..%d' % (lo, hi)
    return str(tos(c, ret[1]))

def ok(st, ret):
    """does the call report success (None: cannot tell)"""
    if ret is None: return True
    lo, hi = st.rng(ret)
    if lo >= 0: return True
    if hi < 0: return False
    return None
