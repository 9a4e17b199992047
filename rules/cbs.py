"""User callbacks as observers: every indirect call records what the callee was
given, and answers it with fresh arbitrary values where the interface lets it."""
from objs import *

class Rec(dict):
    """hashable record; not changed once it is part of a trace"""
    def __hash__(s): return hash(tuple(sorted(s.items(), key=lambda x: x[0])))

class Callbacks(Hooks):
    """answers: event constant -> function(I, st, info rid, n) that fills in the answer of the n-th call"""
    def __init__(s, answer=None, bad=None, rets=()): s.answer, s.bad, s.rets = answer, bad, rets
    def icall(s, I, st, target, args, ins):
        info = None
        a = args[0] if args else None
        if a is not None and a[0] == 'ptr' and a[2] in st.mem and I.p.isa(st.mem[a[2]].type, 'BKCallbackInfo'):
            rid = a[2]
            info = Rec((f, I.getf(st, rid, f)) for f in ('object', 'event', 'nextTime', 'divider'))
            info['rid'] = rid
        n = sum(1 for e in st.events() if e[0] == 'called')
        ret = (C(s.rets[n], ins['w']) if n < len(s.rets) else I.nsym('answer%d.ret' % n, ins['w'])) if ins['w'] else None
        given = Rec(); loc = I.loc(ins); outs = [st]
        if info is not None and s.answer: outs = s.answer(I, st, info, n, given) or [st]
        for t in outs: t.ev(('called', target, tuple(args), info, ret, given, loc, n))
        return [(t, ret) for t in outs]
    def badderef(s, I, st, ptr, ins):
        st.ev(('null', I.loc(ins)))
        if s.bad: s.bad(I, st, ptr, ins)

def calls(st): return [e for e in st.events() if e[0] == 'called']

def cb(w, rid, path, name, func=True):
    """store an unknown callback (or none) in field `path` of object `rid`"""
    I = w.I
    f, u = I.nsym(name + '.func', 64), I.nsym(name + '.userInfo', 64)
    if func:
        w.st.assume_ne(f, NULL); w.set(rid, path + '.func', f)
    else: w.set(rid, path + '.func', None)
    w.set(rid, path + '.userInfo', u)
    return f, u

def split(st, conds):
    """states in which every condition of `conds` is decided; [(state, (bool,...))]"""
    outs = [(st, ())]
    for c in conds:
        nx = []
        for t, b in outs:
            v = t.truth(c)
            if v is not None: nx.append((t, b + (v,))); continue
            for val in (True, False):
                n = t.fork()
                try: n.assume(c, val)
                except Infeasible: continue
                nx.append((n, b + (val,)))
        outs = nx
    return outs
def cmp(p, a, b): return ('cmp', 1, p, a, b)
def eq(st, a, b): return a == b or st.equal(a, b) is True
