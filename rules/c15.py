"""C15: a failed allocation is reported and changes nothing."""
from mem import *

def job(a):
    kind, v, i, tier = a; op = getop(kind, i)
    rep = Report('C15', tier); h = Mem()
    w = world(kind, v, op, h, tier)
    w.I.io_fail = False
    pre, fn, outs = O.go(w, op)
    inst = '%s (%s) %s' % (kind, v, op.label); at = where(w.p, fn)
    allowed = {r for r in ('file', 'cp', 'out', '&ghost') if r in pre.mem}
    n = 0
    for st, ret in outs:
        if not nomem(st): continue
        n += 1
        rep.ob('reported', ret is not None and ok(st, ret) is False, inst, at, 'returns %s although no memory was available' % (show(ret) if ret is not None else 'nothing'))
        ch = changes(w, pre, st, allowed)
        rep.ob('unchanged', not ch, inst, at, '' if not ch else 'without memory, %s' % '; '.join(fx(c) for c in ch[:3]))
        dead = {'cp'} if kind == 'new' and not fn.endswith('Alloc') else set()
        l = lost(st, dead, ret)
        rep.ob('nothing-lost', not l, inst, at, '%s stays allocated' % ', '.join(map(nmr, l)))
        d = dangling(st, dead)
        rep.ob('nothing-dangling', not d, inst, at, d and '%s+%d still points to %s after its release' % (nmr(d[0][0]), d[0][1], nmr(d[0][2])))
        if 'cp' in pre.mem and fn.endswith('InitCopy'): partial(rep, w, st, inst, at)
        if fn.endswith('Alloc'):
            p = st.simp(w.I.rd(st, 'cp', C(0, 64), 8)); rep.ob('no-object', st.const(p) == 0 or p[0] == 's' and p[2].startswith('undef'), inst, at, 'delivers the object %s' % show(p))
    for (k, loc), m in h.bad.items():
        rep.ob({'release': 'releases-own', 'use': 'not-used-after-release', 'null': 'not-used'}[k], False, '%s at %s' % (inst, loc), at, '%s: %s' % (loc, m), key='%s/%s' % (k, loc))
    rep.ob('not-used', True, inst, at)
    rep.count('operations'); rep.count('operations that allocate', 1 if n else 0)
    rep.funcs |= w.I.visited_fn
    return rep

def partial(rep, w, st, inst, at):
    """a copy that could not be completed may be disposed of or forgotten; either way nothing is lost or released twice"""
    h = Mem(); I, w.I.h = w.I.h, h
    fa = w.I.fail_alloc; w.I.fail_alloc = False
    try:
        isa = st.simp(w.I.getf(st, 'cp', 'object.isa'))
        if isa[0] == 'ptr' or st.const(isa) == 0:
            t = w.fork(); t.st = st.fork()
            for q, _ in t.run('BKDispose', 'cp'):
                left = lost(q, {'cp'}); rep.ob('nothing-lost', not left, inst + ' disposed', at, '%s stays allocated after the incomplete copy is disposed of' % ', '.join(map(nmr, left)))
            rep.ob('releases-own', not h.bad, inst + ' disposed', at, 'disposing of the incomplete copy: %s' % list(h.bad.items())[:1])
        else: rep.ob('no-object', True, inst, at)
    finally: w.I.h, w.I.fail_alloc = I, fa

EXPL = ('Every operation of the library, including construction and copying, is analysed on objects in arbitrary states with every allocation allowed to '
        'fail. On every path with a failed allocation the call returns a negative status, no pointer that may be null is used, every object and block is '
        'as it was before the call, every block allocated on the way is released and none twice, no pointer to a released block remains, and no object is '
        'delivered. Every function containing an allocation takes part.')
def check(rep):
    for r in presults(job, [j + (rep.tier,) for j in allops(rep.tier)]): rep.merge(r)
    cover(rep, program())
    rep.need('reported', 60); rep.need('unchanged', 60); rep.need('covered', 8)
    return rep.finish('other', EXPL, program())
