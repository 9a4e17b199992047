"""C04: blocks of the library are released exactly once, memory of the caller never."""
from mem import *

def job(a):
    kind, v, i, tier = a; op = getop(kind, i)
    rep = Report('C04', tier); h = Mem()
    w = world(kind, v, op, h, tier)
    pre, fn, outs = O.go(w, op)
    inst = '%s (%s) %s' % (kind, v, op.label); at = where(w.p, fn)
    disposes = {'o'} if fn == 'BKDispose' else set()
    for st, ret in outs:
        bad = ok(st, ret) is False
        dead = set(disposes)
        if bad and kind == 'new': dead.add('cp')          # an object whose construction failed is none
        l = lost(st, dead, ret)
        rep.ob('nothing-lost', not l, inst, at, '%s is neither released nor reachable after %s' % (', '.join(map(nmr, l)), 'a call that returns %s' % retname(w, st, ret) if ret is not None else 'the call'))
        d = dangling(st, dead)
        rep.ob('nothing-dangling', not d, inst, at, d and '%s still points to %s after its release' % (cell(w, st, d[0]), nmr(d[0][2])))
        for r in datas(w, st):
            if r in dead: continue
            m = frameowner(w, st, r)
            rep.ob('frames-owner', m is None, '%s %s' % (inst, r), at, m or '')
    for (k, loc), m in h.bad.items():
        if k != 'null': rep.ob({'release': 'releases-own', 'use': 'not-used-after-release'}[k], False, '%s at %s' % (inst, loc), at, '%s: %s' % (loc, m), key='%s/%s' % (k, loc))
    rep.ob('releases-own', True, inst, at); rep.ob('not-used-after-release', True, inst, at)
    rep.count('operations'); rep.count('outcomes', len(outs))
    rep.funcs |= w.I.visited_fn
    return rep

def cell(w, st, d):
    o = st.mem[d[0]]
    return '%s.%s' % (nmr(d[0]), w.p.leaf(o.type, d[1])[0] if o.type is not None else '+%d' % d[1])

def life(a):
    """an object created by the library is released with its memory"""
    i, tier = a; op = [o for o in creators(program()) if o.fn.endswith('Alloc')][i]
    rep = Report('C04', tier); h = Mem(); w = world('new', '', op, h, tier, fail=False)
    pre, fn, outs = O.go(w, op); at = where(w.p, fn); n = 0
    for st, ret in outs:
        if ok(st, ret) is False: continue
        p = st.simp(w.I.rd(st, 'cp', C(0, 64), 8))
        if p[0] != 'ptr': rep.ob('delivers-object', False, fn, at, 'delivers %s' % show(p)); continue
        n += 1
        t = w.fork(); t.st = st
        for q, _ in t.run('BKDispose', p):
            left = sorted(r for r, o in q.mem.items() if r.startswith('heap') and not o.freed)
            rep.ob('nothing-lost', not left, '%s then BKDispose' % fn, at, '%s is not released' % ', '.join(map(nmr, left)))
    rep.ob('delivers-object', n > 0, fn, at, 'never succeeds')
    for (k, loc), m in h.bad.items():
        rep.ob({'release': 'releases-own', 'use': 'not-used-after-release', 'null': 'valid-pointers'}[k], False, '%s then BKDispose at %s' % (fn, loc), at, '%s: %s' % (loc, m), key='%s/%s' % (k, loc))
    rep.funcs |= w.I.visited_fn
    return rep

EXPL = ('Every operation of the library, including the construction, copying and disposal of objects, is analysed on objects in arbitrary states '
        '(frames borrowed or owned, sequences and envelopes, players, containers) with every allocation and every file operation allowed to fail. On every '
        'release the analysis decides that the block is one the library allocated, is whole and is still in use; on every access that its memory is; '
        'after every outcome that each block in use is still referred to by something alive (unless its owner was disposed of), that nothing alive '
        'refers to a released block, and that sample data is marked to release its frames exactly when the library allocated them. Every function '
        'containing an allocation or a release takes part.')
def check(rep):
    for r in presults(job, [j + (rep.tier,) for j in allops(rep.tier)]): rep.merge(r)
    for r in presults(life, [(i, rep.tier) for i in range(sum(o.fn.endswith('Alloc') for o in creators(program())))]): rep.merge(r)
    cover(rep, program())
    rep.need('nothing-lost', 900); rep.need('nothing-dangling', 900); rep.need('frames-owner', 400); rep.need('covered', 8)
    rep.assumptions += ['generating audio allocates and releases nothing (decided by C18)', 'heaps of one to three objects per kind']
    return rep.finish('other', EXPL, program())
