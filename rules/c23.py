"""C23: time arithmetic is exact, and nowhere is a time cut to a narrower type."""
import os, re, tempfile, shutil
from objs import *
from cbs import eq, cmp, split, Callbacks
from report import Report
import c25, ir

UNIT = 20
A, B, F, N = 'a', 'b', 'f', 'n'
# helper -> (parameters, kind of result)
HELP = {'BKTimeMake': ('nf', 'T'), 'BKTimeGetTime': ('a', 'n'), 'BKTimeGetFrac': ('a', 'f'), 'BKTimeGetFUInt20': ('a', 'f'),
        'BKTimeAdd': ('ab', 'T'), 'BKTimeAddFUInt20': ('af', 'T'), 'BKTimeSub': ('ab', 'T'), 'BKTimeSubFUInt20': ('af', 'T'),
        'BKTimeIsEqual': ('ab', 'n'), 'BKTimeIsGreater': ('ab', 'n'), 'BKTimeIsGreaterFUInt20': ('af', 'n'), 'BKTimeIsGreaterEqual': ('ab', 'n'),
        'BKTimeIsLess': ('ab', 'n'), 'BKTimeIsLessFUInt20': ('af', 'n'), 'BKTimeIsLessEqual': ('ab', 'n')}
PRED = {'BKTimeIsEqual': 'eq', 'BKTimeIsGreater': 'sgt', 'BKTimeIsGreaterFUInt20': 'sgt', 'BKTimeIsGreaterEqual': 'sge',
        'BKTimeIsLess': 'slt', 'BKTimeIsLessFUInt20': 'slt', 'BKTimeIsLessEqual': 'sle'}

def helpers():
    """names of the time helpers the header still defines"""
    t = open(os.path.join(ir.REPO, 'src', 'BKTime.h')).read()
    return [h for h in HELP if re.search(r'\b%s\s*\(' % h, t)]

def stub():
    """program holding only the time helpers, behind wrappers that take times by reference"""
    d = tempfile.mkdtemp(prefix='bktime')
    try:
        ty = {'a': 'BKTime *', 'b': 'BKTime *', 'f': 'BKFUInt20 ', 'n': 'BKInt '}
        out = ['#include <stdint.h>', '#include <stddef.h>']
        out += ['#include "BKBase.h"', '#include "BKTime.h"']
        for h in helpers():
            ps, r = HELP[h]
            args = ', '.join(ty[p] + p for p in ps); use = ', '.join(('*' if p in 'ab' else '') + p for p in ps)
            if r == 'T': out.append('void bkv_%s (BKTime * r, %s) { *r = %s (%s); }' % (h, args, h, use))
            else: out.append('%sbkv_%s (%s) { return %s (%s); }' % (ty[r], h, args, h, use))
        f = os.path.join(d, 'time.c')
        open(f, 'w').write('\n'.join(out) + '\n')
        return ir.load(extra=[f], only=True)
    finally: shutil.rmtree(d, ignore_errors=True)

def world(p, h):
    w = World(p); w.I.MAXRET = 64
    ps, r = HELP[h]; v = {}; args = []
    if r == 'T': w.raw('r', 8); args.append('r')
    for q in ps:
        if q in 'ab':
            v[q] = w.I.nsym(q, 64); w.raw(q, 8); w.st.w(q).cells[0] = (8, v[q]); args.append(q)
        else: v[q] = w.I.nsym(q, 32); args.append(v[q])
    return w, v, args

def loc(p, h):
    for n, f in p.funcs.items():
        if n == h and not f.decl: return '%s:%d %s' % (f.file, f.line, h)
    return h

def sx(t): return ext(t, 64, True)
def zx(t): return ext(t, 64, False)

def timehelpers(rep):
    p = stub()
    for h in helpers():
        w, v, args = world(p, h); I = w.I
        a, b, f, n = (v.get(k) for k in 'abfn')
        res = lambda st: I.rd(st, 'r', C(0, 64), 8)
        # the ranges in which the exact result is a value of the result type
        if h in ('BKTimeAdd', 'BKTimeSub'):
            for t in (a, b): w.st.set_s(t, -(1 << 62), (1 << 62) - 1)
        if h in ('BKTimeAddFUInt20', 'BKTimeSubFUInt20'): w.st.set_s(a, -(1 << 62), (1 << 62) - 1)
        if h == 'BKTimeGetTime': w.st.set_s(a, -(1 << 51), (1 << 51) - 1)
        if h == 'BKTimeGetFUInt20': w.st.set_s(a, 0, (1 << 32) - 1)
        want = {'BKTimeMake': lambda: add(mulc(sx(n), 1 << UNIT), zx(f)), 'BKTimeAdd': lambda: add(a, b), 'BKTimeSub': lambda: sub(a, b),
                'BKTimeAddFUInt20': lambda: add(a, zx(f)), 'BKTimeSubFUInt20': lambda: sub(a, zx(f))}
        outs = w.run('bkv_' + h, *args)
        rep.ob('time-exact', bool(outs), h, loc(p, h), 'does not return')
        for st, ret in outs:
            m = None
            if h in want:
                e = want[h]()
                if not eq(st, res(st), e): m = 'result is %s, exact is %s' % (show(res(st)), show(e))
            elif h in PRED: m = compare(I, st, ret, cmp(PRED[h], a, b if b is not None else zx(f)))
            else:
                # recompose the value from the part(s) returned
                m = piece(I, st, h, a, ret)
            rep.ob('time-exact', m is None, h, loc(p, h), m or '')
        rep.funcs |= {h}

def compare(I, st, ret, c):
    for t, (want,) in split(st, [c]):
        for u, (got,) in split(t, [cmp('ne', ret, C(0, 32))]):
            if got != want: return 'answers %s although the comparison %s is %s' % ('true' if got else 'false', show(c), 'true' if want else 'false')
    return None

def piece(I, st, h, a, ret):
    if h == 'BKTimeGetFUInt20':
        return None if eq(st, zx(ret), a) or eq(st, I.widen(st, ret, 64, False), a) else 'result is %s' % show(ret)
    if h == 'BKTimeGetFrac': want = [mkbits(32, bits_of(a)[:UNIT] + (0,) * (32 - UNIT))]
    else: want = [mkbits(32, bits_of(a)[UNIT:UNIT + 32]), I.narrow(st, I.binop(st, 'ashr', a, C(UNIT, 64), 64), 32)]
    return None if any(eq(st, ret, x) for x in want) else 'result is %s' % show(ret)

class Cuts(Callbacks):
    """every truncation of a 64 bit value in the clock code keeps the value"""
    def __init__(s, *a): super().__init__(*a); s.bad = []; s.n = 0; s.ends = 0
    def reach(s, st, a): s.ends += 1; return []
    def trunc(s, I, st, ins, a, r):
        if a[0] == 'ptr' or ins['w'] not in (32, 16, 8): return
        src = ins['ops'][0].get('w')
        if src != 64: return
        s.n += 1
        lo, hi = st.rng(a)
        if ins['w'] == 8: return
        if not (0 <= lo and hi < 1 << ins['w'] or -(1 << ins['w'] - 1) <= lo and hi < 1 << ins['w'] - 1):
            s.bad.append('%s: %s (between %d and %d) is cut to %d bits' % (I.loc(ins), show(a), lo, hi, ins['w']))

def cuts(rep, tier):
    for n in (0, 1, 2):
        h = Cuts(c25.answer(True)); w, T, D, cl = c25.wctx(n, hooks=h)
        one(rep, w, h, 'BKContextRun, %d clocks' % n, 'BKContextRun', 'c', add(D, C(1, 32)))
    for n in (0, 1):
        h = Cuts(c25.answer(True)); w, T, D, cl = c25.wctx(n, hooks=h)
        w.set('c', 'deltaTime', C(0, 32))
        # one stretch from an arbitrary time: the path ends where the stretch is generated
        w.I.summaries['BKContextEnd'] = lambda I, st, a, ins: h.reach(st, a)
        one(rep, w, h, 'BKContextGenerateToTime, %d clocks' % n, 'BKContextGenerateToTime', 'c', w.I.nsym('end', 64, 0, c25.TMAX), w.I.nsym('write', 64), None)

def one(rep, w, h, inst, fn, *args):
    outs = w.run(fn, *args)
    f = w.p.fn(fn)
    rep.ob('time-not-cut', bool(outs) or h.ends > 0, inst, '%s:%d %s' % (f.file, f.line, fn), 'does not return')
    for b in h.bad[:3]: rep.ob('time-not-cut', False, inst + ' ' + b.split(':')[0], b.split(': ')[0], b)
    for _ in range(h.n - len(h.bad)): rep.ob('time-not-cut', True, inst, fn)
    rep.funcs |= w.I.visited_fn

def check(rep):
    timehelpers(rep); cuts(rep, rep.tier)
    rep.need('time-exact', 12); rep.need('time-not-cut', 6)
    return rep.finish('other', 'Every time helper is interpreted with arbitrary operands: the symbolic result must equal the exact 64-bit expression, and a comparison must agree with the exact comparison on both sides. In the stepping code every truncation of a 64-bit time, from any context state that can occur, must keep the value.', program())
