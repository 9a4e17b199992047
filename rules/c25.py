"""C25: dividers fire on their first tick and then on every N-th, in attach
order; clocks advance to their next time by their period."""
from cbs import *
from report import Report

INTMAX = (1 << 31) - 1
TMAX = 1 << 58

def clampdiv(st, n):
    """[(state, expected stored divider)] of a requested value"""
    out = []
    for t, (z, big) in split(st, [cmp('eq', n, C(0, 32)), cmp('ugt', n, C(INTMAX, 32))]):
        out.append((t, C(1, 32) if z else C(INTMAX, 32) if big else n))
    return out

def divider(w, rid, i, func):
    """divider in any state a sequence of ticks can leave it in; returns (func, userInfo, N, c)"""
    f, u = cb(w, rid, 'callback', rid, func)
    n = w.I.nsym(rid + '.N', 32, 1, INTMAX); c = w.I.nsym(rid + '.c', 32, 0, INTMAX - 1)
    w.st.add_diff(c, n, 'S', -1); w.st.add_diff(c, n, 'U', -1)
    w.set(rid, 'divider', n); w.set(rid, 'counter', c)
    return f, u, n, c

def answer(which):
    def fn(I, st, info, n, given):
        e = st.const(info['event'])
        rid = info['rid']
        if e == I.p.enum('BK_EVENT_DIVIDER'):
            a = I.nsym('answer%d.divider' % n, 32); I.setf(st, rid, 'divider', a); given['divider'] = a
        elif e == I.p.enum('BK_EVENT_CLOCK') and which:
            a = I.nsym('answer%d.nextTime' % n, 64, -TMAX, TMAX); I.setf(st, rid, 'nextTime', a); given['nextTime'] = a
        return None
    return fn

def expect_dividers(w, st, ds, evs, obj):
    """check the recorded calls and the counters of dividers `ds` = [(rid, func?, f, u, n, c)] in one exit state; None or message"""
    i = 0
    for rid, has, f, u, n, c in ds:
        z = st.truth(cmp('eq', c, C(0, 32)))
        if z is None:
            # tick that does not look at the counter: any path must be right for both
            outs = [expect_dividers(w, t, ds, evs, obj) for t, _ in split(st, [cmp('eq', c, C(0, 32))])]
            return next((m for m in outs if m), None)
        newn = [(st, n)]
        if z and has:
            if i >= len(evs): return 'divider %s is due but its callback is not called' % rid
            e = evs[i]; i += 1
            if not eq(st, e[1], f): return 'divider %s is due but %s is called' % (rid, show(e[1]))
            if len(e[2]) < 2 or not eq(st, e[2][1], u): return 'the callback of %s does not get its own user pointer' % rid
            inf = e[3]
            if inf is None or st.const(inf['event']) != w.enum('BK_EVENT_DIVIDER'): return 'the callback of %s does not get the divider event' % rid
            if not eq(st, inf['divider'], n): return 'the callback of %s is told divider %s instead of %s' % (rid, show(inf['divider']), show(n))
            if obj is not None and not eq(st, inf['object'], P(obj)): return 'the callback of %s gets object %s' % (rid, show(inf['object']))
            newn = clampdiv(st, e[5].get('divider', inf['divider']))
        for t, nn in newn:
            gn, gc = field(w, t, rid, 'divider'), field(w, t, rid, 'counter')
            if not eq(t, gn, nn): return '%s: divider becomes %s, expected %s' % (rid, show(gn), show(nn))
            wc = sub(nn, C(1, 32)) if z else sub(c, C(1, 32))
            if not eq(t, gc, wc): return '%s: counter becomes %s, expected %s' % (rid, show(gc), show(wc))
    if i != len(evs): return 'an extra callback is made: %s' % show(evs[i][1])
    return None

def where(w, fn): f = w.p.fn(fn); return '%s:%d %s' % (f.file, f.line, fn)

def run(rep, w, rule, inst, fn, args, judge):
    outs = w.run(fn, *args)
    rep.ob(rule, bool(outs), inst, where(w, fn), 'the call does not return')
    for st, ret in outs:
        m = judge(st, ret)
        if m is None and any(e[0] == 'null' for e in st.events()): m = 'an unset callback is called'
        rep.ob(rule, m is None, inst, where(w, fn), m or '', path=[str(e)[:120] for e in st.events()][-6:])
    rep.funcs |= w.I.visited_fn

def tick(rep, tier):
    """BKDividerTick over a group of dividers"""
    nmax = 3 if tier != 'quick' else 2
    for k in range(0, nmax + 1):
        for mask in range(1 << k):
            w = World(hooks=Callbacks(answer(False)))
            w.clock('k')
            ds = []
            for i in range(k):
                w.div('d%d' % i); has = bool(mask >> i & 1)
                ds.append(('d%d' % i, has) + divider(w, 'd%d' % i, i, has))
            L(w, 'cdiv', 'k').build([('d%d' % i, 0) for i in range(k)])
            w.new('info', 'BKCallbackInfo', ('sym', '')); w.set('info', 'object', 'k')
            run(rep, w, 'divider-tick', 'BKDividerTick with %d dividers, callbacks %s' % (k, bin(mask)), 'BKDividerTick', ('d0' if k else None, 'info'),
                lambda st, ret: expect_dividers(w, st, ds, calls(st), 'k'))

def values(rep):
    """initial and reset state of a divider"""
    for fn in ('BKDividerInit', 'BKDividerAlloc'):
        w = World(hooks=Callbacks()); n = w.I.nsym('count', 32)
        w.callback('cb')
        if fn == 'BKDividerInit': w.new('d', 'BKDivider')
        else: w.raw('out', 8)
        for c in ('cb', None):
            def judge(st, ret):
                if ok(st, ret) is False: return None if fn != 'BKDividerInit' else 'initialisation fails'
                r = 'd'
                if fn != 'BKDividerInit':
                    q = w.I.rd(st, 'out', C(0, 64), 8)
                    if q[0] != 'ptr': return 'no object is returned'
                    r = q[2]; st.w(r).type = w.p.struct('BKDivider'); st.memo = {}
                for t, want in clampdiv(st, n):
                    if not eq(t, field(w, t, r, 'divider'), want): return 'divider of a requested %s is %s' % (show(want), show(field(w, t, r, 'divider')))
                if st.const(field(w, st, r, 'counter')) != 0: return 'the first tick does not fire (counter %s)' % show(field(w, st, r, 'counter'))
                f, u = field(w, st, r, 'callback.func'), field(w, st, r, 'callback.userInfo')
                if c and not (eq(st, f, w.get('cb', 'func')) and eq(st, u, w.get('cb', 'userInfo'))): return 'the callback is not taken over'
                if not c and st.const(f) != 0: return 'an unset callback becomes %s' % show(f)
                return None
            run(rep, w, 'divider-start', '%s %s' % (fn, 'with callback' if c else 'without callback'), fn, ('d' if fn == 'BKDividerInit' else 'out', n, c), judge)
    w = World(hooks=Callbacks()); w.div('d'); d = ('d', True) + divider(w, 'd', 0, True)
    def judge(st, ret):
        if st.const(field(w, st, 'd', 'counter')) != 0: return 'counter is not cleared'
        if not eq(st, field(w, st, 'd', 'divider'), d[4]): return 'divider changes'
        return 'a callback is made' if calls(st) else None
    run(rep, w, 'divider-start', 'BKDividerReset', 'BKDividerReset', ('d',), judge)

def anytime(w, rid, T, N, period=True):
    w.set(rid, 'time', T); w.set(rid, 'nextTime', N)
    p = w.I.nsym(rid + '.period', 64, 1, 1 << 50); w.set(rid, 'period', p)
    c = w.I.nsym(rid + '.counter', 32); w.set(rid, 'counter', c)
    return p, c

def clocktick(rep, tier):
    for k in (0, 1, 2):
        for mask in range(1 << k):
            for has in (False, True):
                w = World(hooks=Callbacks(answer(True)))
                w.clock('k'); T = w.I.nsym('T', 64, 0, TMAX); N = w.I.nsym('N', 64, 0, TMAX)
                w.st.add_diff(T, N, 'S', 0); w.st.add_diff(T, N, 'U', 0)
                p, cnt = anytime(w, 'k', T, N)
                f, u = cb(w, 'k', 'callback', 'k', has)
                ds = []
                for i in range(k):
                    w.div('d%d' % i); h = bool(mask >> i & 1)
                    ds.append(('d%d' % i, h) + divider(w, 'd%d' % i, i, h))
                L(w, 'cdiv', 'k').build([('d%d' % i, 0) for i in range(k)])
                pre = w.st.fork()
                def judge(st0, ret):
                    for st, (due,) in split(st0, [cmp('eq', T, N)]):
                        ev = calls(st)
                        g = lambda x: field(w, st, 'k', x)
                        if not due:
                            if ev: return 'a callback is made before the clock is due'
                            ch = [c for c in diff_regions(w, pre, st)]
                            if ch: return 'a clock that is not due changes %s.%s' % ch[0][:2]
                            continue
                        asked = None
                        if has:
                            if not ev or not eq(st, ev[0][1], f): return 'the clock is due but its callback is not the first to be called'
                            e = ev[0]; ev = ev[1:]
                            if not eq(st, e[2][1], u): return 'the clock callback does not get its own user pointer'
                            if e[3] is None or st.const(e[3]['event']) != w.enum('BK_EVENT_CLOCK') or not eq(st, e[3]['object'], P('k')) or not eq(st, e[3]['nextTime'], T): return 'the clock callback gets a wrong event record'
                            asked = e[5].get('nextTime')
                        m = expect_dividers(w, st, ds, ev, 'k')
                        if m: return m
                        if not eq(st, g('counter'), add(cnt, C(1, 32))): return 'tick counter becomes %s' % show(g('counter'))
                        if not eq(st, g('time'), T): return 'ticking changes the time of the clock'
                        for t, (later,) in split(st, [cmp('sgt', asked, T) if asked is not None else FALSE]):
                            h = lambda x: field(w, t, 'k', x)
                            if later:
                                if not eq(t, h('nextTime'), asked): return 'the next time asked for by the callback is not honoured (%s)' % show(h('nextTime'))
                                if not eq(t, h('period'), sub(asked, T)): return 'the period does not follow the next time asked for (%s)' % show(h('period'))
                            else:
                                if not eq(t, h('nextTime'), add(T, p)): return 'the next tick is at %s instead of one period later' % show(h('nextTime'))
                                if not eq(t, h('period'), p): return 'the period changes to %s' % show(h('period'))
                    return None
                run(rep, w, 'clock-tick', 'BKClockTick, %s, %d dividers, callbacks %s' % ('callback' if has else 'no callback', k, bin(mask)), 'BKClockTick', ('k',), judge)

def master(rep):
    """the master clock ticks beat and effect dividers"""
    w = World(hooks=Callbacks(answer(True))); w.ctx('c', 2); w.st.trace = None
    T = w.I.nsym('T', 64, 0, TMAX); off = w.off('BKContext', 'masterClock')
    for f in ('time', 'nextTime'): w.set('c', 'masterClock.' + f, T)
    ds = []
    for i, kind in ((0, 'beat'), (1, 'beat'), (2, 'effect'), (3, 'effect')):
        w.div('d%d' % i); ds.append(('d%d' % i, True) + divider(w, 'd%d' % i, i, True))
    L(w, 'beat', 'c').build([('d0', 0), ('d1', 0)]); L(w, 'effect', 'c').build([('d2', 0), ('d3', 0)])
    run(rep, w, 'master-tick', 'BKClockTick of the master clock', 'BKClockTick', (P('c', off),), lambda st, ret: expect_dividers(w, st, ds, calls(st), None))

def wctx(n, hooks=None, cbs=False, T=None):
    """context in mid run with n clocks"""
    w = World(hooks=hooks or Callbacks(answer(True))); w.ctx('c', 1)
    T = T or w.I.nsym('T', 64, 0, TMAX); D = w.I.nsym('D', 32, 0, 1 << 28)
    w.set('c', 'currentTime', T); w.set('c', 'deltaTime', D); w.set('c', 'masterClock.period', w.I.nsym('c.period', 64, 1, 1 << 40))
    cl = []
    for i in range(n):
        r = 'k%d' % i; w.clock(r); N = w.I.nsym('N%d' % i, 64, 0, TMAX)
        w.st.add_diff(T, N, 'S', 0)
        p, c = anytime(w, r, T, N); cl.append((r, N, p, c) + cb(w, r, 'callback', r, cbs))
    L(w, 'clock', 'c').build([(x[0], 0) for x in cl])
    return w, T, D, cl

def intime(w, st, cl, T0=None):
    """every clock runs in context time and is not overdue"""
    now = field(w, st, 'c', 'currentTime')
    for r in cl:
        if not eq(st, field(w, st, r, 'time'), now): return '%s is at time %s while the context is at %s' % (r, show(field(w, st, r, 'time')), show(now))
        if st.truth(cmp('sge', field(w, st, r, 'nextTime'), now)) is not True: return '%s is overdue: next tick %s, now %s' % (r, show(field(w, st, r, 'nextTime')), show(now))
    return None

def advance(rep, tier):
    for n in (1, 2) if tier == 'quick' else (1, 2, 3):
        for cbs in (False, True) if n < 3 else (False,):
            w, T, D, cl = wctx(n, cbs=cbs)
            def judge(st, ret):
                now = field(w, st, 'c', 'currentTime'); d = field(w, st, 'c', 'deltaTime')
                adv = sub(now, T)
                lo, hi = st.rng(adv)
                if lo < 1 or hi > INTMAX: return 'one step of the clocks advances the time by %s (%d..%d)' % (show(adv), lo, hi)
                if not any(eq(st, sub(d, D), x) for x in (trunc(adv, 32), w.I.narrow(st, adv, 32))) and not eq(st, w.I.widen(st, sub(d, D), 64, False), adv): return 'context time and frame time advance differently: %s and %s' % (show(adv), show(sub(d, D)))
                m = intime(w, st, [x[0] for x in cl])
                if m: return m
                # the step ends exactly where the next clock is due, or it is the longest possible one
                if not any(eq(st, field(w, st, x[0], 'nextTime'), now) for x in cl) and st.truth(cmp('sge', adv, C(INTMAX // 3, 64))) is not True:
                    return 'the step ends at %s although no clock is due there' % show(now)
                # due clocks ticked exactly once, in order
                for t, due in split(st, [cmp('eq', x[1], T) for x in cl]):
                    want = [x for x, b in zip(cl, due) if b]
                    for x, b in zip(cl, due):
                        if not eq(t, field(w, t, x[0], 'counter'), add(x[3], C(1, 32)) if b else x[3]): return '%s %s but its counter becomes %s' % (x[0], 'is due once' if b else 'is not due', show(field(w, t, x[0], 'counter')))
                    if cbs and [e[1] for e in calls(t)] != [x[4] for x in want]: return 'clock callbacks made: %s' % [show(e[1]) for e in calls(t)]
                return None
            run(rep, w, 'clocks-advance', 'BKContextRun one step, %d clocks%s' % (n, ' with callbacks' if cbs else ''), 'BKContextRun', ('c', add(D, C(1, 32))), judge)
    # no clocks: time still passes
    w, T, D, cl = wctx(0); E = w.I.nsym('E', 32, 0, 1 << 29)
    def judge(st, ret):
        for t, (fwd,) in split(st, [cmp('ult', D, E)]):
            now = field(w, t, 'c', 'currentTime'); d = field(w, t, 'c', 'deltaTime')
            if not eq(t, d, E if fwd else D): return 'frame time becomes %s' % show(d)
            want = add(T, ext(sub(E, D), 64, False)) if fwd else T
            want2 = add(T, sub(ext(E, 64, False), ext(D, 64, False))) if fwd else T
            if not eq(t, now, want) and not eq(t, now, want2): return 'context time becomes %s' % show(now)
        return None
    run(rep, w, 'clocks-advance', 'BKContextRun without clocks', 'BKContextRun', ('c', E), judge)
    # a run that ends where it began does nothing
    w, T, D, cl = wctx(1); E = w.I.nsym('E', 32, 0, 1 << 29); w.st.add_diff(E, D, 'U', 0)
    pre = w.st.fork()
    run(rep, w, 'clocks-advance', 'BKContextRun into the past', 'BKContextRun', ('c', E),
        lambda st, ret: next(('%s.%s changes' % c[:2] for c in diff_regions(w, pre, st)), None))
    # ending a stretch keeps the time
    w, T, D, cl = wctx(1); E = w.I.nsym('E', 32, 0, 1 << 27); w.st.add_diff(E, D, 'U', 0)
    w.I.summaries['BKBufferShift'] = lambda I, st, args, ins: [(st, C(0, ins['w']) if ins['w'] else None)]
    def judge(st, ret):
        if not eq(st, field(w, st, 'c', 'currentTime'), T): return 'context time becomes %s' % show(field(w, st, 'c', 'currentTime'))
        if not eq(st, field(w, st, 'c', 'deltaTime'), sub(D, E)): return 'frame time becomes %s' % show(field(w, st, 'c', 'deltaTime'))
        return intime(w, st, ['k0'])
    run(rep, w, 'clocks-advance', 'BKContextEnd', 'BKContextEnd', ('c', E), judge)

def joining(rep):
    """clocks that join or restart while the context is running tick at once"""
    def fresh(w, st, r):
        t, n = field(w, st, r, 'time'), field(w, st, r, 'nextTime')
        if not eq(st, t, field(w, st, 'c', 'currentTime')): return '%s starts at time %s while the context is at %s' % (r, show(t), show(field(w, st, 'c', 'currentTime')))
        if not eq(st, t, n): return '%s does not tick at once' % r
        if st.const(field(w, st, r, 'counter')) != 0: return 'the counter of %s does not restart' % r
        return None
    for n in (0, 1, 2):
        w, T, D, cl = wctx(n); w.clock('x'); anytime(w, 'x', w.I.nsym('tx', 64), w.I.nsym('nx', 64)); w.div('d'); divider(w, 'd', 0, True)
        L(w, 'cdiv', 'x').build([('d', 0)])
        for before in [None] + [x[0] for x in cl]:
            def judge(st, ret):
                if st.const(ret) != 0: return 'attaching fails'
                if st.const(field(w, st, 'd', 'counter')) != 0: return 'the dividers of the clock do not restart'
                return fresh(w, st, 'x') or intime(w, st, [x[0] for x in cl])
            run(rep, w, 'clock-joins', 'BKClockAttach to %d clocks, %s' % (n, before), 'BKClockAttach', ('x', 'c', before), judge)
        if n:
            L(w, 'cdiv', 'k0').build([('d', 0)])
            def judge(st, ret):
                if st.const(field(w, st, 'd', 'counter')) != 0: return 'the dividers of the clock do not restart'
                return fresh(w, st, 'k0') or intime(w, st, [x[0] for x in cl])
            run(rep, w, 'clock-joins', 'BKClockReset of one of %d clocks' % n, 'BKClockReset', ('k0',), judge)
            def judge(st, ret):
                if st.const(field(w, st, 'c', 'currentTime')) != 0 or st.const(field(w, st, 'c', 'deltaTime')) != 0: return 'context time does not restart'
                return next((m for m in (fresh(w, st, x[0]) for x in cl) if m), None)
            run(rep, w, 'clock-joins', 'BKContextReset with %d clocks' % n, 'BKContextReset', ('c',), judge)
    # the master clock joins with the first divider
    for kind in ('BK_CLOCK_TYPE_EFFECT', 'BK_CLOCK_TYPE_BEAT'):
        for first in (True, False):
            w, T, D, cl = wctx(1); w.div('x'); divider(w, 'x', 0, True); w.div('y'); divider(w, 'y', 0, True)
            if not first:
                w.set('c', 'masterClock.time', T); w.set('c', 'masterClock.nextTime', add(T, C(5, 64)))
                L(w, 'clock', 'c').build([('c', w.off('BKContext', 'masterClock')), ('k0', 0)])
                L(w, 'effect' if 'EFFECT' in kind else 'beat', 'c').build([('y', 0)])
            def judge(st, ret):
                if st.const(ret) != 0: return 'attaching fails'
                m = L(w, 'effect' if 'EFFECT' in kind else 'beat', 'c').check(st, ([] if first else [('y', 0)]) + [('x', 0)])
                if m: return m
                cls = L(w, 'clock', 'c').walk(st)
                if isinstance(cls, str): return cls
                if ('c', w.off('BKContext', 'masterClock')) not in cls: return 'the master clock does not run'
                return intime(w, st, ['k0']) or (fresh(w, st, 'c') if False else None) or mtime(w, st)
            run(rep, w, 'clock-joins', 'BKContextAttachDivider %s, %s' % (kind, 'first' if first else 'second'), 'BKContextAttachDivider', ('c', 'x', w.enum(kind)), judge)
    # clocks of a reset inside a callback tick again at the same time
    class H(Callbacks):
        def icall(s, I, st, target, args, ins):
            n = len(calls(st))
            r = super().icall(I, st, target, args, ins)
            if n == 0 and target == ('s', 64, 'k1.func'):
                out = []
                for t, ret in r: out += [(u, ret) for u, _ in I.run('BKClockReset', [P('k0')], t)]
                return out
            return r
    w, T, D, cl = wctx(2, H(answer(False)), True); 
    w.set('k1', 'nextTime', T); w.st.assume(cmp('sgt', cl[0][1], T), True)
    def judge(st, ret):
        names_ = [e[1][2] for e in calls(st)]
        if names_ != ['k1.func', 'k0.func']: return 'callbacks made: %s' % names_
        if st.const(field(w, st, 'k0', 'counter')) != 1: return 'the reset clock does not tick at once'
        return intime(w, st, ['k0', 'k1'])
    run(rep, w, 'clock-joins', 'a clock callback resets another clock', 'BKContextRun', ('c', add(D, C(1, 32))), judge)

def mtime(w, st):
    if not eq(st, field(w, st, 'c', 'masterClock.time'), field(w, st, 'c', 'currentTime')): return 'the master clock is at time %s while the context is at %s' % (show(field(w, st, 'c', 'masterClock.time')), show(field(w, st, 'c', 'currentTime')))
    if st.truth(cmp('sge', field(w, st, 'c', 'masterClock.nextTime'), field(w, st, 'c', 'masterClock.time'))) is not True: return 'the master clock is overdue'
    return None

TD = (('BK_ARPEGGIO_DIVIDER', 'arpeggioDivider'), ('BK_EFFECT_DIVIDER', 'effectDivider'), ('BK_INSTRUMENT_DIVIDER', 'instrDivider'))
def trackdiv(rep):
    """the dividers inside a track"""
    p = program()
    # settings: at least 1, restart at once
    for a, f in TD:
        w = rich('track', 'attached', hooks=Callbacks()); v = w.I.nsym('value', 32)
        def judge(st, ret):
            if st.const(ret) != 0: return 'setting fails'
            for t, (pos,) in split(st, [cmp('sge', v, C(1, 32))]):
                if not eq(t, field(w, t, 'o', f + '.divider'), v if pos else C(1, 32)): return 'divider of %s becomes %s' % ('a positive value' if pos else 'a value below 1', show(field(w, t, 'o', f + '.divider')))
            if st.const(field(w, st, 'o', f + '.counter')) != 0: return 'does not restart'
            return None
        run(rep, w, 'track-divider', 'BKTrackSetAttr %s' % a, 'BKTrackSetAttr', ('o', w.enum(a), v), judge)
    # ticking: the divider state advances by one on each tick while its part is active
    tick = slot_tick(p)
    seen = {}
    for flag, f in (('BKArpeggioFlag', 'arpeggioDivider'), ('BKVolumeSlideFlag', 'effectDivider'), ('BKInstrumentFlag', 'instrDivider')):
        for on in (True, False):
            w = rich('track', 'attached', hooks=Callbacks())
            w.I.summaries['BKTrackUpdateUnit'] = None; del w.I.summaries['BKTrackUpdateUnit']
            fl = w.enum(flag) if on else 0
            w.set('o', 'flags', C(fl, 32))
            if flag == 'BKInstrumentFlag' and on:
                w.raw('vals', 16); w.call('BKInstrumentSetSequence', 'i', 0, 'vals', 4, 1, 2)
                L(w, 'instr', 'i').build([('o', w.off('BKTrack', 'instrState'))])
            n = w.I.nsym('N', 32, 1, INTMAX); c = w.I.nsym('c', 32, 0, INTMAX - 1)
            w.st.add_diff(c, n, 'S', -1); w.st.add_diff(c, n, 'U', -1)
            w.set('o', f + '.divider', n); w.set('o', f + '.counter', c)
            if flag == 'BKArpeggioFlag':
                w.set('o', 'arpeggio.count', 4); w.set('o', 'arpeggio.offset', 2)
            def judge(st, ret):
                for t, (due,) in split(st, [cmp('eq', c, C(0, 32))]):
                    g = field(w, t, 'o', f + '.counter')
                    if not eq(t, field(w, t, 'o', f + '.divider'), n): return 'the divider changes'
                    if not on: want = c
                    else: want = sub(n, C(1, 32)) if due else sub(c, C(1, 32))
                    if not eq(t, g, want): return '%s counter becomes %s, expected %s' % ('due' if due else 'not due', show(g), show(want))
                    if flag == 'BKArpeggioFlag' and t.const(field(w, t, 'o', 'arpeggio.offset')) != (3 if on and due else 2): return 'the arpeggio is at step %s' % show(field(w, t, 'o', 'arpeggio.offset'))
                return None
            run(rep, w, 'track-divider', 'tick of a track, %s %s' % (f, 'active' if on else 'inactive'), tick, (None, 'o'), judge)

def slot_tick(p):
    """function a track registers as callback of its own divider"""
    w = World(); w.track('t'); v = w.get('t', 'divider.callback.func')
    if v[0] != 'fn': raise AnalysisBroken('a track registers no divider callback')
    return v[2]

PARTS = [('tick', tick), ('values', lambda r, t: values(r)), ('clocktick', clocktick), ('master', lambda r, t: master(r)), ('advance', advance), ('joining', lambda r, t: joining(r)), ('trackdiv', lambda r, t: trackdiv(r))]
def part(i):
    r = Report('C25', i[1]); dict(PARTS)[i[0]](r, i[1]); return r

def check(rep):
    for r in presults(part, [(n, rep.tier) for n, _ in PARTS]): rep.merge(r)
    rep.need('divider-tick', 12); rep.need('clock-tick', 20); rep.need('clocks-advance', 8); rep.need('clock-joins', 10); rep.need('track-divider', 9); rep.need('master-tick', 2)
    return rep.finish('other', 'One tick is interpreted from every state ticks can lead to (counter below the divider, arbitrary times, arbitrary answers), so the count to N follows by induction: due callbacks are made once, in attach order, with their own record, and counters and next times become exactly what the rule says. One step of all clocks from every in-time state must end in an in-time state where a clock is due; joining and restarting clocks must enter that state.', program())
