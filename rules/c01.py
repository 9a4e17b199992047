"""C01: one attach/detach/replace operation on every shape of well-formed list
leaves a well-formed list with exactly the expected members."""
from lists import *
from report import Report

PAN = 'BKPanningEnabledFlag'

def flagsym(w, rid, clear=0):
    pass

def base(objs, scal=True):
    """objs: list of (rid, kind); every scalar arbitrary"""
    w = World()
    for rid, kind in objs:
        getattr(w, kind)(rid)
    if scal:
        for rid, kind in objs:
            keep = ()
            if kind == 'ctx': keep = ('numChannels', 'masterClock.callback', 'masterClock.object')
            if kind == 'track': keep = ('unit.waveform', 'waveform', 'unit.phase.count', 'unit.sample', 'instrState', 'divider.object', 'flags', 'note', 'volume', 'panning', 'tremolo', 'vibrato')
            if kind == 'unit': keep = ('waveform', 'phase.count', 'sample')
            if kind == 'data': keep = ('numFrames', 'numChannels')
            w.generalise(rid, keep=keep)
    return w

def anyflags(w, tr, attached):
    """arbitrary track flags; the panning flag belongs to attached tracks only"""
    pan = w.enum(PAN)
    s = ('s', 32, tr + '.flags')
    b = [(s, i) for i in range(32)]
    if not attached: b[pan.bit_length() - 1] = 0
    for n in ('BKInstrumentFlag', 'BKArpeggioFlag'): b[w.enum(n).bit_length() - 1] = 0
    w.set(tr, 'flags', mkbits(32, tuple(b)))

class Case:
    def __init__(s, rep): s.rep = rep
    def run(s, w, rule, inst, fn, args, expect):
        """expect(st, ret) -> None | message"""
        outs = w.run(fn, *args)
        w_ = w.p.fn(fn)
        if not outs:
            s.rep.ob(rule, False, inst, '%s:%d %s' % (w_.file, w_.line, fn), 'the operation does not return'); return
        for st, ret in outs:
            m = expect(st, ret)
            s.rep.ob(rule, m is None, inst, '%s:%d %s' % (w_.file, w_.line, fn), m or '', key='%s/%s' % (rule, inst),
                     path=[str(e) for e in st.events()][-8:])
        s.rep.funcs |= w.I.visited_fn

def simple(rep, kind, objkind, attach, detach, cont, contkind, nmax=3):
    """list with attach-at-end"""
    c = Case(rep)
    member = lambda i: ('m%d' % i, 0)
    for n in range(nmax + 1):
        ms = [member(i) for i in range(n)]
        def mk(extra=(), n=n, ms=ms):
            w = base([(cont, contkind), ('other', contkind)] + [('m%d' % i, objkind) for i in range(n)] + list(extra))
            l = L(w, kind, cont); l.build(ms)
            l2 = L(w, kind, 'other'); l2.build([])
            return w, l, l2
        # attach a fresh member (with stale neighbours from an earlier life)
        for stale in (0, 1):
            if stale and not n: continue
            w, l, l2 = mk([('x', objkind)])
            if objkind == 'track': anyflags(w, 'x', False)
            if stale:
                if l.prev is not None: w.st.w('x').cells[l.prev] = (8, P(ms[0][0]))
                w.st.w('x').cells[l.next] = (8, P(ms[-1][0]))
            def exp(st, ret, l=l, l2=l2, ms=ms):
                if ret is not None and st.const(ret) != 0: return 'attaching a free member returns %s' % retname(w, st, ret)
                return l.check(st, ms + [('x', 0)]) or l2.check(st, [])
            fn, args = attach('x', cont)
            c.run(w, 'attach', '%s: %s onto %d members%s' % (fn, kind, n, ', stale neighbours' if stale else ''), fn, args, exp)
        # attach a member that is already attached (here or elsewhere)
        for where in (cont, 'other'):
            for i in range(n):
                w, l, l2 = mk()
                fn, args = attach('m%d' % i, where)
                def exp(st, ret, l=l, l2=l2, ms=ms):
                    return l.check(st, ms) or l2.check(st, [])
                c.run(w, 'attach-attached', '%s: member %d of %d to %s' % (fn, i, n, where), fn, args, exp)
        # detach each
        for i in range(n):
            w, l, l2 = mk()
            if objkind == 'track': anyflags(w, 'm%d' % i, True)
            fn, args = detach('m%d' % i)
            def exp(st, ret, l=l, l2=l2, ms=ms, i=i):
                return l.check(st, ms[:i] + ms[i + 1:]) or l2.check(st, []) or l.unowned(st, ms[i])
            c.run(w, 'detach', '%s: %s member %d of %d' % (fn, kind, i, n), fn, args, exp)
        # detach an unattached one
        w, l, l2 = mk([('x', objkind)])
        if objkind == 'track': anyflags(w, 'x', False)
        if n:
            if l.prev is not None: w.st.w('x').cells[l.prev] = (8, P(ms[0][0]))
            w.st.w('x').cells[l.next] = (8, P(ms[-1][0]))
        fn, args = detach('x')
        pre = w.st.fork()
        def exp(st, ret, w=w, pre=pre):
            d = diff_regions(w, pre, st)
            return 'detaching an unattached %s changes %s' % (kind, d[:3]) if d else None
        c.run(w, 'detach-unattached', '%s: next to %d members' % (fn, n), fn, args, exp)

def clocks(rep):
    c = Case(rep)
    for n in range(4):
        ms = [('m%d' % i, 0) for i in range(n)]
        def mk(extra=()):
            w = base([('c', 'ctx'), ('d', 'ctx'), ('f', 'clock')] + [('m%d' % i, 'clock') for i in range(n)] + [('x', 'clock')])
            l = L(w, 'clock', 'c'); l.build(ms); l2 = L(w, 'clock', 'd'); l2.build([('f', 0)])
            return w, l, l2
        FIRST = C((1 << 64) - 1, 64)
        for nm_, before, pos in [('NULL', None, n), ('first', FIRST, 0)] + [('m%d' % i, 'm%d' % i, i) for i in range(n)]:
            w, l, l2 = mk()
            def exp(st, ret, l=l, l2=l2, pos=pos, w=w):
                if st.const(ret) != 0: return 'attaching a free clock returns %s' % retname(w, st, ret)
                return l.check(st, ms[:pos] + [('x', 0)] + ms[pos:]) or l2.check(st, [('f', 0)])
            c.run(w, 'attach', 'BKClockAttach: before %s of %d' % (nm_, n), 'BKClockAttach', ('x', 'c', before), exp)
        # in front of a clock of another context / an unattached clock / itself
        for nm_, before in [('foreign', 'f'), ('free', 'y'), ('itself', 'x')]:
            w, l, l2 = mk()
            w.clock('y')
            def exp(st, ret, l=l, l2=l2, w=w):
                if ok(st, ret) is not False: return 'attaching in front of a clock that is not in this context returns %s' % retname(w, st, ret)
                return l.check(st, ms) or l2.check(st, [('f', 0)]) or l.unowned(st, ('x', 0))
            c.run(w, 'attach-refused', 'BKClockAttach: before %s clock, %d members' % (nm_, n), 'BKClockAttach', ('x', 'c', before), exp)
        for i in range(n):
            w, l, l2 = mk()
            def exp(st, ret, l=l, l2=l2): return l.check(st, ms) or l2.check(st, [('f', 0)])
            c.run(w, 'attach-attached', 'BKClockAttach: member %d of %d' % (i, n), 'BKClockAttach', ('m%d' % i, 'd', None), exp)
            w, l, l2 = mk()
            w2 = w
            def exp(st, ret, l=l, l2=l2, i=i): return l.check(st, ms[:i] + ms[i + 1:]) or l2.check(st, [('f', 0)]) or l.unowned(st, ms[i])
            c.run(w, 'detach', 'BKClockDetach: member %d of %d' % (i, n), 'BKClockDetach', ('m%d' % i,), exp)
        w, l, l2 = mk()
        def exp(st, ret, l=l, l2=l2): return l.check(st, ms) or l2.check(st, [('f', 0)]) or l.unowned(st, ('x', 0))
        c.run(w, 'detach-unattached', 'BKClockDetach: next to %d members' % n, 'BKClockDetach', ('x',), exp)

def ctxdividers(rep):
    """BKContextAttachDivider: divider at the end of its group, master clock in the clock list"""
    c = Case(rep)
    mco = None
    for typ, kind, oth in (('BK_CLOCK_TYPE_EFFECT', 'effect', 'beat'), ('BK_CLOCK_TYPE_BEAT', 'beat', 'effect')):
        for n in range(3):
            for master in (0, 1):
                for k in range(3):      # other clocks
                    w = base([('c', 'ctx')] + [('m%d' % i, 'div') for i in range(n)] + [('o', 'div'), ('x', 'div')] + [('k%d' % i, 'clock') for i in range(k)])
                    mc = ('c', w.off('BKContext', 'masterClock'))
                    l, lo, lc = L(w, kind, 'c'), L(w, oth, 'c'), L(w, 'clock', 'c')
                    ms = [('m%d' % i, 0) for i in range(n)]; ks = [('k%d' % i, 0) for i in range(k)]
                    if master: ks = [mc] + ks
                    l.build(ms); lo.build([('o', 0)]); lc.build(ks)
                    def exp(st, ret, w=w, l=l, lo=lo, lc=lc, ms=ms, ks=ks, master=master):
                        if ok(st, ret) is False:
                            if st.rng(w.I.getf(st, 'c', 'masterClock.period'))[1] > 0 and st.rng(w.I.getf(st, 'c', 'masterClock.period'))[0] > 0:
                                return 'a free divider is refused with %s' % retname(w, st, ret)
                            return l.check(st, ms) or lo.check(st, [('o', 0)])
                        wantc = ks if master else [mc] + ks
                        return l.check(st, ms + [('x', 0)]) or lo.check(st, [('o', 0)]) or lc.check(st, wantc)
                    c.run(w, 'attach', 'BKContextAttachDivider: %s group of %d, %d clocks%s' % (kind, n, k, ', master clock running' if master else ''),
                          'BKContextAttachDivider', ('c', 'x', w.enum(typ)), exp)

def tracks(rep):
    c = Case(rep)
    for n in range(3):
        for master in (0, 1):
            for k in range(2):
                def mk():
                    w = base([('c', 'ctx'), ('d', 'ctx')] + [('m%d' % i, 'track') for i in range(n)] + [('x', 'track')] + [('k%d' % i, 'clock') for i in range(k)])
                    # one channel or two
                    dv = w.off('BKTrack', 'divider'); mc = ('c', w.off('BKContext', 'masterClock'))
                    lu, le, lc = L(w, 'unit', 'c'), L(w, 'effect', 'c'), L(w, 'clock', 'c')
                    ms = [('m%d' % i, 0) for i in range(n)]; ds = [('m%d' % i, dv) for i in range(n)]
                    ks = [('k%d' % i, 0) for i in range(k)]
                    if master or n: ks = [mc] + ks
                    lu.build(ms); le.build(ds); lc.build(ks)
                    for i in range(n): anyflags(w, 'm%d' % i, True)
                    anyflags(w, 'x', False)
                    return w, lu, le, lc, ms, ds, ks, mc, dv
                w, lu, le, lc, ms, ds, ks, mc, dv = mk()
                def exp(st, ret):
                    if st.const(ret) != 0: return 'attaching a free track returns %s' % retname(w, st, ret)
                    # the master clock can only run with a positive period
                    return lu.check(st, ms + [('x', 0)]) or le.check(st, ds + [('x', dv)]) or lc.check(st, ks if mc in ks else [mc] + ks)
                w.set('c', 'masterClock.period', w.I.nsym('c.masterClock.period', 64, 1, (1 << 62)))
                c.run(w, 'attach', 'BKTrackAttach: onto %d tracks, %d other clocks%s' % (n, k, ', master clock running' if master or n else ''), 'BKTrackAttach', ('x', 'c'), exp)
                for i in range(n):
                    w, lu, le, lc, ms, ds, ks, mc, dv = mk()
                    def exp(st, ret, i=i):
                        return lu.check(st, ms) or le.check(st, ds)
                    c.run(w, 'attach-attached', 'BKTrackAttach: track %d of %d' % (i, n), 'BKTrackAttach', ('m%d' % i, 'd'), exp)
                    w, lu, le, lc, ms, ds, ks, mc, dv = mk()
                    def exp(st, ret, i=i):
                        return lu.check(st, ms[:i] + ms[i + 1:]) or le.check(st, ds[:i] + ds[i + 1:]) or lu.unowned(st, ms[i]) or le.unowned(st, ds[i])
                    c.run(w, 'detach', 'BKTrackDetach: track %d of %d' % (i, n), 'BKTrackDetach', ('m%d' % i,), exp)
                w, lu, le, lc, ms, ds, ks, mc, dv = mk()
                pre = w.st.fork()
                def exp(st, ret):
                    d = diff_regions(w, pre, st)
                    return 'detaching an unattached track changes %s' % d[:3] if d else None
                c.run(w, 'detach-unattached', 'BKTrackDetach: next to %d tracks' % n, 'BKTrackDetach', ('x',), exp)

def players(rep):
    """sample data <-> units and tracks"""
    c = Case(rep)
    for pk, fn_attr, fn_ptr in (('unit', 'BKUnitSetAttr', 'BKUnitSetPtr'), ('track', 'BKTrackSetAttr', 'BKTrackSetPtr')):
        pre_ = '' if pk == 'unit' else 'unit.'
        for n in range(4):
            def mk(member=None, wf='BK_SAMPLE'):
                w = base([('c', 'ctx')] + [('m%d' % i, pk) for i in range(n)] + [('x', pk)])
                for d in ('a', 'b'):
                    w.data(d); w.raw(d + '.fr', 1 << 20)
                    w.set(d, 'frames', d + '.fr'); w.set(d, 'numChannels', 1)
                    w.set(d, 'numFrames', w.I.nsym(d + '.n', 32, 2, 1000))
                so = w.off('BKUnit', 'sample.dataState') if pk == 'unit' else w.off('BKTrack', 'unit.sample.dataState')
                la, lb = L(w, 'data', 'a'), L(w, 'data', 'b')
                ms = [('m%d' % i, so) for i in range(n)]
                la.build(ms); lb.build([])
                L(w, 'unit', 'c').build([('m%d' % i, 0) for i in range(n)] + [('x', 0)])
                for i in range(n):
                    w.set('m%d' % i, pre_ + 'waveform', w.enum(wf))
                    if pk == 'track': w.set('m%d' % i, 'waveform', w.enum(wf))
                return w, la, lb, ms, so
            for attr in ('BK_SAMPLE', 'BK_WAVEFORM'):
                w, la, lb, ms, so = mk()
                def exp(st, ret):
                    if ok(st, ret) is False: return 'usable sample data is refused with %s' % retname(w, st, ret)
                    return la.check(st, ms + [('x', so)], False) or lb.check(st, [])
                c.run(w, 'player-start', '%s %s: %d players before' % (fn_ptr, attr, n), fn_ptr, ('x', w.enum(attr), 'a'), exp)
                for i in range(n):
                    w, la, lb, ms, so = mk()
                    def exp(st, ret, i=i):
                        if ok(st, ret) is False: return 'usable sample data is refused with %s' % retname(w, st, ret)
                        return la.check(st, ms[:i] + ms[i + 1:], False) or lb.check(st, [ms[i]], False)
                    c.run(w, 'player-switch', '%s %s: player %d of %d' % (fn_ptr, attr, i, n), fn_ptr, ('m%d' % i, w.enum(attr), 'b'), exp)
            for i in range(n):
                w, la, lb, ms, so = mk()
                def exp(st, ret, i=i):
                    return la.check(st, ms[:i] + ms[i + 1:], False) or la.unowned(st, ms[i])
                c.run(w, 'player-stop', '%s BK_SAMPLE NULL: player %d of %d' % (fn_ptr, i, n), fn_ptr, ('m%d' % i, w.enum('BK_SAMPLE'), None), exp)
                w, la, lb, ms, so = mk(wf='BK_CUSTOM')
                c.run(w, 'player-stop', '%s BK_SQUARE: player %d of %d' % (fn_attr, i, n), fn_attr, ('m%d' % i, w.enum('BK_WAVEFORM'), w.enum('BK_SQUARE')), exp)
    # notification with arbitrary players: each may drop out
    for n in range(5):
        w = World(); w.data('a'); w.raw('a.fr', 1 << 20); w.set('a', 'frames', 'a.fr'); w.set('a', 'numChannels', 1); w.set('a', 'numFrames', 16)
        w.raw('new', 1 << 20)
        la = L(w, 'data', 'a'); ms = []
        for i in range(n):
            w.new('p%d' % i, 'BKDataState', ('zero',))
            f = w.I.nsym('player%d' % i, 64); w.st.assume_ne(f, NULL); w.set('p%d' % i, 'callback', f)
            ms.append(('p%d' % i, 0))
        la.build(ms)
        def exp(st, ret):
            stay = [m for m in ms if la.owner_of(st, m) != NULL]
            cbs = [e for e in st.events() if e[0] == 'cb']
            if len(cbs) != n: return '%d of %d players were notified' % (len(cbs), n)
            return la.check(st, stay, False)
        c.run(w, 'notify', 'BKDataSetFrames with %d players, any of which may drop out' % n, 'BKDataSetFrames', ('a', 'new', 8, 1, 0), exp)

def instruments(rep):
    c = Case(rep)
    for n in range(4):
        def mk():
            w = base([('m%d' % i, 'track') for i in range(n)] + [('x', 'track')])
            w.instr('a'); w.instr('b')
            so = w.off('BKTrack', 'instrState')
            la, lb = L(w, 'instr', 'a'), L(w, 'instr', 'b')
            ms = [('m%d' % i, so) for i in range(n)]
            la.build(ms); lb.build([])
            for i in range(n):
                cur = w.get('m%d' % i, 'flags')
                w.set('m%d' % i, 'flags', C(w.enum('BKInstrumentFlag') | 0, 32))
            return w, la, lb, ms, so
        at = lambda w: w.enum('BK_INSTRUMENT')
        w, la, lb, ms, so = mk()
        def exp(st, ret): return la.check(st, ms + [('x', so)], False) or lb.check(st, [])
        c.run(w, 'player-start', 'BKTrackSetPtr BK_INSTRUMENT: %d players before' % n, 'BKTrackSetPtr', ('x', at(w), 'a'), exp)
        for i in range(n):
            for tgt in ('a', 'b', None):
                w, la, lb, ms, so = mk()
                def exp(st, ret, i=i, tgt=tgt):
                    rest = ms[:i] + ms[i + 1:]
                    r = la.check(st, ms if tgt == 'a' else rest, False) or lb.check(st, [ms[i]] if tgt == 'b' else [], False)
                    return r or (la.unowned(st, ms[i]) if tgt is None else None)
                c.run(w, 'player-switch' if tgt else 'player-stop', 'BKTrackSetPtr BK_INSTRUMENT %s: player %d of %d' % (tgt or 'NULL', i, n), 'BKTrackSetPtr', ('m%d' % i, at(w), tgt), exp)

JOBS = [
    lambda r: simple(r, 'unit', 'unit', lambda m, c: ('BKUnitAttach', (m, c)), lambda m: ('BKUnitDetach', (m,)), 'c', 'ctx'),
    lambda r: simple(r, 'cdiv', 'div', lambda m, c: ('BKDividerAttachToClock', (m, c)), lambda m: ('BKDividerDetach', (m,)), 'k', 'clock'),
    lambda r: simple(r, 'effect', 'div', lambda m, c: ('BKDividerAttachToGroup', (m, P(c, program().offset(program().struct('BKContext'), 'effectDividers')))), lambda m: ('BKDividerDetach', (m,)), 'c', 'ctx'),
    clocks, ctxdividers, tracks, players, instruments]

def job(i):
    r = Report('C01', 'quick'); JOBS[i](r); return r

def check(rep):
    program()
    for r in presults(job, range(len(JOBS))): rep.merge(r)
    rep.need('attach', 40); rep.need('detach', 10); rep.need('detach-unattached', 12); rep.need('player-start', 20); rep.need('notify', 5)
    return rep.finish('other', 'For each list of the library (units and tracks of a context, clocks, the three divider groups, players of sample data and instruments) and every well-formed list of 0 to 3 members, each attach, detach, switch and notify operation is analysed with all other object fields arbitrary; on every path the resulting list is walked from both ends and compared with the expected members. Since each operation only reaches a member and its neighbours (or walks the list), this is the induction step for all histories.', program())
