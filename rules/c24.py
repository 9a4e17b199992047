"""C24: callbacks get their own user pointer and the documented event, their
answers count, unset callbacks are never called."""
from cbs import *
from objs import *
from report import Report
import c25
from c25 import run, where

def quiet(I, *names):
    """generation primitives without influence on callbacks"""
    for n in names:
        I.summaries[n] = lambda I, st, args, ins: [(st, C(0, ins['w']) if ins['w'] else None)]

def start(rep, tier):
    """callbacks handed to constructors are kept"""
    c25.values(rep)
    for fn in ('BKClockInit', 'BKClockAlloc'):
        for c in ('cb', None):
            w = World(hooks=Callbacks()); w.callback('cb')
            if fn == 'BKClockInit': w.new('k', 'BKClock')
            else: w.raw('out', 8)
            per = w.I.nsym('period', 64, 1, 1 << 50)
            def judge(st, ret):
                r = 'k'
                if ok(st, ret) is False: return None if fn != 'BKClockInit' else 'initialisation fails'
                if fn != 'BKClockInit':
                    q = w.I.rd(st, 'out', C(0, 64), 8)
                    if q[0] != 'ptr': return 'no object is returned'
                    r = q[2]; st.w(r).type = w.p.struct('BKClock'); st.memo = {}
                f, u = field(w, st, r, 'callback.func'), field(w, st, r, 'callback.userInfo')
                if c and not (eq(st, f, w.get('cb', 'func')) and eq(st, u, w.get('cb', 'userInfo'))): return 'the callback is not taken over'
                if not c and st.const(f) != 0: return 'an unset callback becomes %s' % show(f)
            run(rep, w, 'callback-kept', '%s %s' % (fn, 'with callback' if c else 'without callback'), fn, ('k' if fn == 'BKClockInit' else 'out', per, c), judge)
    # sample callback
    for kind in ('unit', 'track'):
        for var in ('free', 'attached', 'sample'):
            for c in ('cb', None):
                w = rich(kind, var, hooks=Callbacks()); w.callback('cb')
                pre = 'unit.' if kind == 'track' else ''
                cb(w, 'o', pre + 'sample.callback', 'old')
                f, u = w.get('cb', 'func'), w.get('cb', 'userInfo')
                def judge(st, ret):
                    if ok(st, ret) is not True: return 'setting the sample callback fails'
                    if calls(st): return 'a callback is called while it is set'
                    gf, gu = field(w, st, 'o', pre + 'sample.callback.func'), field(w, st, 'o', pre + 'sample.callback.userInfo')
                    if c and not (eq(st, gf, f) and eq(st, gu, u)): return 'the callback is not taken over'
                    if not c and st.const(gf) != 0: return 'the callback is not unset'
                    # and read back
                    n = w.fork(); n.st = st.fork(); n.raw('back', 8)
                    for t, r in n.I.run('BKGetPtr', [P('o'), C(w.enum('BK_SAMPLE_CALLBACK'), 32), P('back'), C(8, 64)], n.st):
                        q = n.I.rd(t, 'back', C(0, 64), 8)
                        if ok(t, r) is True and (q[0] != 'ptr' or not eq(t, n.I.rd(t, q[2], q[3], 8), gf)): return 'another callback is read back'
                run(rep, w, 'callback-kept', 'BK_SAMPLE_CALLBACK of %s (%s) %s' % (kind, var, 'set' if c else 'unset'), 'BKSetPtr', ('o', w.enum('BK_SAMPLE_CALLBACK'), c, 16), judge)

def begin(rep, tier):
    """setting a sample announces its begin"""
    for kind in ('unit', 'track'):
        for var in ('attached', 'sample', 'custom'):
            for has in (True, False):
                w = rich(kind, var, hooks=Callbacks()); setdata(w, 'n')
                pre = 'unit.' if kind == 'track' else ''
                f, u = cb(w, 'o', pre + 'sample.callback', 'cb', has)
                def judge(st, ret):
                    if ok(st, ret) is not True: return 'setting the sample fails'
                    ev = calls(st)
                    if not has: return 'a callback is made: %s' % show(ev[0][1]) if ev else None
                    if len(ev) != 1: return '%d callbacks announce the begin of the sample' % len(ev)
                    return one(w, st, ev[0], f, u, 'BK_EVENT_SAMPLE_BEGIN', 'o')
                run(rep, w, 'sample-begin', 'setting sample data of %s (%s) %s callback' % (kind, var, 'with' if has else 'without'), 'BKSetPtr', ('o', w.enum('BK_SAMPLE'), 'n', 0), judge)

def one(w, st, e, f, u, event, obj):
    if not eq(st, e[1], f): return 'another function is called: %s' % show(e[1])
    if len(e[2]) < 2 or not eq(st, e[2][1], u): return 'the callback does not get its own user pointer'
    if e[3] is None or st.const(e[3]['event']) != w.enum(event): return 'the callback does not get the event %s' % event
    if not eq(st, e[3]['object'], P(obj)): return 'the callback gets object %s' % show(e[3]['object'])

MODES = ('BK_NO_REPEAT', 'BK_REPEAT', 'BK_PALINDROME')
def model(length, phase, dir, frames, answers):
    """reference: (phase, dir, number of answers asked for, halted) after `frames` frames; answers(i) -> mode"""
    asked = 0
    for _ in range(frames):
        phase += dir
        if not 0 <= phase < length:
            m = answers(asked); asked += 1
            if m == 0: return None, dir, asked, True
            if m == 1: phase %= length
            else:
                phase = length - 1 if dir > 0 else 1; dir = -dir
    return phase, dir, asked, False

def reset(rep, tier):
    """the answer at the end of a sample is its repeat mode"""
    lens = ((2, 5), (3, 7)) if tier == 'quick' else ((2, 7), (3, 10), (5, 16))
    for kind in ('unit', 'track'):
        pre = 'unit.' if kind == 'track' else ''
        for length, nf in lens:
            for dir in (1, -1):
                if True:
                    for ans in [None] + list(answers(length, dir, nf)):
                        for mode in MODES if ans is None else (None,):
                            playing(rep, kind, pre, length, dir, nf, ans, mode)

def answers(length, dir, nf):
    """every sequence of documented answers the call asks for"""
    out, todo = [], [()]
    while todo:
        a = todo.pop()
        class More(Exception): pass
        def f(i):
            if i >= len(a): raise More
            return a[i]
        try: model(length, 0 if dir > 0 else length - 1, dir, nf, f); out.append(a)
        except More: todo += [a + (m,) for m in range(3)]
    return sorted(out)

def playing(rep, kind, pre, length, dir, nf, ans, mode):
    has = ans is not None
    w0 = program(); ids = [w0.enum(m) for m in MODES]
    w = rich(kind, 'attached', hooks=Callbacks(rets=[ids[a] for a in ans or ()]), chans=1)
    setdata(w, 'n', numFrames=C(length, 32)); play(w, kind, 'o', 'n', 'BK_SAMPLE')
    f, u = cb(w, 'o', pre + 'sample.callback', 'cb', has)
    g = lambda x, v: w.set('o', pre + x, v)
    first = 0 if dir > 0 else length - 1
    g('sample.period', C((dir << 20) & 0xffffffff, 32)); g('sample.timeFrac', 0); g('phase.phase', first)
    if dir < 0: g('sample.offset', length); g('sample.end', 0)
    g('sample.repeatMode', w.enum(mode) if mode else w.I.nsym('mode', 32, 0, 2))
    g('sample.sustainOffset', 0); g('sample.sustainEnd', 0); g('mute', 0); g('time', 0); g('period', 1 << 20)
    fl = w.get('o', pre + 'object.flags')
    w.set('o', pre + 'object.flags', mkbits(32, tuple(0 if i in susflags(w) else b for i, b in enumerate(bits_of(fl)))))
    quiet(w.I, 'BKBufferAddPulse', 'BKBufferEnd')
    k = MODES.index(mode) if mode else None
    ph, d, asked, halt = model(length, first, dir, nf, (lambda i: ans[i]) if has else (lambda i: k))
    how = 'answers %s' % [MODES[x] for x in ans] if has else mode
    def judge(st, ret):
        ev = calls(st)
        for e in ev:
            m = one(w, st, e, f, u, 'BK_EVENT_SAMPLE_RESET', 'o')
            if m: return m
        if not has and ev: return 'a callback is made: %s' % show(ev[0][1])
        if has and len(ev) != asked: return '%s: the callback is called %d times instead of %d' % (how, len(ev), asked)
        mute = st.const(field(w, st, 'o', pre + 'mute'))
        if halt: return None if mute == 1 else '%s: the sample does not stop at its end' % how
        if mute != 0: return '%s: the sample stops although it is repeated' % how
        if st.const(field(w, st, 'o', pre + 'phase.phase')) != ph: return '%s: the sample continues at frame %s instead of %d' % (how, show(field(w, st, 'o', pre + 'phase.phase')), ph)
        p = field(w, st, 'o', pre + 'sample.period')
        if st.const(p) != (d << 20) & 0xffffffff: return '%s: the sample continues with period %s' % (how, show(p))
    run(rep, w, 'sample-reset', '%s playing %d frames of a sample of %d frames %s, %s' % (kind, nf, length, 'forward' if dir > 0 else 'backward', how), 'BKUnitRun', ('o', nf << 20), judge)

def susflags(w):
    return [i for n in ('BKUnitFlagSampleSustainRange', 'BKUnitFlagSampleSustainJump', 'BKUnitFlagRelease') for i in range(32) if w.enum(n) >> i & 1]

def generating(w, dt):
    """a context `dt` before the end of a generation whose channels fill as fast as time
    passes; reading takes what is asked for and there. Returns the end time."""
    I = w.I; T = I.nsym('T', 64, 0, 1 << 50); w.set('c', 'currentTime', T)
    sz, off = w.p.sizeof(w.p.struct('BKBuffer')), w.off('BKBuffer', 'time')
    ch = w.get('c', 'channels')[2]; n = w.st.const(w.get('c', 'numChannels'))
    def fill(I, st, d):
        for i in range(n):
            t = I.rd(st, ch, C(i * sz + off, 64), 4)
            I.wr(st, ch, C(i * sz + off, 64), 4, st.simp(add(t, C(d & 0xffffffff, 32))))
    def end(I, st, args, ins):
        t = I.getf(st, 'c', 'currentTime'); d = st.const(args[1])
        if d is None: raise AnalysisBroken('length of a stretch unknown')
        I.setf(st, 'c', 'currentTime', st.simp(add(t, C(d, 64)))); fill(I, st, d)
        return [(st, C(d, 32) if ins['w'] else None)]
    def read(I, st, args, ins):
        have = st.const(I.rd(st, ch, C(off, 64), 4)) >> 20; want = st.const(args[2])
        if want is None: raise AnalysisBroken('number of frames to read unknown')
        r = min(have, want); fill(I, st, -(r << 20))
        st.ev(('read', args[1], C(r, 32), want)); return [(st, C(r, 32))]
    I.summaries['BKContextEnd'] = end; I.summaries['BKContextRead'] = read
    return add(T, C(dt, 64))

def write(rep, tier):
    """frames go to the write function with the pointer given, until it says stop"""
    for dt in (1, 700, 1500, 3000) if tier == 'quick' else (1, 2, 600, 700, 1024, 1025, 1500, 3000, 4096):
        w = World(hooks=Callbacks()); w.ctx('c', 2); I = w.I
        E = generating(w, dt << 20)
        f, u = I.nsym('write', 64), I.nsym('info', 64); w.st.assume_ne(f, NULL)
        def judge(st0, ret):
            for st, b in split(st0, [cmp('eq', e[4], C(0, 32)) for e in calls(st0)]):
                ev = [e for e in st.events() if e[0] in ('read', 'called')]
                stopped = False; n = 0
                for i, e in enumerate(ev):
                    if stopped: return 'generation goes on although the write function said stop'
                    if e[0] == 'read':
                        if i + 1 >= len(ev) or ev[i + 1][0] != 'called': return 'frames are read but not written'
                        continue
                    if i == 0 or ev[i - 1][0] != 'read': return 'the write function is called without new frames'
                    if not eq(st, e[1], f): return 'another function is called'
                    if e[2][0] != ev[i - 1][1] or not eq(st, e[2][1], ev[i - 1][2]): return 'the write function does not get the frames read'
                    if not eq(st, e[2][2], u): return 'the write function gets the pointer %s instead of its own' % show(e[2][2])
                    stopped = not b[n]; n += 1
                o = ok(st, ret)
                if stopped and o is not False: return 'the write function says stop but the call returns %s' % show(ret)
                if not stopped:
                    if n == 0: return 'nothing is written'
                    if o is False: return 'the call fails although everything was written'
            return None
        run(rep, w, 'write-function', 'BKContextGenerateToTime, %d samples to pass' % dt, 'BKContextGenerateToTime', ('c', E, f, u), judge)

def states(rep, tier):
    """players of sample data and instruments are told what happens to it"""
    ops = {'data': [('BKDataSetFrames', ('o', 'fr', 8, 1, 0), 'BK_DATA_STATE_EVENT_RESET'), ('BKDataSetFrames', ('o', 'fr', 8, 1, 1), 'BK_DATA_STATE_EVENT_RESET'),
                    ('BKDataSetData', ('o', 'fr', 8, 1, 'BK_16_BIT_SIGNED'), 'BK_DATA_STATE_EVENT_RESET'),
                    ('BKDataDetach', ('o',), 'BK_DATA_STATE_EVENT_DISPOSE'), ('BKDispose', ('o',), 'BK_DATA_STATE_EVENT_DISPOSE')],
           'instr': [('BKInstrumentSetSequence', ('o', 0, 'vals', 4, 1, 2), 'BK_INSTR_STATE_EVENT_RESET'),
                     ('BKInstrumentDetach', ('o',), 'BK_INSTR_STATE_EVENT_DISPOSE'), ('BKDispose', ('o',), 'BK_INSTR_STATE_EVENT_DISPOSE')]}
    for kind in ops:
        stype = 'BKDataState' if kind == 'data' else 'BKInstrumentState'
        own = 'data' if kind == 'data' else 'instrument'
        for fn, args, event in ops[kind]:
            for k in (1, 2, 3) if tier != 'quick' else (1, 2):
                for mask in range(1 << k):
                    w = World(hooks=Callbacks()); w.raw('fr', 64); w.raw('vals', 64)
                    if kind == 'data': setdata(w, 'o', 'borrowed')
                    else: w.instr('o')
                    fs = []
                    for i in range(k):
                        r = 's%d' % i; w.new(r, stype, ('zero',)); has = mask >> i & 1
                        f, u = w.I.nsym(r + '.func', 64), w.I.nsym(r + '.info', 64)
                        if has: w.st.assume_ne(f, NULL); w.set(r, 'callback', f)
                        else: w.set(r, 'callback', None)
                        w.set(r, 'callbackUserInfo', u); fs.append((r, has, f, u))
                    L(w, kind, 'o').build([(x[0], 0) for x in fs])
                    a = tuple(w.enum(x) if isinstance(x, str) and x.startswith('BK_') else x for x in args)
                    def judge(st0, ret):
                        if ok(st0, ret) is False and ret is not None: return None if not calls(st0) else 'players are told of a change that fails'
                        ev = calls(st0); want = [x for x in fs if x[1]]
                        if [e[1] for e in ev] != [x[2] for x in want]: return 'told: %s, expected every player with a callback once' % [show(e[1]) for e in ev]
                        for e, x in zip(ev, want):
                            if len(e[2]) < 2 or not eq(st0, e[2][1], x[3]): return 'player %s does not get its own pointer' % x[0]
                            if st0.const(e[2][0]) != w.enum(event): return 'player %s is told event %s' % (x[0], show(e[2][0]))
                        gone = event.endswith('DISPOSE')
                        for st, b in split(st0, [cmp('slt', e[4], C(0, 32)) if kind == 'data' and e[4] else FALSE for e in ev]):
                            left = {x[0]: v for x, v in zip(want, b)}
                            for x in fs:
                                o = field(w, st, x[0], own); off = gone or left.get(x[0])
                                if off and st.const(o) != 0: return '%s %s but stays a player' % (x[0], 'is told of the end' if gone else 'refuses the new frames')
                                if not off and not eq(st, o, P('o')): return '%s accepts but is not a player any more' % x[0]
                        return None
                    run(rep, w, 'player-event', '%s with %d players, callbacks %s' % (fn, k, bin(mask)), fn, a, judge)

PARTS = [('tick', c25.tick), ('clocktick', c25.clocktick), ('master', lambda r, t: c25.master(r)), ('start', start), ('begin', begin), ('reset', reset), ('write', write), ('states', states)]
def part(i):
    r = Report('C24', i[1]); dict(PARTS)[i[0]](r, i[1]); return r

def check(rep):
    for r in presults(part, [(n, rep.tier) for n, _ in PARTS]): rep.merge(r)
    rep.need('divider-tick', 12); rep.need('clock-tick', 20); rep.need('sample-reset', 20); rep.need('sample-begin', 12); rep.need('write-function', 3); rep.need('player-event', 30); rep.need('callback-kept', 12)
    return rep.finish('other', 'Every function that calls back is interpreted with unknown user functions, unknown user pointers and arbitrary answers; each recorded call must be the registered function with its own pointer, its event and its object, and the state after it must be what the answer asks for.', program())
