"""C07: unknown attributes and missing objects are refused without effect."""
from objs import *
from report import Report

# attributes each entry point supports, from the public headers (confirmed by reading)
VOL8 = ['BK_VOLUME_%d' % i for i in range(8)]
UNIT_SET = ['BK_DUTY_CYCLE', 'BK_WAVEFORM', 'BK_PHASE', 'BK_PHASE_WRAP', 'BK_PERIOD', 'BK_VOLUME'] + VOL8 + ['BK_MUTE', 'BK_SAMPLE_REPEAT', 'BK_SAMPLE_PERIOD', 'BK_SAMPLE_IMMED_RELEASE', 'BK_FLAG_RELEASE']
UNIT_GET = ['BK_WAVEFORM', 'BK_DUTY_CYCLE', 'BK_PERIOD', 'BK_PHASE', 'BK_PHASE_WRAP', 'BK_NUM_PHASES'] + VOL8 + ['BK_MUTE', 'BK_SAMPLE_REPEAT', 'BK_SAMPLE_PERIOD', 'BK_SAMPLE_IMMED_RELEASE', 'BK_FLAG_RELEASE']
UNIT_SETP = ['BK_SAMPLE_CALLBACK', 'BK_WAVEFORM', 'BK_SAMPLE', 'BK_SAMPLE_RANGE', 'BK_SAMPLE_SUSTAIN_RANGE']
UNIT_GETP = ['BK_SAMPLE_CALLBACK', 'BK_SAMPLE', 'BK_SAMPLE_RANGE', 'BK_SAMPLE_SUSTAIN_RANGE']
EFF = ['BK_EFFECT_VOLUME_SLIDE', 'BK_EFFECT_PANNING_SLIDE', 'BK_EFFECT_PORTAMENTO', 'BK_EFFECT_TREMOLO', 'BK_EFFECT_VIBRATO']
TRACK_ATTR = ['BK_MASTER_VOLUME', 'BK_VOLUME', 'BK_PANNING', 'BK_NOTE', 'BK_PITCH', 'BK_SAMPLE_PITCH', 'BK_ARPEGGIO_DIVIDER', 'BK_EFFECT_DIVIDER', 'BK_INSTRUMENT_DIVIDER', 'BK_TRIANGLE_IGNORES_VOLUME'] + EFF[:3]
SUP = {
    ('unit', 'setAttr'): UNIT_SET, ('unit', 'getAttr'): UNIT_GET, ('unit', 'setPtr'): UNIT_SETP, ('unit', 'getPtr'): UNIT_GETP,
    ('track', 'setAttr'): UNIT_SET + TRACK_ATTR, ('track', 'getAttr'): UNIT_GET + TRACK_ATTR,
    ('track', 'setPtr'): UNIT_SETP + EFF + ['BK_INSTRUMENT', 'BK_ARPEGGIO'], ('track', 'getPtr'): UNIT_GETP + EFF + ['BK_INSTRUMENT', 'BK_ARPEGGIO'],
    ('data', 'setAttr'): ['BK_SAMPLE_PITCH'], ('data', 'getAttr'): ['BK_NUM_FRAMES', 'BK_NUM_CHANNELS', 'BK_SAMPLE_PITCH'],
    ('data', 'setPtr'): ['BK_SAMPLE_SUSTAIN_RANGE'], ('data', 'getPtr'): ['BK_SAMPLE_SUSTAIN_RANGE'],
    ('ctx', 'setAttr'): [], ('ctx', 'getAttr'): ['BK_NUM_CHANNELS', 'BK_SAMPLE_RATE'],
    ('ctx', 'setPtr'): ['BK_CLOCK_PERIOD', 'BK_PULSE_KERNEL'], ('ctx', 'getPtr'): ['BK_CLOCK_PERIOD', 'BK_TIME', 'BK_PULSE_KERNEL'],
    ('track', 'setEffect'): EFF, ('track', 'getEffect'): EFF,
}
DIRECT = {('unit', 'setAttr'): 'BKUnitSetAttr', ('unit', 'getAttr'): 'BKUnitGetAttr', ('unit', 'setPtr'): 'BKUnitSetPtr', ('unit', 'getPtr'): 'BKUnitGetPtr',
          ('track', 'setAttr'): 'BKTrackSetAttr', ('track', 'getAttr'): 'BKTrackGetAttr', ('track', 'setPtr'): 'BKTrackSetPtr', ('track', 'getPtr'): 'BKTrackGetPtr',
          ('ctx', 'setAttr'): 'BKContextSetAttr', ('ctx', 'getAttr'): 'BKContextGetAttr', ('ctx', 'setPtr'): 'BKContextSetPtr', ('ctx', 'getPtr'): 'BKContextGetPtr',
          ('data', 'setAttr'): 'BKDataSetAttr', ('data', 'getAttr'): 'BKDataGetAttr',
          ('track', 'setEffect'): 'BKTrackSetEffect', ('track', 'getEffect'): 'BKTrackGetEffect'}
GEN = {'setAttr': 'BKSetAttr', 'getAttr': 'BKGetAttr', 'setPtr': 'BKSetPtr', 'getPtr': 'BKGetPtr'}
OBJATTR = ('BK_WAVEFORM', 'BK_SAMPLE', 'BK_INSTRUMENT', 'BK_PULSE_KERNEL')

def points(p):
    out = []
    for (k, op) in SUP:
        for fn in (DIRECT.get((k, op)), slot(p, k, op) if op in GEN else None, GEN.get(op)):
            if fn and (k, op, fn) not in out: out.append((k, op, fn))
    return out

def args_for(w, p, op, fn, attr, ptr='ptr'):
    f = p.fn(fn)
    if op in ('setAttr',): a = ['o', attr, ('s', 32, 'value')]
    elif op == 'getAttr': a = ['o', attr, 'out']
    elif op == 'setPtr': a = ['o', attr, ptr, ('s', 64, 'size')]
    elif op == 'getPtr': a = ['o', attr, 'out', ('s', 64, 'size')]
    elif op == 'setEffect': a = ['o', attr, ptr, C(12, 32)]
    else: a = ['o', attr, 'out', C(12, 32)]
    if op in ('setPtr', 'getPtr') and len(f.args) == 4: a[3] = C(16 if op == 'getPtr' else 12, 64)
    return a[:len(f.args)]

def job(ix):
    p = program(); k, op, fn = points(p)[ix]
    rep = Report('C07', 'quick'); rep.count('entry points')
    INV = p.enum('BK_INVALID_ATTRIBUTE') & 0xffffffff
    sup = {p.enum(n): n for n in SUP[(k, op)]}
    # --- an arbitrary attribute outside the supported set
    for v in variants(k):
        w = rich(k, v); w.raw('out', 4096); w.raw('ptr', 4096)
        A = ('s', 32, 'attr')
        for x in sup: w.st.assume_ne(A, C(x, 32))
        pre = w.st.fork()
        outs = w.run(fn, *args_for(w, p, op, fn, A))
        for st, ret in outs:
            c = st.const(ret)
            at = st.simp(A); nm_ = show(at); lo, hi = st.urng(A)
            if hi - lo < 64 and all(x in sup for x in range(lo, hi + 1)): continue   # not outside the supported set
            ch = changes(w, pre, st)
            if at[0] == 'c': nm_ = next((n for n, x in p.enums.items() if x == at[2] and x > 1000), nm_)
            key = '%s/%s' % (fn, nm_ if at[0] == 'c' else 'other')
            rep.ob('unknown-refused', c == INV, '%s on a %s (%s), attribute %s' % (fn, k, v, nm_), where(p, fn),
                   'an attribute the object does not have returns %s instead of the invalid attribute error' % retname(w, st, ret), key='unknown-refused/' + key)
            rep.ob('unknown-no-effect', not ch, '%s on a %s (%s), attribute %s' % (fn, k, v, nm_), where(p, fn),
                   'a refused attribute changes %s' % '; '.join(fx(x) for x in ch[:3]), key='unknown-no-effect/' + key)
        rep.funcs |= w.I.visited_fn
    # --- every supported attribute is recognised
    for x, n in sup.items():
        if op in ('setPtr', 'setEffect'):
            good = False
            for v in variants(k):
                w = rich(k, v); w.raw('ptr', 4096)
                tgt = 'ptr'
                if n in ('BK_WAVEFORM', 'BK_SAMPLE'): setdata(w, 'nd', 'borrowed', numFrames=16); tgt = 'nd'
                if n == 'BK_INSTRUMENT': w.instr('ni'); tgt = 'ni'
                if n == 'BK_CLOCK_PERIOD': w.st.w('ptr').cells[0] = (8, w.I.nsym('period', 64, 1, 1 << 40))
                if n == 'BK_ARPEGGIO': w.st.w('ptr').cells[0] = (4, C(3, 32))
                outs = w.run(fn, *args_for(w, p, op, fn, C(x, 32), tgt))
                for st, ret in outs:
                    c = st.const(ret)
                    if c == 0: good = True
                    rep.ob('known-recognised', c != INV, '%s on a %s (%s), %s' % (fn, k, v, n), where(p, fn), 'a supported attribute is reported as invalid attribute', key='known-recognised/%s/%s' % (fn, n))
            rep.ob('known-settable', good, '%s on a %s, %s' % (fn, k, n), where(p, fn), 'a supported attribute is never accepted')
        else:
            good = False
            for v in variants(k):
                w = rich(k, v); w.raw('out', 4096)
                w.st.mem['out'].dflt = [(0, 1 << 62, ('undef',))]
                outs = w.run(fn, *args_for(w, p, op, fn, C(x, 32)))
                for st, ret in outs:
                    c = st.const(ret)
                    if c == 0: good = True
                    rep.ob('known-recognised', c != INV, '%s on a %s (%s), %s' % (fn, k, v, n), where(p, fn), 'a supported attribute is reported as invalid attribute', key='known-recognised/%s/%s' % (fn, n))
                    if op.startswith('get') and ok(st, ret) is True:
                        o = st.mem['out']; e = w.I.rd(st, 'out', C(0, 64), 4)
                        rep.ob('output-written', not any('undef:' in str(s_) for s_ in syms(e)), '%s on a %s (%s), %s' % (fn, k, v, n), where(p, fn), 'a successful query leaves the output location unwritten', key='output-written/%s/%s' % (fn, n))
            rep.ob('known-settable', good, '%s on a %s, %s' % (fn, k, n), where(p, fn), 'a supported attribute is never accepted')
    return rep

def nulls(_):
    p = program(); rep = Report('C07', 'quick')
    IS = p.enum('BK_INVALID_STATE') & 0xffffffff
    A, V, S = ('s', 32, 'attr'), ('s', 32, 'value'), ('s', 64, 'size')
    gen = {'setAttr': ('BKSetAttr', (A, V)), 'getAttr': ('BKGetAttr', (A, 'out')), 'setPtr': ('BKSetPtr', (A, 'ptr', S)), 'getPtr': ('BKGetPtr', (A, 'out', S))}
    for op, (fn, rest) in gen.items():
        w = World(); w.raw('out', 64); w.raw('ptr', 64); pre = w.st.fork()
        outs = w.run(fn, None, *rest)
        rep.ob('missing-object', bool(outs), '%s(NULL)' % fn, where(p, fn), 'the call does not return for a missing object')
        for st, ret in outs:
            rep.ob('missing-object', st.const(ret) == IS and not changes(w, pre, st), '%s(NULL)' % fn, where(p, fn), 'a missing object is answered with %s' % retname(w, st, ret))
        for k in CLASSES:
            if slot(p, k, op): continue
            for v in variants(k):
                w = rich(k, v); w.raw('out', 64); w.raw('ptr', 64); pre = w.st.fork()
                outs = w.run(fn, 'o', *rest)
                rep.ob('missing-operation', bool(outs), '%s on a %s' % (fn, k), where(p, fn), 'the call does not return for an object kind without this operation')
                for st, ret in outs:
                    rep.ob('missing-operation', st.const(ret) == IS and not changes(w, pre, st), '%s on a %s' % (fn, k), where(p, fn), 'an object kind without this operation is answered with %s' % retname(w, st, ret))
        rep.funcs |= w.I.visited_fn
    # disposing nothing
    w = World(); pre = w.st.fork()
    outs = w.run('BKDispose', None)
    rep.ob('dispose-nothing', len(outs) > 0 and all(not changes(w, pre, st) for st, _ in outs), 'BKDispose(NULL)', where(p, 'BKDispose'), 'disposing a missing object has an effect')
    for k in CLASSES:
        w = rich(k, 'plain' if k in ('clock', 'div') else {'unit': 'free', 'track': 'free', 'data': 'empty', 'ctx': 'empty', 'instr': 'empty'}[k], gen=False)
        outs = w.run('BKDispose', 'o')
        rep.ob('dispose-once', bool(outs), 'BKDispose of a %s' % k, where(p, 'BKDispose'), 'the object cannot be disposed')
        for st, _ in outs:
            w2 = w.fork(); w2.st = st; st.trace = None; pre = st.fork()
            outs2 = w2.run('BKDispose', 'o')
            rep.ob('dispose-nothing', bool(outs2), 'second BKDispose of a %s' % k, where(p, 'BKDispose'), 'disposing an already disposed object does not return')
            for s2, _ in outs2:
                ch = changes(w2, pre, s2)
                rep.ob('dispose-nothing', not ch and not s2.events(), 'second BKDispose of a %s' % k, where(p, 'BKDispose'), 'disposing an already disposed object changes %s' % [fx(c) for c in ch[:3]])
        # memory that never was an object: flags without the initialised mark
        w = rich(k, 'plain' if k in ('clock', 'div') else {'unit': 'free', 'track': 'free', 'data': 'empty', 'ctx': 'empty', 'instr': 'empty'}[k], gen=False)
        path = {'track': 'unit.object.flags', }.get(k, 'object.flags')
        fl = p.enum('BKObjectFlagInitialized'); bits = [(('s', 32, 'flags'), i) for i in range(32)]
        bits[fl.bit_length() - 1] = 0
        w.set('o', path, mkbits(32, tuple(bits))); pre = w.st.fork()
        outs = w.run('BKDispose', 'o')
        for st, _ in outs:
            ch = changes(w, pre, st)
            rep.ob('dispose-nothing', not ch and not st.events(), 'BKDispose of an uninitialised %s' % k, where(p, 'BKDispose'), 'disposing an uninitialised object changes %s' % [fx(c) for c in ch[:3]])
    return rep

def check(rep):
    p = program()
    for r in presults(job, range(len(points(p)))) + [nulls(0)]: rep.merge(r)
    rep.need('unknown-refused', 100); rep.need('known-recognised', 300); rep.need('output-written', 80); rep.need('missing-object', 8)
    return rep.finish('other', 'Every attribute entry point (direct, class table, generic) is analysed with an arbitrary 32-bit attribute outside the supported set of its object kind, on objects in arbitrary states: every path must end in the invalid attribute error with the whole memory unchanged. Every supported attribute must be recognised, and every successful query must write its output. Generic entry points and disposal are analysed for missing, disposed and uninitialised objects.', p)
