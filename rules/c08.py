"""C08: an accepted setting is read back as set."""
from states import *
from lists import L

BIGV = ((1 << 31) - 1)
MAXV = 32767
FX = ('BK_EFFECT_VOLUME_SLIDE', 'BK_EFFECT_PANNING_SLIDE', 'BK_EFFECT_PORTAMENTO', 'BK_EFFECT_TREMOLO', 'BK_EFFECT_VIBRATO')
SLIDE = FX[:3]
WAVES = ('BK_SQUARE', 'BK_TRIANGLE', 'BK_NOISE', 'BK_SAWTOOTH', 'BK_SINE')
VOLS = tuple('BK_VOLUME_%d' % k for k in range(8))

def seg(lo, hi):
    """[(range of the value, value read: None for the value itself)]"""
    return [((-BIGV, lo - 1), lo), ((lo, hi), None), ((hi + 1, BIGV), hi)]
def least(lo): return [((-BIGV, lo - 1), lo), ((lo, BIGV), None)]
BOOL = [((0, 0), 0), ((1, BIGV), 1), ((-BIGV, -1), 1)]
TONE = seg(-48 * K, 48 * K)
# what is read after a value is set: attribute -> segments
UNIT = {'BK_DUTY_CYCLE': seg(1, 15), 'BK_PHASE_WRAP': [((0, 0), 0), ((2, BIGV), None)], 'BK_PERIOD': [((1 << 15, BIGV), None), ((-BIGV, -(1 << 15)), 'neg'), ((-(1 << 15) + 1, (1 << 15) - 1), 1 << 15)],
    'BK_MUTE': BOOL, 'BK_SAMPLE_IMMED_RELEASE': BOOL, 'BK_SAMPLE_PERIOD': [((1 << 12, 1 << 28), None), ((-(1 << 28), -(1 << 12)), 'neg'), (((1 << 28) + 1, BIGV), 1 << 28), ((0, (1 << 12) - 1), 1 << 12)]}
UNIT.update({v: seg(0, MAXV) for v in VOLS})
TRACK = dict({a: s for a, s in UNIT.items() if a not in VOLS}, **{'BK_MASTER_VOLUME': seg(0, MAXV), 'BK_VOLUME': seg(0, MAXV), 'BK_PANNING': seg(-MAXV, MAXV), 'BK_NOTE': [((0, 96 * K), None), ((96 * K + 1, BIGV), 96 * K), ((-2, -1), -1)],
    'BK_PITCH': TONE, 'BK_SAMPLE_PITCH': TONE, 'BK_TRIANGLE_IGNORES_VOLUME': BOOL})
TRACK.update({d: least(1) for d in ('BK_ARPEGGIO_DIVIDER', 'BK_EFFECT_DIVIDER', 'BK_INSTRUMENT_DIVIDER')})
TRACK.update({f: seg(0, 1 << 16) for f in SLIDE})
DATA = {'BK_SAMPLE_PITCH': TONE}
INT = {'unit': UNIT, 'track': TRACK, 'data': DATA}
ENUMS = {'BK_WAVEFORM': WAVES, 'BK_SAMPLE_REPEAT': ('BK_NO_REPEAT', 'BK_REPEAT', 'BK_PALINDROME')}
TYPE = {'unit': 'BKUnit', 'track': 'BKTrack', 'data': 'BKData', 'ctx': 'BKContext'}
PTRS = {'unit': {'BK_SAMPLE': 1, 'BK_SAMPLE_RANGE': 2, 'BK_SAMPLE_SUSTAIN_RANGE': 2}, 'data': {'BK_SAMPLE_SUSTAIN_RANGE': 2}, 'ctx': {'BK_CLOCK_PERIOD': 2, 'BK_PULSE_KERNEL': 1}}
PTRS['track'] = dict(PTRS['unit'], BK_INSTRUMENT=1, BK_ARPEGGIO=4, **{f: 3 for f in FX})
ADDR = ('BK_SAMPLE', 'BK_INSTRUMENT', 'BK_PULSE_KERNEL')

# settings which another one is documented to change with it
SAMPLE = {'BK_WAVEFORM', 'BK_NUM_PHASES', 'BK_SAMPLE', 'BK_SAMPLE_RANGE', 'BK_SAMPLE_SUSTAIN_RANGE', 'BK_SAMPLE_PITCH', 'BK_FLAG_RELEASE', 'BK_PERIOD', 'BK_SAMPLE_PERIOD', 'BK_SAMPLE_REPEAT', 'BK_SAMPLE_IMMED_RELEASE'}
ALONG = {'BK_WAVEFORM': SAMPLE - {'BK_SAMPLE_PITCH', 'BK_SAMPLE_REPEAT', 'BK_SAMPLE_IMMED_RELEASE'}, 'BK_SAMPLE': SAMPLE, 'BK_NOTE': {'BK_MUTE', 'BK_FLAG_RELEASE'}, 'BK_INSTRUMENT': {'BK_MUTE', 'BK_FLAG_RELEASE', 'BK_NOTE'}, 'BK_VOLUME': set(VOLS),
    'BK_SAMPLE_RANGE': {'BK_SAMPLE_SUSTAIN_RANGE', 'BK_FLAG_RELEASE', 'BK_NUM_PHASES', 'BK_SAMPLE_PERIOD'}, 'BK_SAMPLE_SUSTAIN_RANGE': {'BK_FLAG_RELEASE'}}

def readers(kind):
    """(name, function, arguments, words) of everything that can be read"""
    o = []
    ints = {'unit': list(UNIT) + ['BK_WAVEFORM', 'BK_SAMPLE_REPEAT', 'BK_NUM_PHASES', 'BK_FLAG_RELEASE'], 'track': list(TRACK) + ['BK_WAVEFORM', 'BK_SAMPLE_REPEAT', 'BK_NUM_PHASES', 'BK_FLAG_RELEASE'],
            'data': ['BK_SAMPLE_PITCH', 'BK_NUM_FRAMES', 'BK_NUM_CHANNELS'], 'ctx': ['BK_NUM_CHANNELS', 'BK_SAMPLE_RATE']}[kind]
    drop = {'BK_PERIOD', 'BK_SAMPLE_PERIOD'} if kind == 'track' else set()
    for a in ints:
        if a not in drop: o.append((a, None))
    return o + [(a, n) for a, n in PTRS[kind].items()]

class Rd:
    def __init__(r, w): r.w = w; w.raw('out', 128)
    def read(r, st, kind, obj, attr, words, fn=None):
        """[(state, ret, [words])]"""
        w = r.w; I = w.I; q = st.fork(); e = C(w.enum(attr), 32)
        if words is None: outs = I.run(fn or 'BKGetAttr', [P(obj), e, P('out')], q)
        elif fn: outs = I.run(fn, [P(obj), e, P('out')] + ([C(4 * words, 32)] if 'Effect' in fn else []), q)
        else: outs = I.run('BKGetPtr', [P(obj), e, P('out'), C(8 if attr in ADDR else 4 * words, 64)], q)
        o = []
        for t, v in outs:
            if words is None: x = [t.simp(I.rd(t, 'out', C(0, 64), 4))]
            elif attr in ADDR: x = [t.simp(I.rd(t, 'out', C(0, 64), 8))]
            else: x = [t.simp(I.rd(t, 'out', C(4 * k, 64), 4)) for k in range(words)]
            o.append((t, v, x))
        return o

def eq(st, a, b):
    if a[0] in ('ptr', 'fn') or b[0] in ('ptr', 'fn'): return a == b
    if a == b or st.equal(a, b) is True: return True
    x = st.simp(sub(st.simp(a), st.simp(b)))
    if st.const(x) == 0: return True
    ss = set(syms(a)) | set(syms(b))
    q = st.fork()
    try: q.assume(('cmp', 1, 'ne', st.simp(a), st.simp(b)))
    except Infeasible: return True
    return False

def base(kind, cfg):
    if kind in ('unit', 'track'):
        w = arbitrary(kind, cfg, True, fail=False)
        for f in ('BKTonePeriodLookup', 'BKLog2PeriodLookup'):
            if f in w.p.funcs: w.I.summaries[f] = lambda I, st, a, ins: [(st, I.nsym('period', 32, 1 << 22, 1 << 26))]
        if kind == 'track': w.set('o', 'arpeggio.count', 3); w.set('o', 'arpeggio.offset', 0)
        if 'a2' not in w.types:
            w.data('a2'); w.raw('a2.fr', 1 << 12); w.set('a2', 'frames', 'a2.fr'); w.set('a2', 'numFrames', w.I.nsym('a2.n', 32, 2, 1000)); w.set('a2', 'numChannels', 1); w.set('a2', 'samplePitch', w.I.nsym('a2.p', 32, *PITCH))
        w.instr('i2')
        w.raw('seq', 16); w.call('BKInstrumentSetSequence', 'i2', w.enum('BK_SEQUENCE_VOLUME'), 'seq', 4, 1, 2, one=False)
    elif kind == 'data':
        w = World(); w.data('o'); w.raw('o.fr', 1 << 16); w.set('o', 'frames', 'o.fr'); w.set('o', 'numFrames', w.I.nsym('o.n', 32, 2, 30000)); w.set('o', 'numChannels', 1); w.set('o', 'samplePitch', w.I.nsym('o.p', 32, *PITCH))
        w.set('o', 'sustainOffset', w.I.nsym('o.so', 32, 0, 30000)); w.set('o', 'sustainEnd', w.I.nsym('o.se', 32, 0, 30000))
    else:
        w = World(); w.ctx('o', 2); w.set('o', 'sampleRate', w.I.nsym('rate', 32, 16000, 96000))
        w.new('k', 'BKBufferPulse', ('sym', ''))
    return w

def vec(w, rid, terms):
    w.raw(rid, 4 * len(terms)); w.st.w(rid).cells.update({4 * k: (4, t) for k, t in enumerate(terms)}); w.st.memo = {}
    return rid

def settings(kind, cfg, w):
    """(label, attribute, function, arguments, words, expected words)"""
    o = []; e = lambda a: C(w.enum(a), 32); I = w.I
    S = {'unit': 'BKUnitSetAttr', 'track': 'BKTrackSetAttr', 'data': 'BKDataSetAttr'}.get(kind)
    for a, segs in INT.get(kind, {}).items():
        for k, ((lo, hi), x) in enumerate(segs):
            v = I.nsym('V%d.%s' % (k, a), 32, lo, hi)
            want = v if x is None else sub(C(0, 32), v) if x == 'neg' else C(x, 32)
            for f in ('BKSetAttr', S): o.append(('%s of %d to %d' % (a, lo, hi), a, f, ('o', e(a), v), None, [want]))
    if kind in ('unit', 'track'):
        for a, vs in ENUMS.items():
            for v in vs: o.append(('%s %s' % (a, v), a, 'BKSetAttr', ('o', e(a), e(v)), None, [e(v)]))
        if cfg == 'sample-sustain':
            for v in (0, 1): o.append(('BK_FLAG_RELEASE %d' % v, 'BK_FLAG_RELEASE', 'BKSetAttr', ('o', e('BK_FLAG_RELEASE'), C(v, 32)), None, [C(v, 32)]))
        sp = lambda lab, a, p, n, words, want: o.append(('%s %s' % (a, lab), a, 'BKSetPtr', ('o', e(a), p, C(n, 64)), words, want))
        sp('another', 'BK_SAMPLE', 'a2', 8, 1, [P('a2')]); sp('none', 'BK_SAMPLE', None, 8, 1, [NULL])
        if cfg.split('-')[0] in ('sample', 'reverse', 'stereo'):
            n = w.get('a', 'numFrames'); x = I.nsym('A', 32, 0, 1 << 20); y = I.nsym('B', 32, 1, 1 << 20)
            scen.le(w, x, y, -1); scen.le(w, y, n); sp('forward', 'BK_SAMPLE_RANGE', vec(w, 'r1', [x, y]), 8, 2, [x, y]); sp('backward', 'BK_SAMPLE_RANGE', vec(w, 'r2', [y, x]), 8, 2, [y, x])
            ln = w.get('o', ('unit.' if kind == 'track' else '') + 'sample.length'); x = I.nsym('D', 32, 0, 1 << 20); y = I.nsym('E', 32, 1, 1 << 20)
            scen.le(w, x, y, -1); scen.le(w, y, ln)
            sp('in order', 'BK_SAMPLE_SUSTAIN_RANGE', vec(w, 'r3', [x, y]), 8, 2, [x, y]); sp('swapped', 'BK_SAMPLE_SUSTAIN_RANGE', vec(w, 'r4', [y, x]), 8, 2, [x, y]); sp('none', 'BK_SAMPLE_SUSTAIN_RANGE', None, 8, 2, [C(0, 32)] * 2)
    if kind == 'track':
        sp('another', 'BK_INSTRUMENT', 'i2', 8, 1, [P('i2')]); sp('none', 'BK_INSTRUMENT', None, 8, 1, [NULL])
        for n in range(9):
            t = [C(n, 32)] + [I.nsym('N%d.%d' % (n, k), 32, -96 * K, 96 * K) for k in range(n)]
            sp('of %d notes' % n, 'BK_ARPEGGIO', vec(w, 'arp%d' % n, t), 4 * n + 4, n + 1, t)
        sp('none', 'BK_ARPEGGIO', None, 0, 1, [C(0, 32)])
        for f in FX:
            for lab, r in (('', ((0, 1 << 16), (0, MAXV), (0, 1 << 16))), (' beyond', (((1 << 16) + 1, BIGV), (MAXV + 1, BIGV), ((1 << 16) + 1, BIGV))), (' below', ((-BIGV, -1), (-BIGV, -1), (-BIGV, -1)))):
                if lab and f == FX[4]: continue
                v = [I.nsym('%s%s.%d' % (f, lab, k), 32, *r[k]) for k in range(3)]
                want = v if not lab else [C(1 << 16, 32), C(MAXV, 32), C(1 << 16, 32)] if lab == ' beyond' else [C(0, 32)] * 3
                if f in SLIDE: want = [want[0], C(0, 32), C(0, 32)]
                rid = vec(w, f + lab, v)
                for fn in ('BKTrackSetEffect', 'BKSetPtr'): o.append(('%s%s by %s' % (f, lab, fn), f, fn, ('o', e(f), rid, C(12, 32 if fn == 'BKTrackSetEffect' else 64)), 3, want))
            o.append((f + ' none', f, 'BKTrackSetEffect', ('o', e(f), None, C(0, 32)), 3, [C(0, 32)] * 3))
    if kind == 'data':
        n = w.get('o', 'numFrames'); x = I.nsym('A', 32, 0, 30000); y = I.nsym('B', 32, 1, 30000); scen.le(w, x, y, -1); scen.le(w, y, n)
        for lab, p, want in (('in order', vec(w, 'r1', [x, y]), [x, y]), ('swapped', vec(w, 'r2', [y, x]), [x, y]), ('none', None, [C(0, 32)] * 2), ('empty', vec(w, 'r3', [x, x]), [C(0, 32)] * 2)):
            o.append(('BK_SAMPLE_SUSTAIN_RANGE ' + lab, 'BK_SAMPLE_SUSTAIN_RANGE', 'BKSetPtr', ('o', e('BK_SAMPLE_SUSTAIN_RANGE'), p, C(8, 64)), 2, want))
    if kind == 'ctx':
        x = I.nsym('T', 32, 1, 1 << 20); y = I.nsym('F', 32, 0, 1 << 20)
        o.append(('BK_CLOCK_PERIOD', 'BK_CLOCK_PERIOD', 'BKSetPtr', ('o', e('BK_CLOCK_PERIOD'), vec(w, 'time', [x, y]), C(8, 64)), 2, [x, y]))
        o.append(('BK_PULSE_KERNEL', 'BK_PULSE_KERNEL', 'BKSetPtr', ('o', e('BK_PULSE_KERNEL'), 'k', C(8, 64)), 1, [P('k')]))
    return o

def job(a):
    kind, cfg, tier = a; rep = Report('C08', tier); w = base(kind, cfg); rd = Rd(w); ss = settings(kind, cfg, w); s0 = w.st
    direct = {'unit': 'BKUnit', 'track': 'BKTrack', 'data': 'BKData', 'ctx': 'BKContext'}[kind]
    for lab, attr, fn, args, words, want in ss:
        at = where(w.p, fn if fn not in ('BKSetAttr', 'BKSetPtr') else direct + ('SetAttr' if fn == 'BKSetAttr' else 'SetPtr') if direct + ('SetAttr' if fn == 'BKSetAttr' else 'SetPtr') in w.p.funcs else fn)
        inst = '%s (%s): %s' % (kind, cfg, lab); n = 0; bad = None
        sts = [(st, v) for st, v in w.run(fn, *args) if v is None or st.rng(v)[0] >= 0]
        gets = [None] + ([direct + 'GetAttr'] if words is None and kind != 'ctx' else ['BKTrackGetEffect'] if attr in FX else [])
        for st, _ in sts:
            for g in gets:
                for q, ret, got in rd.read(st, kind, 'o', attr, words, g):
                    n += 1
                    if q.const(ret) != 0: bad = 'setting it succeeds, reading it returns %s' % show(ret); continue
                    for k, (x, y) in enumerate(zip(got, want)):
                        if not eq(q, x, y): bad = 'value %d set as %s is read as %s' % (k, show(q.simp(y))[:100], show(x)[:200])
        rep.ob('read-back', bad is None and n > 0, inst, at, bad or 'never accepted', key='read-back/' + lab)
        # other settings
        if fn != 'BKSetAttr' and fn != 'BKSetPtr': continue
        for name, wd in readers(kind):
            if name == attr or name in ALONG.get(attr, ()) : continue
            if (name in SLIDE or name in FX) and attr in FX and name == attr: continue
            bad = None; n = 0
            for st, _ in sts:
                q0 = st.fork(); q0.mem = dict(s0.mem)
                for t, r0, old in rd.read(q0, kind, 'o', name, wd):
                    if t.const(r0) != 0: continue
                    t2 = t.fork(); t2.mem = dict(st.mem)
                    for q, r1, new in rd.read(t2, kind, 'o', name, wd):
                        n += 1
                        if q.const(r1) != 0: bad = 'it can not be read any longer'; continue
                        for x, y in zip(old, new):
                            if not eq(q, x, y): bad = '%s was %s and is %s then' % (name, show(x)[:100], show(y)[:160])
            if n: rep.ob('independent', bad is None, inst + ', reading ' + name, at, bad or '', key='independent/%s/%s' % (lab, name))
    rep.funcs |= w.I.visited_fn
    return rep

def fresh(a):
    """what an initialised context says about itself"""
    kind, cfg, tier = a; rep = Report('C08', tier); at = 'BKContextInit'
    for n, got in [(0, 1), (9, 8), (1 << 20, 8)] + [(k, k) for k in range(1, 9)]:
        for (lo, hi), x in [((0, 15999), 16000), ((16000, 96000), None), ((96001, BIGV), 96000)]:
            w = World(); w.new('o', 'BKContext'); rd = Rd(w); v = w.I.nsym('rate%d' % lo, 32, lo, hi); inst = 'context of %d channels with sample rate %d to %d' % (n, lo, hi); at = where(w.p, 'BKContextInit')
            for attr, want in (('BK_NUM_CHANNELS', C(got, 32)), ('BK_SAMPLE_RATE', v if x is None else C(x, 32))):
                bad = None; k = 0
                for st, ret in w.run('BKContextInit', 'o', C(n, 32), v):
                    if st.const(ret) != 0: continue
                    for q, r, g in rd.read(st, 'ctx', 'o', attr, None):
                        k += 1
                        if q.const(r) != 0 or not eq(q, g[0], want): bad = '%s is read as %s' % (attr, show(g[0])[:100])
                rep.ob('read-back', bad is None and k > 0, '%s: %s' % (inst, attr), at, bad or 'never accepted')
            rep.funcs |= w.I.visited_fn
    return rep

SLOTS = ('BK_SEQUENCE_VOLUME', 'BK_SEQUENCE_PANNING', 'BK_SEQUENCE_PITCH', 'BK_SEQUENCE_DUTY_CYCLE')
def sequences(a):
    """the sequence an instrument returns is the one set; the other slots stay"""
    kind, cfg, tier = a; rep = Report('C08', tier)
    for used in ((), (0,), (1, 3), (0, 1, 2, 3)):
        for k, slot in enumerate(SLOTS):
            for n, so, sl in ((1, 0, 1), (3, 1, 1), (4, 0, 4), (4, 2, 2), (5, 4, 1)):
                w = World(); I = w.I; w.instr('o'); w.raw('old', 12)
                for u in used: w.call('BKInstrumentSetSequence', 'o', w.enum(SLOTS[u]), 'old', 3, 0, 2)
                rid = vec(w, 'new', [I.nsym('v%d' % j, 32, -(1 << 24), 1 << 24) for j in range(n)]); new = [('s', 32, 'v%d' % j) for j in range(n)]
                get = lambda st, j: I.run('BKInstrumentGetSequence', [P('o'), C(w.enum(SLOTS[j]), 32)], st.fork())
                before = {j: [st.simp(v) for st, v in get(w.st, j)] for j in range(4)}
                inst = '%s of %d values, sustained %d and %d, slots in use: %s' % (slot, n, so, sl, len(used)); bad = None; m = 0; other = None
                for st, r in w.run('BKInstrumentSetSequence', 'o', C(w.enum(slot), 32), 'new', C(n, 32), C(so, 32), C(sl, 32)):
                    if st.const(r) != 0: continue
                    for q, v in get(st, k):
                        m += 1; v = q.simp(v)
                        if v[0] != 'ptr': bad = 'no sequence is returned'; continue
                        f = lambda x, z=4: q.simp(I.rd(q, v[2], add(v[3], C(w.off('BKSequence', x), 64)), z)); d = f('values', 8)
                        g = (q.const(f('length')), q.const(f('sustainOffset')), q.const(f('sustainLength')))
                        if g != (n, so, sl): bad = 'length and sustain range are %s' % (g,)
                        elif d[0] != 'ptr': bad = 'it has no values'
                        else:
                            for j in range(n):
                                x = q.simp(I.rd(q, d[2], add(d[3], C(4 * j, 64)), 4))
                                if not eq(q, x, new[j]): bad = 'value %d is %s' % (j, show(x)[:100])
                    for j in range(4):
                        if j != k and [q.simp(v) for q, v in get(st, j)] != before[j]: other = 'the sequence of %s is another one then' % SLOTS[j]
                at = where(w.p, 'BKInstrumentSetSequence')
                rep.ob('read-back', bad is None and m > 0, inst, at, bad or 'never accepted'); rep.ob('independent', other is None, inst, at, other or ''); rep.funcs |= I.visited_fn
    return rep

def run(a): return {'new': fresh, 'sequences': sequences}.get(a[0], job)(a)
def jobs(tier):
    cfgs = ('square', 'triangle', 'custom', 'sample', 'sample-sustain', 'reverse') if tier == 'quick' else CFGS
    return [(k, c, tier) for k in ('unit', 'track') for c in cfgs] + [('data', '', tier), ('ctx', '', tier), ('new', '', tier), ('sequences', '', tier)]

EXPL = ('Abstract interpretation of pairs of calls: each setter (BKSetAttr, BKSetPtr, BKTrackSetEffect and the functions of the types) is run with an unknown value in each range (below, inside and above the documented limits) from an object in any state, '
    'then the getter is run on every outcome which was accepted. read-back: the getter succeeds and every word it stores equals the value set or the limit. independent: all other attributes, ranges and effects read as before, but for those documented to change along. Contexts just initialised and sequences of instruments are read back as well.')
def check(rep):
    for r in presults(run, jobs(rep.tier)): rep.merge(r)
    rep.need('read-back', 500); rep.need('independent', 2000)
    return rep.finish('other', EXPL, program())
