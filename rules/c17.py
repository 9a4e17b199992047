"""C17: what is set on a track has reached its unit after the next clock tick."""
from objs import *
from report import Report
from interp import SYMR
from lists import L
import c25

K = 1 << 20
LOOKUP = ('BKTonePeriodLookup', 'BKLog2PeriodLookup')
MAXV = 32767
RELEASE, MUTE = -1, -2
WAVES = ('BK_SQUARE', 'BK_TRIANGLE', 'BK_NOISE', 'BK_SAWTOOTH', 'BK_SINE')

class Base:
    """a track with every setting an unknown in range, set by the public functions"""
    def __init__(b, wave='BK_SQUARE', chans=2, pan=0, note='playing', arp=False, instr=(), fx=(), ignore=1):
        b.label = ', '.join([wave, '%d channels' % chans, 'panning %d' % pan, note] + (['arpeggio'] if arp else []) + (['instrument with ' + '+'.join(instr)] if instr else []) + list(fx) + ([] if ignore or wave != 'BK_TRIANGLE' else ['volume not ignored']))
        w = b.w = World(); b.args = {}; I = w.I; b.chans = chans; b.wave = wave; b.pan = pan; b.arp = arp; b.instr = set(instr); b.fx = fx; b.note = note; b.ignore = ignore
        b.tick = c25.slot_tick(w.p)
        for f in LOOKUP:
            if f in w.p.funcs: I.summaries[f] = b.lookup(f)
        w.ctx('c', chans); w.set('c', 'sampleRate', I.nsym('rate', 32, 16000, 96000))
        w.ctx('c2', 2); w.set('c2', 'sampleRate', I.nsym('rate2', 32, 16000, 96000))
        w.track('o', w.enum(wave if wave in WAVES else 'BK_SQUARE'))
        b.sym = {}
        b.attr('BK_TRIANGLE_IGNORES_VOLUME', C(ignore, 32))
        for a, n, lo, hi in (('BK_MASTER_VOLUME', 'master', 1, MAXV), ('BK_VOLUME', 'volume', 1, MAXV), ('BK_PITCH', 'pitch', -K * 12, K * 12), ('BK_SAMPLE_PITCH', 'samplePitch', -K * 12, K * 12)):
            b.attr(a, b.s(n, lo, hi))
        b.attr('BK_DUTY_CYCLE', C(6, 32)); b.attr('BK_PANNING', C(pan, 32)); b.attr('BK_MUTE', C(0, 32))
        for d in ('BK_ARPEGGIO_DIVIDER', 'BK_EFFECT_DIVIDER', 'BK_INSTRUMENT_DIVIDER'): b.attr(d, C(5, 32))
        b.do('BKTrackAttach', 'o', 'c')
        if wave in ('BK_CUSTOM', 'BK_SAMPLE'):
            b.data('a', 'a'); b.do('BKSetPtr', 'o', w.enum('BK_WAVEFORM' if wave == 'BK_CUSTOM' else 'BK_SAMPLE'), 'a', 0)
            b.attr('BK_SAMPLE_PITCH', b.s('samplePitch', -K * 12, K * 12))
        if instr: b.newinstr('i', instr); b.do('BKSetPtr', 'o', w.enum('BK_INSTRUMENT'), 'i', 0)
        if arp: b.notes('arp', 3); b.do('BKSetPtr', 'o', w.enum('BK_ARPEGGIO'), 'arp', 16)
        for e in fx: b.effect(e, e); b.do('BKTrackSetEffect', 'o', w.enum(e), e, 12)
        b.attr('BK_NOTE', b.s('note', 0, 96 * K))
        if note != 'playing': b.attr('BK_NOTE', C(RELEASE if note == 'released' else MUTE, 32))
    def do(b, *a): b.w.call(*a, one=False)
    def s(b, n, lo, hi): return b.w.I.nsym(n, 32, lo, hi)
    def attr(b, a, v):
        b.do('BKSetAttr', 'o', b.w.enum(a), v)
    def data(b, rid, n):
        w = b.w; w.data(rid); w.raw(rid + '.fr', 1 << 16); w.set(rid, 'frames', rid + '.fr'); w.set(rid, 'numFrames', w.I.nsym(n + '.frames', 32, 64, 4096)); w.set(rid, 'numChannels', 1)
        w.set(rid, 'samplePitch', b.s(n + '.pitch', -K * 12, K * 12))
    def notes(b, rid, n):
        w = b.w; w.raw(rid, 4 * n + 4); c = w.st.w(rid).cells; c[0] = (4, C(n, 32))
        for k in range(n): c[4 * k + 4] = (4, b.s('%s.%d' % (rid, k), -K, K))
        w.st.memo = {}
    def newinstr(b, rid, what):
        w = b.w; w.instr(rid)
        for k, n in enumerate(('volume', 'panning', 'pitch', 'duty')):
            if n not in what: continue
            r = {'volume': (1, MAXV), 'panning': (-MAXV, MAXV), 'pitch': (-K, K), 'duty': None}[n]
            v = '%s.%s' % (rid, n); w.raw(v, 8); w.st.w(v).cells.update({4 * j: (4, b.s('%s.%d' % (v, j), *(r or ((1, 2), (3, 5), (7, 9), (10, 11))[j + (0 if rid == 'i' else 2)]))) for j in (0, 1)}); w.st.memo = {}
            b.do('BKInstrumentSetSequence', rid, w.enum({'volume': 'BK_SEQUENCE_VOLUME', 'panning': 'BK_SEQUENCE_PANNING', 'pitch': 'BK_SEQUENCE_PITCH', 'duty': 'BK_SEQUENCE_DUTY_CYCLE'}[n]), v, 2, 1, 1)
    def effect(b, rid, e):
        w = b.w; w.raw(rid, 12); w.st.w(rid).cells.update({0: (4, C(7, 32)), 4: (4, C(9000, 32)), 8: (4, C(0, 32))}); w.st.memo = {}
    def lookup(b, f):
        def fn(I, st, a, ins):
            key = (f,) + tuple(st.simp(x) for x in a)
            s = I.nsym('%s#%d' % (f, b.args.setdefault(key, len(b.args))), 32, 1 << 22, 1 << 26)
            b.args[s] = key; return [(st, s)]
        return fn
    def steps(b, sts, fn, *args):
        out = []; w = b.w
        for st in sts:
            w2 = w.fork(); w2.st = st
            out += [q for q, v in w2.run(fn, *args) if feasible(q)]
        return out
    def ticks(b, sts): return b.steps(sts, b.tick, None, 'o')
    def refresh(b, sts):
        """the state of a track of which every setting is pending"""
        w = b.w; out = []
        for st in sts:
            q = st.fork(); f = w.I.getf(q, 'o', 'flags'); w.I.setf(q, 'o', 'flags', q.simp(mkbits(32, tuple(1 if pending(w.p) >> k & 1 else x for k, x in enumerate(bits_of(f)))))); q.memo = {}; out.append(q)
        return out
    def shown(b, st):
        """what the unit plays"""
        w = b.w; g = lambda f: st.simp(w.I.getf(st, 'o', 'unit.' + f))
        return dict([('volume of channel %d' % k, g('volume[%d]' % k)) for k in range(b.chans)] + [(n, g(f)) for n, f in (('period', 'period'), ('sample period', 'sample.period'), ('duty cycle', 'dutyCycle'), ('mute', 'mute'), ('waveform', 'waveform'))])

def feasible(st):
    if any(lo > hi for lo, hi in list(st.bnd.values()) + list(st.ubnd.values())): return False
    one = lambda t: st.bnd.get(t) if t[0] != 'c' else (tos(t[2], t[1]),) * 2
    return not any(x[0] == 'eq' and one(x[1]) and one(x[1]) == one(x[2]) and one(x[1])[0] == one(x[1])[1] for x in st.ne)

TICKS, KEEP = 7, 3

def pending(p):
    """flags which a tick clears"""
    if not hasattr(p, '_pending'):
        m = 0; t = c25.slot_tick(p)
        for k in range(32):
            w = World(p); w.ctx('c', 2); w.track('o', w.enum('BK_SQUARE')); w.call('BKTrackAttach', 'o', 'c', one=False); w.call(t, None, 'o', want=None, one=False)
            f = bits_of(w.get('o', 'flags')); w.set('o', 'flags', mkbits(32, f[:k] + (1,) + f[k + 1:])); w.st.memo = {}
            outs = w.run(t, None, 'o')
            if outs and all(bits_of(st.simp(w.I.getf(st, 'o', 'flags')))[k] == 0 for st, _ in outs): m |= 1 << k
        if not m: raise AnalysisBroken('a tick clears no flag of a track')
        p._pending = m
    return p._pending

# ---- what is set
def ops(b):
    """(label, [(function, arguments)], what is expected to have changed: name -> term)"""
    w = b.w; e = w.enum; o = []; V = lambda lo, hi: b.s('V', lo, hi)
    at = lambda a, v, exp=None: o.append(('%s %s' % (a, show(v) if isinstance(v, tuple) else v), [('BKSetAttr', ('o', e(a), v))], exp or {}))
    at('BK_MASTER_VOLUME', b.s('V', 1, MAXV), {'master': b.s('V', 1, MAXV)}); at('BK_VOLUME', b.s('V', 1, MAXV), {'volume': b.s('V', 1, MAXV)})
    for p in (0, 9000, -9000, MAXV, -MAXV): at('BK_PANNING', p, {'pan': p})
    at('BK_NOTE', b.s('Vn', 0, 96 * K), {'note': b.s('Vn', 0, 96 * K), 'held': 1})
    at('BK_PITCH', b.s('Vp', -K * 12, K * 12), {'pitch': b.s('Vp', -K * 12, K * 12)}); at('BK_SAMPLE_PITCH', b.s('Vp', -K * 12, K * 12), {'samplePitch': b.s('Vp', -K * 12, K * 12)})
    at('BK_DUTY_CYCLE', b.s('Vd', 12, 15), {'duty': b.s('Vd', 12, 15)})
    at('BK_NOTE', C(RELEASE, 32)); at('BK_NOTE', C(MUTE, 32), {'mute': 1})
    for m in (0, 1): at('BK_MUTE', m, {'mute': m}); at('BK_TRIANGLE_IGNORES_VOLUME', m, {'ignore': m})
    for x in WAVES: at('BK_WAVEFORM', e(x), {'wave': x})
    for n in ('BK_MASTER_VOLUME', 'BK_VOLUME', 'BK_PANNING', 'BK_DUTY_CYCLE', 'BK_PITCH', 'BK_SAMPLE_PITCH'): at(n, ('s', 32, 'any'))
    ptr = lambda a, p, n=0, exp=None, lab='': o.append(('%s %s' % (a, lab or p), [('BKSetPtr', ('o', e(a), p, C(n, 64)))], exp or {}))
    b.notes('arp2', 2); ptr('BK_ARPEGGIO', 'arp2', 12, {'arp': 'arp2'}); ptr('BK_ARPEGGIO', None, 0, {'arp': False})
    b.newinstr('i2', ('volume', 'pitch', 'duty', 'panning')); b.newinstr('i3', ())
    for i in ('i2', 'i3'): ptr('BK_INSTRUMENT', i, 0, {'instr': i})
    ptr('BK_INSTRUMENT', None, 0, {'instr': None})
    if 'a2' not in w.types: b.data('a2', 'a2')
    ptr('BK_SAMPLE', 'a2', 0, {'wave': 'BK_SAMPLE', 'samplePitch': b.s('a2.pitch', -K * 12, K * 12)}); ptr('BK_WAVEFORM', 'a2', 0, {'wave': 'BK_CUSTOM'})
    for x in ('BK_EFFECT_TREMOLO', 'BK_EFFECT_VIBRATO', 'BK_EFFECT_VOLUME_SLIDE', 'BK_EFFECT_PORTAMENTO', 'BK_EFFECT_PANNING_SLIDE'):
        b.effect('fx', x)
        for p in ('fx', None): o.append(('BKTrackSetEffect %s %s' % (x, p or 'none'), [('BKTrackSetEffect', ('o', e(x), p, 12))], {'fx': x} if p else {}))
    many = lambda lab, *c: o.append((lab, list(c[:-1]), c[-1]))
    det, att = ('BKTrackDetach', ('o',)), ('BKTrackAttach', ('o', 'c2')); st = lambda a, v: ('BKSetAttr', ('o', e(a), v)); sp = lambda a, p, n=0: ('BKSetPtr', ('o', e(a), p, C(n, 64)))
    many('attached to another context', det, att, {'ctx': 'c2'})
    for a, v, x in (('BK_NOTE', b.s('Vn', 0, 96 * K), {'note': b.s('Vn', 0, 96 * K), 'held': 1}), ('BK_VOLUME', b.s('V', 1, MAXV), {'volume': b.s('V', 1, MAXV)}), ('BK_PITCH', b.s('Vp', -K * 12, K * 12), {'pitch': b.s('Vp', -K * 12, K * 12)}), ('BK_DUTY_CYCLE', b.s('Vd', 12, 15), {'duty': b.s('Vd', 12, 15)}), ('BK_PANNING', C(9000, 32), {'pan': 9000}), ('BK_WAVEFORM', C(e('BK_SAWTOOTH'), 32), {'wave': 'BK_SAWTOOTH'})):
        many('%s while detached' % a, det, st(a, v), att, dict(x, ctx='c2'))
        many('%s, then a tick, while detached' % a, det, st(a, v), (b.tick, (None, 'o')), att, dict(x, ctx='c2'))
        many('%s after another one' % a, st(a, C(e('BK_TRIANGLE') if a == 'BK_WAVEFORM' else 3, 32)), st(a, v), x)
        many('%s after another one and a tick' % a, st(a, C(e('BK_TRIANGLE') if a == 'BK_WAVEFORM' else 3, 32)), (b.tick, (None, 'o')), st(a, v), x)
    many('BK_NOTE after a mute', st('BK_NOTE', C(MUTE, 32)), (b.tick, (None, 'o')), st('BK_NOTE', b.s('Vn', 0, 96 * K)), {'note': b.s('Vn', 0, 96 * K), 'held': 1})
    many('BK_NOTE after a release', st('BK_NOTE', C(RELEASE, 32)), (b.tick, (None, 'o')), st('BK_NOTE', b.s('Vn', 0, 96 * K)), {'note': b.s('Vn', 0, 96 * K), 'held': 1})
    many('instrument, then none', sp('BK_INSTRUMENT', 'i2'), (b.tick, (None, 'o')), sp('BK_INSTRUMENT', None), {'instr': None})
    many('instrument, another, then the first', sp('BK_INSTRUMENT', 'i2'), (b.tick, (None, 'o')), sp('BK_INSTRUMENT', 'i3'), (b.tick, (None, 'o')), sp('BK_INSTRUMENT', 'i2'), {'instr': 'i2'})
    many('arpeggio, then none', sp('BK_ARPEGGIO', 'arp2', 12), (b.tick, (None, 'o')), (b.tick, (None, 'o')), sp('BK_ARPEGGIO', None), {'arp': False})
    many('triangle, then another waveform', st('BK_WAVEFORM', C(e('BK_TRIANGLE'), 32)), (b.tick, (None, 'o')), st('BK_WAVEFORM', C(e('BK_SINE'), 32)), {'wave': 'BK_SINE'})
    many('sample, then another waveform', sp('BK_SAMPLE', 'a2'), (b.tick, (None, 'o')), st('BK_WAVEFORM', C(e('BK_SINE'), 32)), {'wave': 'BK_SINE'})
    return o

def coefs(t):
    return dict(t[3]) if t[0] == 'lin' else {t: 1} if t[0] == 's' else None

def judge(b, st, exp, q=None):
    """the unit against what the settings ask for; yields (rule, message or None)"""
    w = b.w; u = b.shown(st); cfg = dict(master=('s', 32, 'master'), volume=('s', 32, 'volume'), note=('s', 32, 'note'), pitch=('s', 32, 'pitch'), samplePitch=('s', 32, 'samplePitch'), duty=C(6, 32), pan=b.pan, wave=b.wave, ignore=b.ignore,
        arp='arp' if b.arp else False, instr='i' if b.instr else None, ctx='c')
    cfg.update(exp); has = {'i': b.instr, 'i2': {'volume', 'pitch', 'duty', 'panning'}, 'i3': set(), None: set()}[cfg['instr']]
    seq = lambda n: {('s', 32, '%s.%s.%d' % (cfg['instr'], n, j)) for j in (0, 1)} if n in has else set()
    # waveform, mute
    if 'wave' in exp: yield 'waveform', None if st.const(u['waveform']) == w.enum(cfg['wave']) else 'the unit has waveform %s' % show(u['waveform'])
    if 'mute' in exp: yield 'mute', None if st.const(u['mute']) == exp['mute'] else 'mute of the unit is %s' % show(u['mute'])
    if 'held' in exp: yield 'mute', None if st.const(u['mute']) == 0 else 'the unit stays muted'
    # note
    sample = cfg['wave'] == 'BK_SAMPLE'; t = u['sample period' if sample else 'period']
    ls = [x for x in syms(t) if x in b.args]
    m = None
    if len(ls) != 1: m = 'is %s' % show(t)[:120]
    else:
        key = b.args[ls[0]]; c = coefs(key[1]); want = {cfg['note']: 1, cfg['pitch']: 1}
        if sample: want[cfg['samplePitch']] = 1
        fx = set(b.fx) | {cfg.get('fx')}
        if c is None: m = 'is of note %s' % show(key[1])[:120]
        else:
            c = dict(c)
            for x, k in want.items():
                if c.pop(x, 0) != k: m = 'is of note %s, without %s' % (show(key[1])[:160], show(x)); break
            one = []
            if cfg['arp']: one.append(('the arpeggio', [('s', 32, '%s.%d' % (x, j)) for x in {cfg['arp'], 'arp' if b.arp else cfg['arp']} for j in range(3)]))
            if seq('pitch'): one.append(('the instrument', seq('pitch')))
            for n, g in one:
                f = [x for x in g if c.get(x) == 1]
                if m is None and len(f) != 1: m = 'is of note %s, without %s' % (show(key[1])[:160], n)
                for x in f: c.pop(x)
            if m is None and c: m = 'is of note %s, with %s' % (show(key[1])[:160], show(next(iter(c))))
        if m is None and key[0] == LOOKUP[0] and key[2] != ('s', 32, 'rate' if cfg['ctx'] == 'c' else 'rate2'): m = 'is for the sample rate %s' % show(key[2])
    yield 'note', m and '%s %s' % ('sample period' if sample else 'period', m)
    # duty cycle
    d = u['duty cycle']
    good = {cfg['duty']} if 'duty' not in has else seq('duty') | {cfg['duty']}
    yield 'duty', None if any(st.equal(d, x) is True for x in good) else 'duty cycle is %s' % show(d)
    # volume
    if 'BK_EFFECT_TREMOLO' not in set(b.fx) | {cfg.get('fx')} and 'panning' not in has:
        ch = b.chans if cfg['ctx'] == 'c' else 2; ign = cfg['ignore'] and cfg['wave'] == 'BK_TRIANGLE'
        for k in range(ch):
            t = st.simp(w.I.getf(st, 'o', 'unit.volume[%d]' % k)); m = None
            for x, y, z in ((1, 1, 1), (MAXV, MAXV, MAXV), (MAXV, 9000, MAXV), (9000, MAXV, MAXV), (20000, 20000, 20000), (MAXV, MAXV, 9000), (31, MAXV, MAXV), (MAXV, 31, MAXV)):
                iv = {s: z for s in seq('volume')}
                g = evalt(t, dict({cfg['volume']: x, cfg['master']: y}, **{}) | iv) if t[0] != 'c' else t[2]
                v = (MAXV if ign else x * z // 32768 if iv else x) * y / 32768
                if ch == 2: v = v * (MAXV - max(cfg['pan'], 0) if k == 0 else MAXV + min(cfg['pan'], 0)) / 32768
                if g is None: m = 'is %s' % show(t)[:160]; break
                g = tos(g, 32)
                if abs(g - v) > 3 + v / 50: m = 'is %d for volume %d, master volume %d%s, expected %d' % (g, x, y, ', instrument %d' % z if iv else '', v); break
            yield 'volume', m and 'volume of channel %d %s' % (k, m)

def job(a):
    kw, tier = a; rep = Report('C17', tier); b = Base(**dict(kw)); w = b.w; at = 'BKTrackTick'
    from mem import where
    at = where(w.p, b.tick)
    allops = ops(b); s0 = b.ticks(b.refresh([w.st]))
    for label, calls, exp in allops:
        sts = s0; inst = '%s: %s' % (b.label, label)
        for fn, args in calls: sts = b.steps(sts, fn, *args)
        rep.ob('returns', bool(sts), inst, where(w.p, calls[0][0]), 'no outcome'); first = None
        for k in range(TICKS):
            nxt = []; bad = None; n = 0
            for st0 in sts:
                for st in b.ticks([st0]):
                    nxt.append(st)
                    if w.I.getf(st, 'o', 'unit.ctx')[0] != 'ptr': continue
                    one = b.shown(st); n += 1; q0 = st.fork(); q0.mem = dict(st0.mem)
                    for q in b.ticks(b.refresh([q0])):
                        two = b.shown(q)
                        for f in one:
                            if q.equal(q.simp(one[f]), two[f]) is not True and one[f] != two[f]: bad = '%s is %s, but %s when everything is set again' % (f, show(one[f])[:160], show(two[f])[:160])
            if n: rep.ob('settled', bad is None, inst + (', %d ticks later' % k if k else ''), where(w.p, calls[0][0]), bad or '', key='settled/' + label)
            if first is None: first = nxt
            sts = nxt[:KEEP]
        for st in first:
            if w.I.getf(st, 'o', 'unit.ctx')[0] != 'ptr': continue
            if 'any' in label: continue
            for rule, m in judge(b, st, exp): rep.ob(rule, m is None, inst, where(w.p, calls[0][0]), m or '', key='%s/%s' % (rule, label))
    rep.funcs |= w.I.visited_fn
    return rep

ALL = ('volume', 'pitch', 'duty')
def jobs(tier):
    o = [dict(wave=x) for x in WAVES + ('BK_CUSTOM', 'BK_SAMPLE')] + [dict(wave='BK_TRIANGLE', ignore=0)]
    o += [dict(chans=c, pan=p) for c, p in ((1, 0), (1, 9000), (2, 9000), (2, -9000), (2, MAXV), (3, 9000), (8, 0))]
    for n in ('released', 'muted'): o += [dict(note=n), dict(note=n, wave='BK_SAMPLE'), dict(note=n, instr=ALL)]
    o += [dict(arp=True), dict(arp=True, wave='BK_SAMPLE'), dict(instr=ALL), dict(instr=ALL, wave='BK_TRIANGLE'), dict(instr=('pitch',), arp=True), dict(instr=('volume',), pan=-9000), dict(instr=('duty',)), dict(instr=('panning',)), dict(instr=ALL, wave='BK_SAMPLE')]
    o += [dict(fx=(x,)) for x in ('BK_EFFECT_TREMOLO', 'BK_EFFECT_VIBRATO')]
    if tier != 'quick':
        o += [dict(wave=x, chans=c, pan=p, arp=a, instr=i) for x in WAVES + ('BK_CUSTOM', 'BK_SAMPLE') for c in (1, 2) for p in (0, -20000) for a in (False, True) for i in ((), ALL)]
    return [(tuple(sorted(x.items())), tier) for x in o]

EXPL = ('A track is built by the public functions, with unknowns in their whole range for volume, master volume, note, pitch, sample pitch, arpeggio notes and sequence values (each waveform, 1 to 8 channels, playing, released and muted, with and without arpeggio, instrument and effects). '
    'Then every setting is changed (alone, after another change, while detached, after a release) and the track is ticked. settled: on each of the next ticks the unit is given the same volumes, periods, duty cycle, mute and waveform as when every update flag of the track were set before the tick, '
    'so no change waits for another one. note, volume, duty, mute, waveform: after the tick these values of the unit are those of the settings: the period is looked up for the sum of note, pitch, arpeggio, instrument and sample pitch at the sample rate of the context; the volume of each channel is the product of volume, instrument, master volume and panning.')
def check(rep):
    for r in presults(job, jobs(rep.tier)): rep.merge(r)
    rep.need('settled', 8000); rep.need('note', 1500); rep.need('volume', 1500); rep.need('duty', 1500); rep.need('mute', 150); rep.need('waveform', 200)
    return rep.finish('other', EXPL, program())
