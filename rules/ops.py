"""Every operation of the library on an object 'o', with typed arbitrary
arguments; the rules run them all on objects in arbitrary states."""
from collections import namedtuple
from objs import *
import c07

Op = namedtuple('Op', 'kind label fn prep')
V = ('s', 32, 'value')

def otherdata(w, rid='n', lo=0):
    """another sample data object: any number of frames and channels"""
    w.data(rid)
    n = w.I.nsym(rid + '.numFrames', 32, lo, 1 << 24); ch = w.I.nsym(rid + '.numChannels', 32, 1, 8)
    w.set(rid, 'numFrames', n); w.set(rid, 'numChannels', ch)
    w.raw(rid + '.fr', 1 << 30); w.set(rid, 'frames', rid + '.fr')
    w.set(rid, 'samplePitch', w.I.nsym(rid + '.pitch', 32, -(48 << 20), 48 << 20))
    so = w.I.nsym(rid + '.so', 32, 0, 1 << 24); se = w.I.nsym(rid + '.se', 32, 0, 1 << 24)
    for a, b in ((so, se), (se, n)): w.st.add_diff(a, b, 'S', 0); w.st.add_diff(a, b, 'U', 0)
    w.set(rid, 'sustainOffset', so); w.set(rid, 'sustainEnd', se)
    return rid

def otherinstr(w, rid='ni'):
    w.instr(rid); w.raw(rid + '.v', 64); w.call('BKInstrumentSetSequence', rid, 0, rid + '.v', 4, 1, 2)
    return rid

def ints(w, rid, n):
    """caller memory holding n arbitrary integers"""
    return w.raw(rid, 4 * n) and rid or rid

def E(w, n): return C(w.enum(n), 32)
def size(n): return C(n, 64)

def _attrs(kind):
    out = []
    for a in c07.SUP.get((kind, 'setAttr'), []):
        out.append(Op(kind, 'BKSetAttr ' + a, 'BKSetAttr', lambda w, a=a: ('o', E(w, a), V)))
    return out

def _ptr(kind, a, what, mk, sz):
    return Op(kind, 'BKSetPtr %s %s' % (a, what), 'BKSetPtr', lambda w: ('o', E(w, a), mk(w), size(sz)))

def _arp(w):
    # { count, notes ... }, as many as announced by the size
    w.raw('arp', 36); return 'arp'

def _common(kind):
    o = _attrs(kind)
    for a in ('BK_WAVEFORM', 'BK_SAMPLE'):
        o.append(_ptr(kind, a, 'data', otherdata, 0)); o.append(_ptr(kind, a, 'none', lambda w: None, 0))
    for a in ('BK_SAMPLE_RANGE', 'BK_SAMPLE_SUSTAIN_RANGE'):
        o.append(_ptr(kind, a, 'range', lambda w: ints(w, 'rng', 2), 8)); o.append(_ptr(kind, a, 'none', lambda w: None, 0))
    o.append(_ptr(kind, 'BK_SAMPLE_CALLBACK', 'set', lambda w: w.callback('cb'), 16)); o.append(_ptr(kind, 'BK_SAMPLE_CALLBACK', 'none', lambda w: None, 0))
    return o

def unit():
    o = _common('unit')
    o += [Op('unit', 'BKUnitAttach', 'BKUnitAttach', lambda w: ('o', ctx2(w))),
          Op('unit', 'BKUnitDetach', 'BKUnitDetach', lambda w: ('o',)),
          Op('unit', 'BKUnitClear', 'BKUnitClear', lambda w: ('o',)),
          Op('unit', 'BKUnitReset', 'BKUnitReset', lambda w: ('o',)),
          Op('unit', 'BKDispose', 'BKDispose', lambda w: ('o',))]
    return o

def ctx2(w):
    """another context, of any number of channels"""
    w.ctx('c2', 2); w.set('c2', 'numChannels', w.I.nsym('c2.numChannels', 32, 1, 8)); w.set('c2', 'deltaTime', w.I.nsym('c2.deltaTime', 32, 0, 1 << 30))
    return 'c2'

def track():
    o = _common('track')
    for e in c07.EFF:
        o.append(Op('track', 'BKTrackSetEffect ' + e, 'BKTrackSetEffect', lambda w, e=e: ('o', E(w, e), ints(w, 'eff', 3), 12)))
        o.append(Op('track', 'BKTrackSetEffect %s none' % e, 'BKTrackSetEffect', lambda w, e=e: ('o', E(w, e), None, 0)))
        o.append(_ptr('track', e, 'values', lambda w: ints(w, 'eff', 3), 12))
    o.append(Op('track', 'BKTrackSetEffect short', 'BKTrackSetEffect', lambda w: ('o', w.I.nsym('effect', 32), ints(w, 'eff', 3), w.I.nsym('size', 32, 0, 12))))
    for n in (0, 1, 3, 8, 9): o.append(_ptr('track', 'BK_ARPEGGIO', '%d notes' % n, lambda w, n=n: _arpn(w, n), 4 + 4 * n))
    o.append(_ptr('track', 'BK_ARPEGGIO', 'any', _arp, 36)); o.append(_ptr('track', 'BK_ARPEGGIO', 'none', lambda w: None, 0))
    o.append(_ptr('track', 'BK_INSTRUMENT', 'instrument', otherinstr, 0)); o.append(_ptr('track', 'BK_INSTRUMENT', 'none', lambda w: None, 0))
    o += [Op('track', 'BKTrackAttach', 'BKTrackAttach', lambda w: ('o', ctx2(w))),
          Op('track', 'BKTrackDetach', 'BKTrackDetach', lambda w: ('o',)),
          Op('track', 'BKTrackClear', 'BKTrackClear', lambda w: ('o',)),
          Op('track', 'BKTrackReset', 'BKTrackReset', lambda w: ('o',)),
          Op('track', 'tick', None, lambda w: (None, 'o')),
          Op('track', 'BKDispose', 'BKDispose', lambda w: ('o',))]
    return o

def _arpn(w, n):
    w.raw('arp', 4 + 4 * n); w.st.w('arp').cells[0] = (4, C(n, 32)); w.st.memo = {}
    return 'arp'

BITS = ('BK_1_BIT_UNSIGNED', 'BK_2_BIT_UNSIGNED', 'BK_4_BIT_UNSIGNED', 'BK_8_BIT_SIGNED', 'BK_8_BIT_UNSIGNED', 'BK_16_BIT_SIGNED')
def newframes(w, rid='nf'):
    w.raw(rid, 1 << 32); return rid
def data():
    o = _attrs('data')
    nf = lambda w: w.I.nsym('numFrames', 32); nc = lambda w: w.I.nsym('numChannels', 32)
    o += [_ptr('data', 'BK_SAMPLE_SUSTAIN_RANGE', 'range', lambda w: ints(w, 'rng', 2), 8), _ptr('data', 'BK_SAMPLE_SUSTAIN_RANGE', 'none', lambda w: None, 0)]
    for c in (0, 1): o.append(Op('data', 'BKDataSetFrames copy=%d' % c, 'BKDataSetFrames', lambda w, c=c: ('o', newframes(w), nf(w), nc(w), c)))
    o.append(Op('data', 'BKDataSetFrames NULL', 'BKDataSetFrames', lambda w: ('o', None, nf(w), nc(w), 0)))
    for c in (0, 1): o.append(Op('data', 'BKDataSetFrames own copy=%d' % c, 'BKDataSetFrames', lambda w, c=c: ('o', w.get('o', 'frames'), w.get('o', 'numFrames'), w.get('o', 'numChannels'), c)))
    for b in BITS:
        for e in (None, 'BK_BIG_ENDIAN') if '16' in b else (None,):
            o.append(Op('data', 'BKDataSetData %s%s' % (b, ' ' + e if e else ''), 'BKDataSetData', lambda w, b=b, e=e: ('o', newframes(w), w.I.nsym('dataSize', 32, 0, 1 << 24), nc(w), w.enum(b) | (w.enum(e) if e else 0))))
    o.append(Op('data', 'BKDataSetData any format', 'BKDataSetData', lambda w: ('o', newframes(w), C(16, 32), C(1, 32), w.I.nsym('params', 32))))
    o += [Op('data', 'BKDataNormalize', 'BKDataNormalize', lambda w: ('o',)),
          Op('data', 'BKDataConvert', 'BKDataConvert', lambda w: ('o', convinfo(w))),
          Op('data', 'BKDataLoadRaw', 'BKDataLoadRaw', lambda w: ('o', file(w), nc(w), w.enum('BK_8_BIT_UNSIGNED'))),
          Op('data', 'BKDataLoadWAVE', 'BKDataLoadWAVE', lambda w: ('o', file(w))),
          Op('data', 'BKDataDetach', 'BKDataDetach', lambda w: ('o',)),
          Op('data', 'BKDataInitCopy', 'BKDataInitCopy', lambda w: (blank(w, 'BKData'), 'o')),
          Op('data', 'BKWaveFileWriteData', 'BKWaveFileWriteData', lambda w: (file(w), 'o', w.I.nsym('rate', 32), w.I.nsym('bits', 32))),
          Op('data', 'BKDispose', 'BKDispose', lambda w: ('o',))]
    return o
def convinfo(w):
    w.new('info', 'BKDataConvertInfo', ('sym', '')); return 'info'
def file(w):
    return w.raw('file', 1 << 10, ('undef',)) and 'file' or 'file'
def blank(w, t, rid='cp'):
    w.new(rid, t); return rid

def instr():
    o = []
    for s in range(4):
        for l, so, sl in ((4, 1, 2), (1, 0, 0), (3, 0, 3), (2, 2, 0)):
            o.append(Op('instr', 'BKInstrumentSetSequence %d length %d sustain %d+%d' % (s, l, so, sl), 'BKInstrumentSetSequence', lambda w, s=s, l=l, so=so, sl=sl: ('o', s, ints(w, 'vals', l), l, so, sl)))
    bad = lambda w: w.I.nsym('seq', 32, 4, (1 << 31) - 1)
    neg = lambda w: w.I.nsym('seq', 32, -(1 << 31), -1)
    for nm, s in [(str(s), lambda w, s=s: s) for s in range(4)] + [('beyond', bad), ('negative', neg)]:
        o += [Op('instr', 'BKInstrumentSetSequence %s any sustain' % nm, 'BKInstrumentSetSequence', lambda w, s=s: ('o', s(w), ints(w, 'vals', 4), 4, w.I.nsym('so', 32), w.I.nsym('sl', 32))),
              Op('instr', 'BKInstrumentSetSequence %s none' % nm, 'BKInstrumentSetSequence', lambda w, s=s: ('o', s(w), None, 0, 0, 0)),
              Op('instr', 'BKInstrumentSetEnvelope %s any sustain' % nm, 'BKInstrumentSetEnvelope', lambda w, s=s: ('o', s(w), phases(w, 3), 3, w.I.nsym('so', 32), w.I.nsym('sl', 32)))]
    o += [
          Op('instr', 'BKInstrumentSetSequence any length', 'BKInstrumentSetSequence', lambda w: ('o', 0, w.raw('vals', 1 << 34) and 'vals' or 'vals', w.I.nsym('length', 32), w.I.nsym('so', 32), w.I.nsym('sl', 32))),
          Op('instr', 'BKInstrumentSetEnvelope', 'BKInstrumentSetEnvelope', lambda w: ('o', 0, phases(w, 3), 3, 1, 1)),
          Op('instr', 'BKInstrumentSetEnvelope none', 'BKInstrumentSetEnvelope', lambda w: ('o', 0, None, 0, 0, 0)),
          Op('instr', 'BKInstrumentSetEnvelopeADSR', 'BKInstrumentSetEnvelopeADSR', lambda w: ('o', w.I.nsym('a', 32), w.I.nsym('d', 32), w.I.nsym('s', 32), w.I.nsym('r', 32))),
          Op('instr', 'BKInstrumentDetach', 'BKInstrumentDetach', lambda w: ('o',)),
          Op('instr', 'BKInstrumentInitCopy', 'BKInstrumentInitCopy', lambda w: (blank(w, 'BKInstrument'), 'o')),
          Op('instr', 'BKDispose', 'BKDispose', lambda w: ('o',))]
    return o
def phases(w, n):
    w.raw('ph', 8 * n); return 'ph'

def ctx():
    o = [_ptr('ctx', 'BK_CLOCK_PERIOD', 'value', lambda w: w.raw('per', 8) and 'per' or 'per', 8),
         _ptr('ctx', 'BK_PULSE_KERNEL', 'none', lambda w: None, 0),
         Op('ctx', 'BKContextReset', 'BKContextReset', lambda w: ('o',)),
         Op('ctx', 'BKDispose', 'BKDispose', lambda w: ('o',))]
    for t in ('BK_CLOCK_TYPE_BEAT', 'BK_CLOCK_TYPE_EFFECT'):
        o.append(Op('ctx', 'BKContextAttachDivider ' + t, 'BKContextAttachDivider', lambda w, t=t: ('o', w.div('nd'), w.enum(t))))
    o.append(Op('ctx', 'BKContextAttachDivider any', 'BKContextAttachDivider', lambda w: ('o', w.div('nd'), w.I.nsym('type', 32))))
    return o
def clock():
    return [Op('clock', 'BKClockAttach', 'BKClockAttach', lambda w: ('o', ctx2(w), None)), Op('clock', 'BKClockDetach', 'BKClockDetach', lambda w: ('o',)),
            Op('clock', 'BKClockSetPeriod', 'BKClockSetPeriod', lambda w: ('o', w.I.nsym('period', 64))), Op('clock', 'BKClockReset', 'BKClockReset', lambda w: ('o',)),
            Op('clock', 'BKDispose', 'BKDispose', lambda w: ('o',))]
def div():
    return [Op('div', 'BKDividerAttachToClock', 'BKDividerAttachToClock', lambda w: ('o', w.clock('nk'))), Op('div', 'BKContextAttachDivider', 'BKContextAttachDivider', lambda w: (ctx2(w), 'o', w.enum('BK_CLOCK_TYPE_BEAT'))),
            Op('div', 'BKDividerDetach', 'BKDividerDetach', lambda w: ('o',)),
            Op('div', 'BKDividerReset', 'BKDividerReset', lambda w: ('o',)), Op('div', 'BKDispose', 'BKDispose', lambda w: ('o',))]

def ops(kind):
    return {'unit': unit, 'track': track, 'data': data, 'instr': instr, 'ctx': ctx, 'clock': clock, 'div': div}[kind]()

def fname(p, op):
    if op.fn: return op.fn
    import c25
    return c25.slot_tick(p)

def go(w, op):
    """(state before, function, outcomes)"""
    a = op.prep(w); pre = w.st.fork()
    return pre, fname(w.p, op), w.run(fname(w.p, op), *a)
