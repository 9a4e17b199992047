"""Objects in arbitrary states, shared by the rules on setters and queries."""
from lists import *

CLASSES = {'ctx': 'BKContextClass', 'clock': 'BKClockClass', 'div': 'BKDividerClass', 'unit': 'BKUnitClass', 'track': 'BKTrackClass', 'data': 'BKDataClass', 'instr': 'BKInstrumentClass'}
BUILTIN = ('BK_SQUARE', 'BK_TRIANGLE', 'BK_NOISE', 'BK_SAWTOOTH', 'BK_SINE')

def slot(p, kind, name):
    """function stored in a class table slot"""
    g = p.globals[CLASSES[kind]]
    w = World(p); rid = w.I.glob(w.st, CLASSES[kind])
    v = w.I.rd(w.st, rid, C(p.offset(p.struct('BKClass'), name), 64), 8)
    return v[2] if v[0] == 'fn' else None

def entry_points(p, name):
    """[(kind, function name)] of every class that fills the slot"""
    return [(k, slot(p, k, name)) for k in CLASSES if slot(p, k, name)]

def inv(path, w):
    """documented ranges of stored scalars"""
    leaf = path.split('.')[-1].split('[')[0]
    if path.endswith('numChannels'): return (1, 8)
    if leaf == 'dutyCycle': return (1, 15)
    if leaf in ('mute',): return (0, 1)
    if path.endswith('sampleRate'): return (16000, 96000)
    if leaf in ('volume',) and w == 32: return (0, 32767)
    if leaf == 'masterVolume': return (0, 32767)
    if path.endswith('sample.repeatMode'): return (0, 2)
    if path.endswith('sample.timeFrac'): return (0, (1 << 20) - 1)
    if leaf == 'valueShift': return (0, 30)
    if path.endswith('arpeggio.count'): return (0, 8)
    if leaf in ('numFrames',): return (0, (1 << 27) - 1)
    if leaf == 'numSequences': return (0, 4)
    if leaf == 'curNote': return (-1, 96 << 20)
    return None

def variants(kind, tier='quick'):
    if kind in ('unit', 'track'): return ['free', 'attached', 'sample', 'custom', 'free-sample', 'free-custom']
    if kind == 'data': return ['empty', 'borrowed', 'owned', 'played', 'borrowed-played']
    if kind == 'ctx': return ['empty', 'populated']
    if kind == 'instr': return ['empty', 'used', 'envelope']
    if kind in ('clock', 'div'): return ['plain', 'attached']
    return ['plain']

def setdata(w, rid, frames='borrowed', numFrames=None, numChannels=1):
    """sample data with frames of the given ownership"""
    w.data(rid)
    if frames == 'empty': return rid
    fr = rid + '.fr'
    n = numFrames if numFrames is not None else w.I.nsym(rid + '.numFrames', 32, 2, 1 << 24)
    w.set(rid, 'numFrames', n); w.set(rid, 'numChannels', numChannels)
    w.raw(fr, 1 << 26, kind='heap' if frames == 'owned' else 'param')
    w.set(rid, 'frames', fr)
    if frames == 'owned':
        f = w.get(rid, 'object.flags'); w.set(rid, 'object.flags', C(f[2] | w.enum('BK_DATA_FLAG_COPY'), 32))
    return rid

def play(w, kind, rid, data, wf):
    """make a unit or track the player of `data`, in the state the library leaves it in"""
    pre = 'unit.' if kind == 'track' else ''
    so = w.off('BKTrack', 'unit.sample.dataState') if kind == 'track' else w.off('BKUnit', 'sample.dataState')
    l = L(w, 'data', data); cur = l.walk(w.st)
    l.build(cur + [(rid, so)])
    n = w.get(data, 'numFrames')
    w.set(rid, pre + 'sample.frames', w.get(data, 'frames'))
    w.set(rid, pre + 'waveform', w.enum(wf))
    if kind == 'track': w.set(rid, 'waveform', w.enum(wf))
    w.set(rid, pre + 'sample.offset', 0); w.set(rid, pre + 'sample.end', n)
    if wf == 'BK_SAMPLE':
        w.set(rid, pre + 'sample.length', n); w.set(rid, pre + 'sample.numChannels', w.get(data, 'numChannels')); w.set(rid, pre + 'phase.count', 1)

def rich(kind, variant, hooks=None, gen=True, fail_alloc=False, io_fail=False, chans=2, extra=None):
    """world with object 'o' of `kind` in an arbitrary state of the variant"""
    w = World(hooks=hooks, fail_alloc=fail_alloc, io_fail=io_fail)
    if kind in ('unit', 'track'):
        w.ctx('c', chans); w.set('c', 'sampleRate', w.I.nsym('c.sampleRate', 32, 16000, 96000))
        getattr(w, kind)('o', w.enum('BK_SQUARE'))
        pre = 'unit.' if kind == 'track' else ''
        att = not variant.startswith('free')
        if kind == 'track': w.instr('i')
        if gen:
            w.generalise('o', keep=(pre + 'phase.count', pre + 'waveform', 'waveform', 'divider.object', 'unit.object.instanceSize'), inv=inv)
        if kind == 'track':
            if gen: anytrack(w, 'o', att)
        if att:
            L(w, 'unit', 'c').build([('o', 0)])
            if kind == 'track':
                L(w, 'effect', 'c').build([('o', w.off('BKTrack', 'divider'))])
                L(w, 'clock', 'c').build([('c', w.off('BKContext', 'masterClock'))])
        if variant.endswith('sample') or variant.endswith('custom'):
            setdata(w, 'a', 'borrowed', numChannels=1 if att or variant.endswith('custom') else w.I.nsym('a.numChannels', 32, 1, 8)); play(w, kind, 'o', 'a', 'BK_SAMPLE' if variant.endswith('sample') else 'BK_CUSTOM')
        else:
            w.set('o', pre + 'sample.frames', None)
    elif kind == 'data':
        setdata(w, 'o', {'played': 'owned', 'borrowed-played': 'borrowed'}.get(variant, variant))
        if gen: w.generalise('o', keep=('numFrames', 'numChannels', 'object'), inv=inv)
        if variant.endswith('played'):
            w.ctx('c', chans); w.unit('u'); w.track('t')
            L(w, 'unit', 'c').build([('u', 0)])
            play(w, 'unit', 'u', 'o', 'BK_SAMPLE'); play(w, 'track', 't', 'o', 'BK_CUSTOM')
    elif kind == 'ctx':
        w.ctx('o', chans)
        if gen: w.generalise('o', keep=('numChannels', 'masterClock.object', 'masterClock.callback', 'object'), inv=inv)
        if variant == 'populated':
            w.unit('u'); w.track('t'); w.clock('k'); w.div('d')
            L(w, 'unit', 'o').build([('u', 0), ('t', 0)])
            L(w, 'effect', 'o').build([('t', w.off('BKTrack', 'divider'))])
            L(w, 'beat', 'o').build([('d', 0)])
            L(w, 'clock', 'o').build([('o', w.off('BKContext', 'masterClock')), ('k', 0)])
    elif kind == 'instr':
        w.instr('o')
        if variant != 'empty':
            w.raw('vals', 64)
            if variant == 'used': w.call('BKInstrumentSetSequence', 'o', 0, 'vals', 4, 1, 2); slots = (0,)
            else:
                for k in range(4): w.st.w('vals').cells[8 * k] = (4, C(3 + k, 32)); w.st.w('vals').cells[8 * k + 4] = (4, C(1000 * k, 32))
                w.call('BKInstrumentSetEnvelope', 'o', 0, 'vals', 4, 1, 2); w.call('BKInstrumentSetSequence', 'o', 2, 'vals', 3, 0, 3); slots = (0, 2)
            w.track('t')
            L(w, 'instr', 'o').build([('t', w.off('BKTrack', 'instrState'))])
            for k in slots: w.set('t', 'instrState.states[%d].sequence' % k, w.get('o', 'sequences[%d]' % k)); w.set('t', 'instrState.states[%d].phase' % k, w.enum('BK_SEQUENCE_PHASE_ATTACK'))
            w.set('t', 'instrState.phase', w.enum('BK_SEQUENCE_PHASE_ATTACK')); w.set('t', 'instrState.numActiveSequences', len(slots))
            w.set('t', 'flags', C(w.enum('BKInstrumentFlag') | w.get('t', 'flags')[2], 32))
    else:
        getattr(w, kind)('o')
        if gen: w.generalise('o', keep=('object',), inv=inv)
        if variant == 'attached':
            w.ctx('c', chans); getattr(w, kind)('p'); getattr(w, kind)('q')
            m = [('p', 0), ('o', 0), ('q', 0)]
            if kind == 'clock': m.append(('c', w.off('BKContext', 'masterClock')))
            L(w, 'clock' if kind == 'clock' else 'beat', 'c').build(m)
    return w

def anytrack(w, tr, attached, instr=None):
    """arbitrary track flags consistent with the object: the instrument bit only
    with an instrument, arpeggio bit only with notes, panning bit only when attached"""
    s = ('s', 32, tr + '.flags'); b = [(s, i) for i in range(32)]
    def put(n, v): b[w.enum(n).bit_length() - 1] = v
    if not attached: put('BKPanningEnabledFlag', 0)
    put('BKInstrumentFlag', 1 if instr else 0)
    w.set(tr, 'flags', mkbits(32, tuple(b)))

def changes(w, pre, post, allow=()):
    """every observable memory change between two states; regions in `allow` are ignored"""
    out = [c for c in diff_regions(w, pre, post) if c[0] not in allow]
    for rid, o in post.mem.items():
        if rid in pre.mem or rid.startswith('&') or rid in allow: continue
        if rid.startswith('heap'):
            if not o.freed: out.append((rid, '*', '', 'allocated'))
            continue
        if rid.startswith('@'):
            i = w.p.__dict__.get('_gobj', {}).get(rid[1:])
            if i is not None and (o.cells != i.cells or len(o.dflt) != len(i.dflt)): out.append((rid, '*', '', 'written'))
            continue
        if o.freed: out.append((rid, '*', '', 'released')); continue
        for a, e in o.cells.items():
            d = w.I.dfl(post, rid, o, a, e[0])
            if d != e[1] and post.equal(d, e[1]) is not True: out.append((rid, w.p.leaf(o.type, a)[0] if o.type else '+%d' % a, show(d), show(e[1])))
        if o.sc: out.append((rid, '[unknown index]', '', ''))
    return out

def fx(c): return '%s.%s: %s -> %s' % c[:4]
def where(p, fn): f = p.fn(fn); return '%s:%d %s' % (f.file, f.line, fn)
def attrs(p):
    """name -> value of every attribute constant of the public header"""
    out = {}
    for n, v in p.enums.items():
        out[n] = v
    return out
