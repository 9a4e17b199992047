"""What is always true of the fields of an object between two calls.

`facts(w, st, rid, typ)` lists (group, label, holds?, shown): group 'range' are
documented ranges of settings, 'state' what the generator code relies on.
`arbitrary(...)` is a world in which exactly these facts are assumed."""
from mem import *
import scen, play

K = 1 << 20
NOTES = (0, 96 * K); PITCH = (-48 * K, 48 * K)
SLIDES = {'volume': (0, 32767), 'panning': (-32767, 32767), 'note': NOTES, 'tremoloDelta': (0, 32767), 'tremoloSteps': (0, 1 << 16), 'vibratoSteps': (0, 1 << 16)}
STEPS = (0, 1 << 16)
DIVS = ('arpeggioDivider', 'effectDivider', 'instrDivider')
BIG = (1 << 31) - 1

def shifts(p):
    """the fixed scale of every slide, as the library initialises it"""
    if not hasattr(p, '_shifts'):
        w = World(p); w.track('t', w.enum('BK_SQUARE'))
        p._shifts = {s: w.st.const(w.get('t', s + '.valueShift')) for s in list(SLIDES) + ['tremolo', 'vibrato', 'vibratoDelta']}
    return p._shifts

def within(st, t, lo, hi):
    a, b = st.rng(t); return lo <= a and b <= hi

def less(st, a, b, strict=True):
    if less1(st, a, b, strict): return True
    try: q = st.fork().close()
    except Infeasible: return True
    return less1(q, a, b, strict)
def less1(st, a, b, strict):
    return st.le(a, b, 'U', strict) is True or (lambda x, y: x is not None and y is not None and (x < y or (x == y and not strict)))(st.urng(a)[1], st.urng(b)[0])

def facts(w, st, rid, typ):
    out = []; I = w.I
    g = lambda f: st.simp(I.getf(st, rid, f))
    def rng(f, lo, hi, grp='range', label=None):
        v = g(f); out.append((grp, label or f, within(st, v, lo, hi), '%s = %s, not within %d to %d' % (f, show(v), lo, hi)))
    def lt(a, b, strict, label, grp='range'):
        out.append((grp, label, less(st, a, b, strict), '%s: %s and %s' % (label, show(a), show(b))))
    if typ == 'BKContext':
        rng('numChannels', 1, 8); rng('sampleRate', 16000, 96000)
    if typ == 'BKDivider':
        rng('divider', 1, BIG); rng('counter', 0, BIG); lt(g('counter'), g('divider'), True, 'counter below divider')
    if typ == 'BKData':
        rng('numChannels', 0 if st.const(g('numFrames')) == 0 else 1, 8); rng('numFrames', 0, BIG); rng('samplePitch', *PITCH); rng('numBits', 0, 32)
        rng('sustainOffset', 0, BIG); rng('sustainEnd', 0, BIG)
        lt(g('sustainOffset'), g('sustainEnd'), False, 'sustain range in order'); lt(g('sustainEnd'), g('numFrames'), False, 'sustain range within sample')
    if typ in ('BKUnit', 'BKTrack'):
        pre = 'unit.' if typ == 'BKTrack' else ''
        u = lambda f: g(pre + f)
        rng(pre + 'dutyCycle', 1, 15)
        for i in range(8): rng(pre + 'volume[%d]' % i, 0, 32767)
        rng(pre + 'mute', 0, 1); rng(pre + 'sample.repeatMode', 0, 2)
        per = u('period'); out.append(('range', 'positive period', within(st, per, 0, BIG) and (st.const(per) == 0 or within(st, per, 1 << 15, BIG) or never(w, st, per, 0)), 'period is %s' % show(per)))
        sp = u('sample.period'); lo, hi = st.rng(sp)
        wf = st.const(u('waveform'))
        out.append(('range', 'waveform', wf in [w.enum(x) if x else 0 for x in scen.GEN.values()] or oneof(st, u('waveform'), [w.enum(x) if x else 0 for x in scen.GEN.values()]), 'waveform %s' % show(u('waveform'))))
        ok = any(1 << 12 <= st.rng(x)[0] and st.rng(x)[1] <= 1 << 28 for x in (sp, sub(C(0, 32), sp)))
        out.append(('range', 'sample period', ok, 'sample period is %s' % show(sp)))
        wr = u('phase.wrap')
        out.append(('range', 'phase wrap', within(st, wr, 0, BIG) and (st.const(wr) == 0 or never(w, st, wr, 1)), 'phase wrap is %s' % show(wr)))
        rng(pre + 'sample.timeFrac', 0, K - 1, 'state')
        cnt, ph = u('phase.count'), u('phase.phase')
        rng(pre + 'phase.count', 0 if wf == 0 else 1, 64, 'state')
        names = {w.enum(v): k for k, v in scen.GEN.items() if v and k != 'reverse'}
        k = names.get(wf)
        if k in scen.COUNT:
            out.append(('state', 'number of phases', st.const(cnt) == scen.COUNT[k], '%s has %s phases' % (k, show(cnt))))
            lim = 0xffff if k == 'noise' else scen.COUNT[k] - 1
            out.append(('state', 'phase below count', st.urng(ph)[1] <= lim, 'phase %s of %s' % (show(ph), k)))
        elif k == 'custom' or k == 'sample':
            bad = play.follows(w, st, 'track' if typ == 'BKTrack' else 'unit', rid)
            out.append(('state', 'plays frames of its data', bad is None, bad or ''))
            if k == 'sample':
                d = u('sample.dataState.data')
                n = st.simp(I.getf(st, d[2], 'numFrames')) if d[0] == 'ptr' and d[2] in st.mem and not st.mem[d[2]].freed else C(0, 32)
                for f in ('offset', 'end'):
                    v = u('sample.' + f); out.append(('range', 'range ' + f + ' within the sample', st.rng(v)[0] >= 0 and st.le(v, n, 'S') is True, 'range %s is %s of %s frames' % (f, show(v), show(n))))
                ln, so, se = u('sample.length'), u('sample.sustainOffset'), u('sample.sustainEnd')
                lt(so, se, False, 'sustain range in order'); lt(se, ln, False, 'sustain range within sample range')
                out.append(('state', 'sustain range announced', less(st, so, se) or unset(w, st, rid, pre, so, se), 'announces the sustain range %s to %s' % (show(so), show(se))))
        elif wf == 0: pass
        else: out.append(('state', 'waveform known', within(st, u('waveform'), 0, 5) and st.const(ph) == 0, 'waveform %s' % show(u('waveform'))))
    if typ == 'BKTrack':
        rng('dutyCycle', 1, 15); rng('masterVolume', 0, 32767); rng('curNote', -1, 96 * K); rng('pitch', *PITCH); rng('samplePitch', *PITCH)
        sh = shifts(w.p)
        for s, (lo, hi) in SLIDES.items():
            rng(s + '.endValue', lo << sh[s], hi << sh[s]); rng(s + '.steps', *STEPS)
        for s, k in sh.items(): out.append(('state', s + ' scale', st.const(g(s + '.valueShift')) == k, '%s.valueShift is %s' % (s, show(g(s + '.valueShift')))))
        for d in DIVS:
            rng(d + '.divider', 1, BIG); rng(d + '.counter', 0, BIG); lt(g(d + '.counter'), g(d + '.divider'), True, d + ' counter below divider')
        rng('arpeggio.count', 0, 8)
        off, cnt = g('arpeggio.offset'), g('arpeggio.count')
        out.append(('state', 'arpeggio position', within(st, off, 0, 7), 'arpeggio offset %s of %s' % (show(off), show(cnt))))
    return out

def never(w, st, t, k):
    """t is not k, and was not before"""
    return st.equal(t, C(k, t[1])) is False
def flagbit(w, st, rid, pre):
    b = bits_of(st.simp(w.I.getf(st, rid, pre + 'object.flags')))[w.enum('BKUnitFlagSampleSustainRange').bit_length() - 1]
    return b if b in (0, 1) else st.bitval(b)
def unset(w, st, rid, pre, so, se):
    """an empty range is not announced"""
    if flagbit(w, st, rid, pre) == 0: return True
    # the flag is the comparison itself
    raw = bits_of(st.simp(w.I.getf(st, rid, pre + 'object.flags')))[w.enum('BKUnitFlagSampleSustainRange').bit_length() - 1]
    if raw not in (0, 1) and raw[0][0] == 'cmp' and raw[0][2] in ('ne', 'ult', 'slt') and {raw[0][3], raw[0][4]} == {so, se}: return True
    q = st.fork()
    try: q.assume(('cmp', 1, 'eq', so, se))
    except Infeasible: return True
    return flagbit(w, q, rid, pre) == 0

def oneof(st, t, vals):
    q = st.fork()
    try:
        for v in vals: q.assume(('cmp', 1, 'ne', t, C(v, t[1])))
    except Infeasible: return True
    return False

def fill(w, rid, typ):
    """assume the facts that generalised objects do not have yet"""
    I = w.I
    if typ == 'BKData':
        if w.st.const(w.get(rid, 'frames')) is None or w.get(rid, 'frames')[0] == 'ptr': scen.sustain(w, rid, 'sustainOffset', 'sustainEnd', w.get(rid, 'numFrames'))
        else: w.set(rid, 'sustainOffset', 0); w.set(rid, 'sustainEnd', 0)
        w.set(rid, 'samplePitch', I.nsym(rid + '.pitch', 32, *PITCH)); w.set(rid, 'numBits', I.nsym(rid + '.numBits', 32, 0, 32))
    if typ == 'BKDivider': counter(w, rid, '')
    if typ == 'BKTrack':
        for f, r in (('masterVolume', (0, 32767)), ('curNote', (-1, 96 * K)), ('pitch', PITCH), ('samplePitch', PITCH)): w.set(rid, f, I.nsym('%s.%s' % (rid, f), 32, *r))
        sh = shifts(w.p)
        for s, k in sh.items():
            w.set(rid, s + '.valueShift', k)
            if s in SLIDES: w.set(rid, s + '.endValue', I.nsym('%s.%s.end' % (rid, s), 32, SLIDES[s][0] << k, SLIDES[s][1] << k))
            w.set(rid, s + '.steps', I.nsym('%s.%s.steps' % (rid, s), 32, *STEPS))
        for d in DIVS: counter(w, rid, d + '.')
        counter(w, rid, 'divider.')
        c = I.nsym(rid + '.arp', 32, 0, 8); o = I.nsym(rid + '.arpo', 32, 0, 7)
        w.set(rid, 'arpeggio.count', c); w.set(rid, 'arpeggio.offset', o)

def counter(w, rid, pre):
    d = w.I.nsym(rid + '.' + pre + 'N', 32, 1, BIG); c = w.I.nsym(rid + '.' + pre + 'c', 32, 0, BIG - 1)
    w.st.add_diff(c, d, 'S', -1); w.st.add_diff(c, d, 'U', -1)
    w.set(rid, pre + 'divider', d); w.set(rid, pre + 'counter', c)

CFGS = list(scen.GEN) + ['sample-sustain', 'reverse-sustain', 'stereo', 'empty', 'one']
def arbitrary(kind, cfg, attached, hooks=None, chans=2, fail=True):
    """a player in any state between two calls; the context 'c' and the data 'a' are in any state too"""
    w = World(hooks=hooks, fail_alloc=fail, io_fail=fail); scen.context(w, 'c', chans); w.I.FACTS = 200
    base = {'stereo': 'sample', 'empty': 'sample', 'one': 'sample'}.get(cfg, cfg.split('-')[0])
    scen.player(w, kind, 'o', base, attached=attached, nch=2 if cfg == 'stereo' else 1)
    pre = 'unit.' if kind == 'track' else ''; I = w.I; st = w.st
    S = lambda f, v: w.set('o', pre + f, v)
    if cfg in ('empty', 'one'):
        lo = w.get('o', pre + 'sample.offset'); ln = C(int(cfg == 'one'), 32); S('sample.length', ln); S('sample.end', add(lo, ln)); S('phase.phase', I.nsym('o.any', 32))
        scen.le(w, add(lo, ln), w.get('a', 'numFrames')); st.set_s(add(lo, ln), 0, 1 << 26); S('sample.sustainOffset', 0); S('sample.sustainEnd', 0)
    if base in ('sample', 'reverse'):
        f = list(bits_of(w.get('o', pre + 'object.flags'))); i = w.enum('BKUnitFlagSampleSustainRange').bit_length() - 1
        f[i] = 1 if cfg.endswith('-sustain') else 0; S('object.flags', mkbits(32, tuple(f)))
        if cfg.endswith('-sustain'): scen.le(w, w.get('o', pre + 'sample.sustainOffset'), w.get('o', pre + 'sample.sustainEnd'), -1)
    # zero, or above its least value
    for f, lo in (('period', 1 << 15), ('phase.wrap', 2)): S(f, I.nsym('o.%s.' % f, 32, lo, BIG))
    if w.types.get('a'): fill(w, 'a', 'BKData')
    if kind == 'track': fill(w, 'o', 'BKTrack')
    w.st.memo = {}
    return w

def anyobj(kind, cfg, op, hooks, tier):
    """the objects an operation of another kind works on, the players and data around it in any state"""
    w = world(kind, cfg, op, hooks, tier)
    for r, t in list(w.types.items()):
        if t in ('BKData', 'BKDivider'): fill(w, r, t)
    w.I.FACTS = 200
    if 'RANGE' in op.label or kind == 'new': w.I.MAXSTATES = 64
    w.I.KEEPV = tuple((r, w.off('BKData', f)) for r, t in list(w.types.items()) + [('cp', 'BKData')] if t == 'BKData' for f in ('sustainOffset', 'sustainEnd'))
    keep = {'BKUnit': ('waveform',), 'BKTrack': ('unit.waveform',)}
    w.I.KEEP = tuple(w.I.KEEP) + tuple((r, w.off(t, f)) for r, t in list(w.types.items()) + [('cp', T) for T in keep] for f in keep.get(t, ()))
    return w

def checks(w, st, pre):
    """facts of every object of the heap"""
    for rid, o in list(st.mem.items()):
        t = w.types.get(rid)
        if t is None or o.freed or pre.mem.get(rid) is o or rid.startswith('&'): continue
        for f in facts(w, st, rid, t): yield (rid, t) + f
