"""C21: waveform, kernel and tone tables are well formed."""
from objs import *
from report import Report

class Tabs(Hooks):
    """records which constant tables are read, and where"""
    def __init__(s): s.acc = {}
    def access(s, I, st, rid, off, size, write, ins):
        if rid.startswith('@') and not write:
            lo, hi = st.rng(off); a = s.acc.setdefault(rid[1:], [1 << 62, -(1 << 62), I.loc(ins)])
            a[0] = min(a[0], lo); a[1] = max(a[1], hi + (st.const(size) or 1))

def values(p, g, lo, hi):
    """initialiser values of a table of scalars between two byte offsets"""
    G = p.globals[g]; v = {}
    for off, sz, op in G.get('init', []):
        if 'c' in op: v[off] = (sz, tos(int(op['c']), sz * 8))
        elif 'zero' in op: v[off] = (sz, 0)
        else: return None
    sizes = [s for s, _ in v.values()]
    el = G.get('_el') or (min(s for s, x in v.values() if s in (1, 2, 4, 8)) if any(s in (1, 2, 4, 8) for s in sizes) else 2)
    out = []; o = lo
    while o < hi:
        e = v.get(o)
        if e and e[0] == el: out.append(e[1]); o += el; continue
        z = next(((a, s) for a, (s, x) in v.items() if a <= o < a + s and x == 0), None)
        if z is None and o not in v and o >= G['size']: return out + [None]
        out.append(0); o += el
    return out

WAVES = (('BK_SQUARE', 'BK_SQUARE_PHASES', 16), ('BK_TRIANGLE', 'BK_TRIANGLE_PHASES', 32), ('BK_SAWTOOTH', 'BK_SAWTOOTH_PHASES', 7), ('BK_SINE', 'BK_SINE_PHASES', 32))

def wave_tables(p, wf, duty=5):
    """(table, lo, hi, location, number of phases) read by the running unit"""
    h = Tabs(); w = rich('unit', 'attached', hooks=h, chans=1)
    w.set('o', 'waveform', w.enum(wf)); w.set('o', 'mute', 0); w.set('o', 'dutyCycle', duty)
    # number of phases the object reports
    w.raw('out', 4); 
    outs = w.run('BKGetAttr', 'o', w.enum('BK_NUM_PHASES'), 'out')
    ns = {st.const(w.I.rd(st, 'out', C(0, 64), 4)) for st, r in outs if st.const(r) == 0}
    n = ns.pop() if len(ns) == 1 else None
    # and the number set together with the waveform
    w2 = rich('unit', 'attached', chans=1, gen=False)
    o2 = w2.run('BKSetAttr', 'o', w.enum('BK_WAVEFORM'), w.enum(wf))
    cnt = {st.const(field(w2, st, 'o', 'phase.count')) for st, r in o2 if st.const(r) == 0}
    n2 = cnt.pop() if len(cnt) == 1 else None
    if n2 is None: n2 = 1
    w.set('o', 'phase.phase', w.I.nsym('ph', 32, 0, n2 - 1)); w.set('o', 'phase.count', n2)
    w.set('o', 'period', w.I.nsym('per', 32, 1 << 10, 1 << 24)); w.set('o', 'time', w.I.nsym('tm', 32, 0, 1 << 30)); w.set('o', 'volume[0]', w.I.nsym('vol', 32, 1, 32767))
    h.acc = {}
    w.run('BKUnitRun', 'o', w.I.nsym('end', 32, 0, 1 << 30))
    kern = kernels(p)
    t = [(g, a) for g, a in h.acc.items() if g not in kern]
    return t, n2, w.I.visited_fn

def kernels(p):
    return [g for g, G in p.globals.items() if G.get('di') is not None and p.strip(G['di']) == p.strip(p.struct('BKBufferPulse')) and not G.get('decl')] if 'BKBufferPulse' in p.structs else []

def waves(rep, p):
    for wf, _, nn in WAVES:
        for duty in (range(1, nn) if wf == 'BK_SQUARE' else (5,)):
            ts, n, fns = wave_tables(p, wf, duty); rep.funcs |= fns
            inst = wf + (' duty %d' % duty if wf == 'BK_SQUARE' else '')
            rep.ob('phase-count', n == nn, wf, 'BKUnit.c', 'the number of phases is %s, documented %d' % (n, nn), key='phase-count/' + wf)
            if len(ts) != 1:
                if not ts: rep.notes.append('%s does not read a constant table' % wf); rep.ob('table-found', False, inst, 'BKUnit.c', 'no level table is read for this waveform'); continue
                rep.ob('table-found', False, inst, ts[0][1][2], 'several tables are read for one waveform: %s' % [t[0] for t in ts]); continue
            g, (lo, hi, loc) = ts[0]
            v = values(p, g, lo, hi); w = '%s:%s %s' % (p.globals[g].get('file', '?'), p.globals[g].get('line', '?'), g)
            rep.count('table entries', len(v))
            rep.ob('phases-in-table', hi <= p.globals[g]['size'] and len(v) == n and None not in v, inst, loc, 'phases 0 to %d read %d entries at byte %d of a table of %d bytes' % (n - 1, len(v), lo, p.globals[g]['size']))
            if len(v) != n or None in v: continue
            if wf == 'BK_SQUARE':
                on = [i for i, x in enumerate(v) if x]
                s = {x for x in v if x}
                rep.ob('square-duty', len(on) == duty, inst, w, 'row %d of the square table has %d of 16 phases set' % (duty, len(on)))
                rep.ob('square-level', len(s) == 1 and abs(list(s)[0]) == 32767, inst, w, 'a square row has the levels %s' % sorted(s))
                rise = sum(1 for i in range(n) if v[i] and not v[i - 1])
                rep.ob('square-one-pulse', rise == 1, inst, w, 'a square row has %d pulses per period' % rise)
            elif wf == 'BK_SAWTOOTH':
                d = {v[i] - v[i + 1] for i in range(n - 1)}
                rep.ob('sawtooth-linear', len(d) == 1 and min(d) > 0, inst, w, 'the sawtooth steps are %s' % sorted(d))
            else:
                # mirrored within each half wave
                h = n // 2
                if wf == 'BK_TRIANGLE':
                    for k in range(h):
                        rep.ob('half-mirrored', v[k] == v[h - 1 - k], '%s phase %d' % (inst, k), w, 'phases %d and %d differ: %d, %d' % (k, h - 1 - k, v[k], v[h - 1 - k]))
                        a, b = v[h + k], v[n - 1 - k]
                        rep.ob('half-mirrored', a == b, '%s phase %d' % (inst, h + k), w, 'phases %d and %d differ: %d, %d' % (h + k, n - 1 - k, a, b))
                        rep.ob('halves-opposite', abs(v[h + k] + v[k] + 2048) <= 1, '%s phase %d' % (inst, k), w, 'phase %d is %d but phase %d is %d' % (k, v[k], h + k, v[h + k]))
                    for k in range(n // 4 - 1):
                        rep.ob('triangle-linear', abs(v[k + 1] - v[k] - 2048) <= 1, '%s phase %d' % (inst, k), w, 'step from %d to %d is not the common step' % (v[k], v[k + 1]))
                else:
                    for k in range(1, h):
                        rep.ob('half-mirrored', v[k] == v[h - k], '%s phase %d' % (inst, k), w, 'phases %d and %d differ: %d, %d' % (k, h - k, v[k], v[h - k]))
                    for k in range(h):
                        rep.ob('halves-opposite', v[h + k] == -v[k], '%s phase %d' % (inst, k), w, 'phases %d and %d are %d and %d' % (k, h + k, v[k], v[h + k]))
                    for k in range(n // 4):
                        rep.ob('sine-rising', v[k + 1] > v[k], '%s phase %d' % (inst, k), w, 'the quarter wave does not rise: %d, %d' % (v[k], v[k + 1]))
                    for k in range(1, n // 4 - 1):
                        rep.ob('sine-curved', 2 * v[k] - v[k - 1] - v[k + 1] > 0 and (2 * v[k] - v[k - 1] - v[k + 1]) < (2 * v[k + 1] - v[k] - v[k + 2]) + 3, '%s phase %d' % (inst, k), w, 'the quarter wave is not curved like a sine at %d' % v[k])
                rep.ob('wave-zero', v[0] == 0, inst, w, 'the wave does not start at 0')
            rep.ob('table-const', p.globals[g]['const'], inst, w, 'the level table is writable')

def kernel_rule(rep, p):
    ks = kernels(p); totals = set()
    for g in ks:
        G = p.globals[g]; v = values(p, g, 0, G['size']); w = '%s:%s %s' % (G.get('file', '?'), G.get('line', '?'), g)
        n = 32
        rows = [v[i:i + n] for i in range(0, len(v), n)]
        rep.ob('kernel-shape', len(v) == 32 * 32, g, w, 'kernel has %d entries' % len(v))
        tot = {}
        for r in rows: tot.setdefault(sum(r), []).append(r)
        common = max(tot, key=lambda s: len(tot[s]))
        rep.count('table entries', len(v))
        for i, r in enumerate(rows):
            rep.ob('kernel-row-total', sum(r) == common, '%s row %d' % (g, i), w, 'row %d adds up to %d, the other rows to %d' % (i, sum(r), common))
        rep.ob('kernel-total', common in (32767, 32768), g, w, 'a step of the kernel settles at %d/32768 of its height' % common)
        totals.add(common)
        rep.ob('table-const', G['const'], g, w, 'the kernel is writable')
    rep.ob('kernel-total', len(totals) == 1, 'all kernels', 'BKBuffer.c', 'kernels settle at different heights: %s' % totals)
    rep.ob('kernels-found', len(ks) >= 2, str(ks), 'BKBuffer.c', 'fewer than two pulse kernels')
    # the selection table points at them, one each
    sel = [g for g, G in p.globals.items() if any(isinstance(op, dict) and op.get('g') in ks for _, _, op in G.get('init', []))]
    for g in sel:
        t = [op.get('g') for _, _, op in p.globals[g]['init']]
        rep.ob('kernel-selection', len(set(t)) == len(t) and all(x in ks for x in t), g, g, 'the kernel selection table contains %s' % t)

def tone_rule(rep, p):
    U = 1 << 20
    NMIN, NMAX = p.enum('BK_C_0'), p.enum('BK_C_8')
    for fn, falling, rate in (('BKTonePeriodLookup', True, 44100), ('BKTonePeriodLookup', True, 16000), ('BKTonePeriodLookup', True, 96000), ('BKLog2PeriodLookup', False, None)):
        h = Tabs(); w = World(hooks=h)
        args = lambda t: [t] + ([C(rate, 32)] if rate else [])
        # whole table, any tone at all
        T = ('s', 32, 'tone')
        w.run(fn, *args(T)); rep.funcs |= w.I.visited_fn
        whole = []
        for n in range(NMIN, NMAX + 1):
            outs = w.run(fn, *args(C(n * U, 32)))
            vs = {st.const(r) for st, r in outs}
            whole.append(vs.pop() if len(vs) == 1 else None)
        inst0 = fn + (' at %d Hz' % rate if rate else '')
        wl = where(p, fn)
        rep.ob('tone-defined', None not in whole, inst0, wl, 'the period of a whole note is not a single value')
        if None in whole: continue
        for n in range(NMIN, NMAX):
            a, b = whole[n - NMIN], whole[n + 1 - NMIN]
            rep.ob('tone-monotone', a > b if falling else a < b, '%s note %d' % (inst0, n), wl, 'notes %d and %d have the periods %d and %d' % (n, n + 1, a, b))
        # interpolation stays between neighbouring notes
        for n in range(NMIN, NMAX):
            x = w.I.nsym('f%d' % n, 32, n * U, n * U + U - 1)
            outs = w.run(fn, *args(x))
            lo, hi = sorted((whole[n - NMIN], whole[n + 1 - NMIN]))
            slack = 0 if falling else 0
            for st, r in outs:
                a, b = st.urng(r)
                rep.ob('tone-between', lo - slack <= a and b <= hi + slack, '%s between notes %d and %d' % (inst0, n, n + 1), wl, 'a fractional tone has a period from %d to %d, its neighbours have %d and %d' % (a, b, lo, hi))
        # outside the range the nearest note
        for x, y, nm in ((w.I.nsym('below', 32, -(1 << 31), NMIN * U), whole[0], 'below'), (w.I.nsym('above', 32, NMAX * U, (1 << 31) - 1), whole[-1], 'above')):
            for st, r in w.run(fn, *args(x)):
                rep.ob('tone-clamped', st.const(r) == y, '%s %s the range' % (inst0, nm), wl, 'a tone %s the range has the period %s, not the one of the nearest note %d' % (nm, show(r), y))
        # one base period explains all notes up to the rounding of the tables
        tabs = [g for g in h.acc if p.globals[g]['const']]
        rep.ob('table-found', len(tabs) == 1, inst0, wl, 'the periods come from %s' % tabs)
        for g in tabs:
            v = values(p, g, 0, p.globals[g]['size'])
            if rate not in (None, 44100): continue
            rep.count('table entries', len(v))
            loc = '%s:%s %s' % (p.globals[g].get('file', '?'), p.globals[g].get('line', '?'), g)
            rep.ob('tone-table-size', len(v) == NMAX - NMIN + 1, g, loc, 'the table has %d entries for %d notes' % (len(v), NMAX - NMIN + 1))
            for i in range(len(v) - 12):
                a, b = (v[i], v[i + 12]) if falling else (v[i + 12], v[i])
                rep.ob('octave-halves', abs(a - 2 * b) <= 1, '%s entry %d' % (g, i), loc, 'entry %d is %d, one octave up %d' % (i, v[i], v[i + 12]))
            lo, hi = 0.0, 1e30; wide = 1.01
            for i, x in enumerate(v):
                f = 2.0 ** (i / 12.0)
                a, b = ((x - wide) * f, (x + wide) * f) if falling else ((x - wide) / f, (x + wide) / f)
                if a > hi or b < lo:
                    rep.ob('equal-tempered', False, '%s entry %d' % (g, i), loc, 'entry %d (%d) does not belong to the geometric series of the others' % (i, x))
                else: rep.ob('equal-tempered', True, '%s entry %d' % (g, i), loc); lo, hi = max(lo, a), min(hi, b)

def names(rep, p):
    st_en = next((t for t in p.types if t.get('kind') == 'enum' and any(n == 'BK_RETURN_TYPE' for n, _ in t['vals'])), None)
    w = World(); names = {}; text = {}
    for n, v in st_en['vals']:
        if n in ('BK_RETURN_TYPE', 'BK_SUCCESS'): continue
        outs = w.run('BKStatusGetName', C(int(v), 32))
        rep.ob('status-named', len(outs) == 1, n, where(p, 'BKStatusGetName'), 'no name for status %s' % n)
        for st, r in outs:
            g = r[2][1:] if r[0] == 'ptr' and r[2].startswith('@') else None
            rep.ob('status-named', g is not None, n, where(p, 'BKStatusGetName'), 'the name of %s is %s' % (n, show(r)))
            if g:
                t = ''.join(chr(int(op['c'])) for _, _, op in p.globals[g].get('init', []) if 'c' in op and int(op['c']))
                text[n] = t or g
                rep.ob('status-unique', t not in names, n, where(p, 'BKStatusGetName'), '%s and %s are both called "%s"' % (n, names.get(t), t)); names[t] = n
    rep.funcs |= w.I.visited_fn
    # any other value: a name, no table access outside
    class B(Hooks):
        def access(s, I, st, rid, off, size, write, ins):
            o = st.mem[rid]
            if o.size is not None and rid.startswith('@'):
                lo, hi = st.rng(off)
                rep.ob('status-lookup-bounds', lo >= 0 and hi + (st.const(size) or 0) <= st.const(o.size), 'any status', I.loc(ins), 'the lookup reaches byte %d..%d of a table of %s bytes' % (lo, hi, st.const(o.size)))
    w = World(hooks=B()); S = ('s', 32, 'status')
    unknown = None
    for st, r in w.run('BKStatusGetName', S):
        rep.ob('status-named', st.equal(r, NULL) is not True, 'any status', where(p, 'BKStatusGetName'), 'some status has no name')
    for t in p.types:
        if t.get('kind') != 'enum' or not t['vals'] or not any(n.endswith('_TYPE') for n, _ in t['vals'][:2]): continue
        for n, v in t['vals']:
            key_ = int(v) & 0xffffffff
            o = names.setdefault(('value', key_), n)
            rep.ob('constant-unique', o == n, n, 'BKBase.h', '%s and %s have the same value %#x' % (n, o, key_))

def check(rep):
    p = program()
    waves(rep, p); kernel_rule(rep, p); tone_rule(rep, p); names(rep, p)
    for r, n in (('kernel-row-total', 64), ('tone-monotone', 380), ('tone-between', 380), ('status-named', 13), ('constant-unique', 60), ('square-duty', 15)): rep.need(r, n)
    return rep.finish('other', 'The constant tables are found by what the running unit, the tone lookups and the context read, and their initialisers are checked entry by entry: kernel row totals, square duty, symmetry of triangle and sine, sawtooth steps, tone periods (order, octave, equal temperament), status names and constant values. The lookups are analysed for whole, fractional and out-of-range tones.', p)
