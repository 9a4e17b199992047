"""Players of sample data: units and tracks in every state they can be in while playing, and what must
hold of them afterwards."""
from mem import *
from val import ext
import ops as O

SHAPES = ('custom', 'sample', 'range', 'reversed', 'empty', 'sustain')
N_MAX = 1 << 24

def player(w, kind, rid, data, shape, ctx=None, known=False):
    """unit or track `rid` playing `data`; its range lies anywhere in the sample"""
    pre = 'unit.' if kind == 'track' else ''
    getattr(w, kind)(rid, w.enum('BK_SQUARE'))
    w.generalise(rid, keep=(pre + 'phase.count', pre + 'waveform', 'waveform', 'divider.object', 'unit.object.instanceSize'), inv=inv)
    if kind == 'track': anytrack(w, rid, ctx is not None)
    so = w.off('BKTrack', 'unit.sample.dataState') if kind == 'track' else w.off('BKUnit', 'sample.dataState')
    l = L(w, 'data', data); l.build(l.walk(w.st) + [(rid, so)])
    S = lambda k, v: w.set(rid, pre + k, v)
    n = w.get(data, 'numFrames'); nc = w.get(data, 'numChannels'); fr = w.get(data, 'frames')
    wf = w.enum('BK_CUSTOM' if shape == 'custom' else 'BK_SAMPLE')
    S('waveform', wf)
    if kind == 'track': w.set(rid, 'waveform', wf)
    S('sample.frames', fr); S('sample.offset', 0); S('sample.end', n)
    if shape == 'custom':
        c = w.I.nsym(rid + '.count', 32, 2, 64); w.st.add_diff(c, n, 'S', 0); w.st.add_diff(c, n, 'U', 0)
        ph = w.I.nsym(rid + '.ph', 32, 0, 64 - 1); w.st.add_diff(ph, c, 'S', -1); w.st.add_diff(ph, c, 'U', -1)
        S('phase.count', c); S('phase.phase', ph)
    else:
        S('phase.count', 1); S('sample.numChannels', nc)
        if shape in ('sample', 'sustain'):
            S('sample.length', n); ph = w.I.nsym(rid + '.ph', 32, 0, N_MAX - 1); w.st.add_diff(ph, n, 'S', -1); w.st.add_diff(ph, n, 'U', -1)
            S('phase.phase', ph)
        else:
            # 0 <= lo <= hi <= n
            lo, hi = w.I.nsym(rid + '.lo', 32, 0, N_MAX), w.I.nsym(rid + '.hi', 32, 0, N_MAX)
            for a, b in ((lo, hi), (hi, n)): w.st.add_diff(a, b, 'S', 0); w.st.add_diff(a, b, 'U', 0)
            if shape == 'empty': hi = lo
            S('sample.offset', hi if shape == 'reversed' else lo); S('sample.end', lo if shape == 'reversed' else hi)
            ln = sub(hi, lo); S('sample.length', ln)
            p = w.get(data, 'frames')
            S('sample.frames', ('ptr', 64, p[2], add(p[3], ext(mulc(lo, 2 * nc[2]), 64, False))) if nc[0] == 'c' else ('ptr', 64, p[2], w.I.nsym(rid + '.at', 64, 0, 1 << 30)))
            ph = w.I.nsym(rid + '.ph', 32, 0, N_MAX - 1)
            if shape != 'empty': w.st.add_diff(ph, ln, 'S', -1); w.st.add_diff(ph, ln, 'U', -1)
            S('phase.phase', ph if shape != 'empty' else 0)
        q = w.I.nsym(rid + '.period', 32, 1 << 12, 1 << 28)
        S('sample.period', neg(q) if shape == 'reversed' else q)
        if shape == 'sustain':
            a, b = w.I.nsym(rid + '.so', 32, 0, N_MAX), w.I.nsym(rid + '.se', 32, 0, N_MAX)
            for x, y in ((a, b), (b, n)): w.st.add_diff(x, y, 'S', 0); w.st.add_diff(x, y, 'U', 0)
            S('sample.sustainOffset', a); S('sample.sustainEnd', b)
        else: S('sample.sustainOffset', 0); S('sample.sustainEnd', 0)
    if ctx is not None:
        l = L(w, 'unit', ctx); l.build(l.walk(w.st) + [(rid, 0)])
        if kind == 'track':
            l = L(w, 'effect', ctx); l.build(l.walk(w.st) + [(rid, w.off('BKTrack', 'divider'))])
    w.st.memo = {}
    w.I.KEEP = tuple(w.I.KEEP) + tuple((rid, w.off(w.types[rid], pre + f)) for f in ('waveform', 'sample.frames', 'sample.dataState.data'))
    return rid

def neg(t): return sub(C(0, t[1]), t)

def follows(w, st, kind, rid, where_=None):
    """None, or what is wrong with the data the player uses"""
    pre = 'unit.' if kind == 'track' else ''
    G = lambda k: st.simp(w.I.getf(st, rid, pre + k))
    CU, SA = C(w.enum('BK_CUSTOM'), 32), C(w.enum('BK_SAMPLE'), 32)
    wf = G('waveform'); d = G('sample.dataState.data'); fr = G('sample.frames')
    cu, sa = st.equal(wf, CU), st.equal(wf, SA)
    if cu is False and sa is False:
        # silenced, or a built-in waveform: nothing of the sample is used
        if d[0] == 'ptr' and d[2] in st.mem and gone(st, d[2]): return 'still refers to the data %s, which was disposed of' % d[2]
        if kind == 'track':
            tw = st.simp(w.I.getf(st, rid, 'waveform'))
            if st.equal(tw, CU) is not False or st.equal(tw, SA) is not False: return 'is announced as playing the data (waveform %s) but does not play' % show(tw)
        return None
    if cu is None or sa is None: return 'waveform unknown: %s' % show(wf)
    if d[0] != 'ptr': return 'plays the data %s' % show(d)
    if d[2] not in st.mem or gone(st, d[2]): return 'plays the data %s, which was disposed of' % d[2]
    D = lambda k: st.simp(w.I.getf(st, d[2], k))
    f, n, nc = D('frames'), D('numFrames'), D('numChannels')
    if not inlist(w, st, d[2], kind, rid): return 'plays the data %s, which would not tell it about changes' % d[2]
    if f[0] != 'ptr': return 'plays data without frames (%s)' % show(f)
    if st.mem[f[2]].freed: return 'plays data whose frames were released'
    if fr[0] != 'ptr' or fr[2] != f[2]: return 'uses the frames %s, the data has %s' % (show(fr), show(f))
    if cu:
        if st.equal(fr, f) is not True: return 'uses the frames %s, the data has %s' % (show(fr), show(f))
        c, ph = G('phase.count'), G('phase.phase')
        if not (st.le(C(2, 32), c, 'S') and st.le(c, n, 'S')): return 'plays %s frames of %s' % (show(c), show(n))
        if not below(st, ph, c): return 'is at frame %s of %s' % (show(ph), show(c))
        return None
    lo, e, ln, snc, ph = (G(k) for k in ('sample.offset', 'sample.end', 'sample.length', 'sample.numChannels', 'phase.phase'))
    if st.equal(snc, nc) is not True: return 'plays %s channels, the data has %s' % (show(snc), show(nc))
    if not (st.rng(lo)[0] >= 0 and st.le(lo, n, 'S')): return 'begins at frame %s of %s' % (show(lo), show(n))
    if not (st.rng(e)[0] >= 0 and st.le(e, n, 'S')): return 'ends at frame %s of %s' % (show(e), show(n))
    a = [x for x in (lo, e) if st.equal(ln, sub(e if x is lo else lo, x)) is True]
    if not a: return 'plays %s frames of the range from %s to %s' % (show(ln), show(lo), show(e))
    if st.const(nc) is not None:
        k = st.const(nc)
        at = [x for x in a if any(st.equal(fr[3], add(f[3], q)) is True for g in (True, False) for q in (mulc(ext(x, 64, g), 2 * k), mulc(ext(mulc(x, k), 64, g), 2), ext(mulc(x, 2 * k), 64, g)))]
        if not at: return 'plays from %s although its range begins at frame %s' % (show(fr), show(a[0]))
    if st.rng(ln)[0] < 0: return 'plays %s frames' % show(ln)
    q = st.fork()
    try:
        q.assume(('cmp', 1, 'sle', C(2, 32), ln))
        if not below(q, ph, ln) and not (q.le(C(0, 32), ph, 'S') and st.le(ph, sub(ln, C(1, 32)), 'U')): return 'is at frame %s of %s' % (show(ph), show(ln))
    except Infeasible: pass
    return None

def below(st, a, b):
    """0 <= a < b"""
    return st.le(C(0, 32), a, 'S') and (st.le(a, b, 'S', True) or st.le(C(0, 32), b, 'S') and st.le(a, b, 'U', True))
def gone(st, rid):
    return st.mem[rid].freed or rid in DISPOSED
DISPOSED = set()

def inlist(w, st, data, kind, rid):
    so = w.off('BKTrack', 'unit.sample.dataState') if kind == 'track' else w.off('BKUnit', 'sample.dataState')
    f = L(w, 'data', data).walk(st)
    return not isinstance(f, str) and (rid, so) in f
