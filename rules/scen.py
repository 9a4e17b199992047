"""Every public operation on objects in every state the library can leave them in.

`tasks(tier)` lists (name, builder, function, arguments); a rule runs them all
with its own hooks.  Objects are arbitrary within the stored ranges that C09
shows to be kept by every operation."""
from objs import *

GEN = {'none': 0, 'square': 'BK_SQUARE', 'triangle': 'BK_TRIANGLE', 'noise': 'BK_NOISE', 'saw': 'BK_SAWTOOTH', 'sine': 'BK_SINE', 'custom': 'BK_CUSTOM', 'sample': 'BK_SAMPLE', 'reverse': 'BK_SAMPLE'}
COUNT = {'square': 16, 'triangle': 32, 'noise': 8, 'saw': 7, 'sine': 32}
PERIOD = (1 << 12, 1 << 28)

def le(w, a, b, k=0):
    """assume a <= b + k (signed)"""
    for t in (a, b):
        if t[0] == 'c' and w.st.const(a) is not None and w.st.const(b) is not None: return
    w.st.add_diff(a, b, 'S', k); w.st.add_diff(a, b, 'U', k)

def frames(w, data, nch, owned=False):
    """sample data `data` of numFrames = lo + len + rest frames; returns (lo, len, numFrames)"""
    I = w.I
    lo = I.nsym(data + '.lo', 32, 0, 1 << 24); ln = I.nsym(data + '.len', 32, 0, 1 << 24); rest = I.nsym(data + '.rest', 32, 0, 1 << 24)
    n = add(add(lo, ln), rest)
    w.st.set_s(n, 2, 1 << 26)
    x = lambda t: ext(t, 64, False)
    size = add(add(mulc(x(lo), 2 * nch), mulc(x(ln), 2 * nch)), mulc(x(rest), 2 * nch))
    w.I.region(w.st, data + '.fr', None, 'heap' if owned else 'param', size, ('sym', ''))
    w.set(data, 'frames', data + '.fr'); w.set(data, 'numFrames', n); w.set(data, 'numChannels', nch)
    w.set(data, 'numBits', I.nsym(data + '.numBits', 32, 1, 16))
    w.set(data, 'samplePitch', I.nsym(data + '.pitch', 32, -(48 << 20), 48 << 20))
    sustain(w, data, 'sustainOffset', 'sustainEnd', n)
    if owned:
        f = w.get(data, 'object.flags'); w.set(data, 'object.flags', C(f[2] | w.enum('BK_DATA_FLAG_COPY'), 32))
    return lo, ln, n

def sustain(w, rid, a, b, n):
    so = w.I.nsym(rid + '.so', 32, 0, 1 << 26); se = w.I.nsym(rid + '.se', 32, 0, 1 << 26)
    le(w, so, se); le(w, se, n)
    w.set(rid, a, so); w.set(rid, b, se)

def player(w, kind, rid, cfg, ctx='c', attached=True, nch=1, data='a', instr=None, owned=False, nchan=None):
    """unit or track `rid` in configuration cfg, everything else arbitrary"""
    getattr(w, kind)(rid, w.enum('BK_SQUARE'))
    I = w.I; pre = 'unit.' if kind == 'track' else ''
    keep = (pre + 'object.instanceSize', pre + 'waveform', 'waveform', 'divider')
    w.generalise(rid, keep=keep, inv=inv)
    wf = GEN[cfg]; wf = w.enum(wf) if wf else 0
    w.set(rid, pre + 'waveform', wf)
    if kind == 'track': w.set(rid, 'waveform', wf)
    if cfg in COUNT: cnt = C(COUNT[cfg], 32)
    elif cfg == 'none': cnt = I.nsym(rid + '.count', 32, 1, 64)
    elif cfg == 'custom': cnt = I.nsym(rid + '.count', 32, 2, 64)
    else: cnt = C(1, 32)
    w.set(rid, pre + 'phase.count', cnt)
    ph = I.nsym(rid + '.ph', 32)
    w.set(rid, pre + 'phase.phase', ph)
    if cfg == 'noise': w.st.set_u(ph, 0, 0xffff)
    elif cfg in COUNT: w.st.set_u(ph, 0, COUNT[cfg] - 1)
    elif cfg == 'custom': w.st.set_u(ph, 0, 63); le(w, ph, cnt, -1)
    wrap = I.nsym(rid + '.wrap', 32, 0, (1 << 31) - 1); w.set(rid, pre + 'phase.wrap', wrap)
    w.set(rid, pre + 'phase.wrapCount', I.nsym(rid + '.wrapCount', 32, 0, (1 << 31) - 1))
    w.set(rid, pre + 'period', I.nsym(rid + '.period', 32, 0, (1 << 31) - 1))
    w.set(rid, pre + 'sample.period', I.nsym(rid + '.speriod', 32, *PERIOD))
    w.set(rid, pre + 'sample.frames', None)
    if cfg in ('custom', 'sample', 'reverse'):
        w.data(data); lo, ln, n = frames(w, data, nch, owned)
        so = w.off('BKTrack', 'unit.sample.dataState') if kind == 'track' else w.off('BKUnit', 'sample.dataState')
        L(w, 'data', data).build([(rid, so)])
        x = lambda t: ext(t, 64, False)
        if cfg == 'custom':
            w.st.add_diff(cnt, n, 'S', 0); w.st.add_diff(cnt, n, 'U', 0)
            w.set(rid, pre + 'sample.frames', data + '.fr')
            w.set(rid, pre + 'sample.offset', 0); w.set(rid, pre + 'sample.end', n)
        else:
            w.set(rid, pre + 'sample.frames', ('ptr', 64, data + '.fr', mulc(x(lo), 2 * nch)))
            hi = add(lo, ln); w.st.set_s(hi, 0, 1 << 26)
            w.set(rid, pre + 'sample.offset', lo if cfg == 'sample' else hi); w.set(rid, pre + 'sample.end', hi if cfg == 'sample' else lo)
            w.set(rid, pre + 'sample.length', ln); w.set(rid, pre + 'sample.numChannels', nch)
            w.st.set_s(ln, 2, 1 << 24)
            w.st.set_u(ph, 0, (1 << 24) - 1); le(w, ph, ln, -1)
            sustain(w, rid, pre + 'sample.sustainOffset', pre + 'sample.sustainEnd', ln)
            sp = w.I.nsym(rid + '.speriod', 32, *(PERIOD if cfg == 'sample' else (-PERIOD[1], -PERIOD[0])))
            w.set(rid, pre + 'sample.period', sp)
    if kind == 'track':
        anytrack(w, rid, attached, instr)
    if attached:
        l = L(w, 'unit', ctx); l.build(l.walk(w.st) + [(rid, 0)])
        if kind == 'track':
            l = L(w, 'effect', ctx); l.build(l.walk(w.st) + [(rid, w.off('BKTrack', 'divider'))])
    return rid

def context(w, rid='c', chans=2):
    w.ctx(rid, chans); w.set(rid, 'sampleRate', w.I.nsym(rid + '.sampleRate', 32, 16000, 96000))
    L(w, 'clock', rid).build([(rid, w.off('BKContext', 'masterClock'))])
    for i in range(chans): channel(w, rid, i)
    return rid

def channel(w, rid, i):
    """any buffer content"""
    b = w.get(rid, 'channels')
    return b
