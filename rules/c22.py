"""C22: a generator adds exactly the differences of the levels it remembers."""
from scen import *
from cbs import eq, cmp, split
from report import Report
from val import evalt
import ops as O

NCH = 8
def reg(w):
    """ghost memory: the level every channel has reached through the pulses added to it"""
    w.raw('ghost', 4 * NCH)
    for i in range(NCH): w.st.w('ghost').cells[4 * i] = (4, w.get('o', LP % i))
    w.st.memo = {}
LP = 'lastPulse[%d]'

def ghost(log=None):
    """summary of BKBufferAddPulse: add the pulse to the ghost level of its channel"""
    def fn(I, st, args, ins):
        buf, t, p = args[0], args[1], args[2]
        sz = I.p.sizeof(I.p.struct('BKBuffer'))
        off = st.const(buf[3]) if buf[0] == 'ptr' else None
        if off is None or off % sz: raise AnalysisBroken('channel of a pulse unknown: %s' % show(buf))
        i = off // sz
        if log: log(I, st, i, t, p)
        v = I.rd(st, 'ghost', C(4 * i, 64), 4)
        st.w('ghost').cells[4 * i] = (4, st.simp(add(v, p))); st.memo = {}
        return [(st, C(0, ins['w']) if ins['w'] else None)]
    return fn

def where(w, fn): f = w.p.fn(fn); return '%s:%d %s' % (f.file, f.line, fn)

def need(w, fn):
    if fn not in w.p.funcs: raise AnalysisBroken('%s is gone' % fn)

def levels(rep, tier, cfg):
    """after any run, in any state, the remembered level of every channel is the level reached by the pulses"""
    for n in (1, 2) if tier == 'quick' else (1, 2, 3, 4):
        for nch in {1, n} if cfg in ('sample', 'reverse') else (1,):
            w = World(); need(w, 'BKBufferAddPulse'); context(w, 'c', n)
            player(w, 'unit', 'o', cfg, nch=nch); reg(w)
            w.I.summaries['BKBufferAddPulse'] = ghost()
            outs = w.run('BKUnitRun', 'o', w.I.nsym('end', 32, 0, 1 << 31))
            inst = '%s on %d channels, %d-channel data' % (cfg, n, nch)
            rep.ob('level-remembered', bool(outs), inst, where(w, 'BKUnitRun'), 'the call does not return')
            for st, ret in outs:
                m = None
                for i in range(NCH):
                    a, b = field(w, st, 'o', LP % i), w.I.rd(st, 'ghost', C(4 * i, 64), 4)
                    if not eq(st, a, b): m = 'channel %d: remembers level %s after pulses up to level %s' % (i, show(a), show(b)); break
                rep.ob('level-remembered', m is None, inst, where(w, 'BKUnitRun'), m or '')
            rep.funcs |= w.I.visited_fn

def silent(rep, cfg):
    """a muted player leaves every channel where it is"""
    w = World(); need(w, 'BKBufferAddPulse'); context(w, 'c', 2)
    player(w, 'unit', 'o', cfg); reg(w); w.set('o', 'mute', 1); w.set('o', 'period', 1 << 20); w.set('o', 'time', 0)
    w.set('o', 'sample.period', ((-1 if cfg == 'reverse' else 1) << 20) & 0xffffffff)
    if cfg in ('sample', 'reverse'): w.set('o', 'sample.callback.func', None); w.set('o', 'sample.repeatMode', w.enum('BK_REPEAT'))
    w.I.summaries['BKBufferAddPulse'] = ghost()
    for st, ret in w.run('BKUnitRun', 'o', 2 << 20):
        bad = [k for k in range(2) if not eq(st, w.I.rd(st, 'ghost', C(4 * k, 64), 4), w.get('o', LP % k))]
        rep.ob('muted-silent', not bad, cfg, where(w, 'BKUnitRun'), 'channel %s of a muted player is moved to level %s' % (bad, show(w.I.rd(st, 'ghost', C(4 * (bad or [0])[0], 64), 4))))
    rep.funcs |= w.I.visited_fn

STEPS = 3
def scale(rep, tier, cfg):
    """the level is the waveform value scaled by the volume of the channel, at the same phase on every channel"""
    ctx_n = 3
    duties = (1, 4, 8, 9, 15) if tier == 'quick' else range(1, 16)
    if cfg in COUNT and cfg != 'noise': phases = [(p, d, 0) for p in range(COUNT[cfg]) for d in (duties if cfg == 'square' else (4,))]
    elif cfg == 'noise': phases = [(p, 4, wr) for p in (0, 1, 0x4a41, 0x8001, 0xffff, 12) for wr in (0, 2, 3)]
    elif cfg == 'custom': phases = [(p, 4, wr) for p in range(5) for wr in (0, 2)]
    else: phases = [(p, 4, 0) for p in range(8)]
    for ph, duty, wrap in phases:
        for nch in (1, ctx_n) if cfg in ('sample', 'reverse') else (1,):
            w = World(); need(w, 'BKBufferAddPulse'); context(w, 'c', ctx_n)
            player(w, 'unit', 'o', cfg, nch=nch)
            I = w.I
            frames = {}
            if cfg in ('custom', 'sample', 'reverse'):
                cnt = 5 if cfg == 'custom' else 8
                w.raw('fs', 2 * cnt * nch)
                for k in range(cnt * nch):
                    v = ((k * 7919 + 1234) * 13 % 65536) - 32768
                    w.st.w('fs').cells[2 * k] = (2, C(v & 0xffff, 16)); frames[k] = v
                w.set('a', 'frames', 'fs'); w.set('a', 'numFrames', cnt); w.set('o', 'sample.frames', 'fs')
                w.set('o', 'sample.sustainOffset', 0); w.set('o', 'sample.sustainEnd', 0)
                fl = w.get('o', 'object.flags')
                sus = [i for n in ('BKUnitFlagSampleSustainRange', 'BKUnitFlagSampleSustainJump', 'BKUnitFlagRelease') for i in range(32) if w.enum(n) >> i & 1]
                w.set('o', 'object.flags', mkbits(32, tuple(0 if i in sus else b for i, b in enumerate(bits_of(fl)))))
                w.set('o', 'sample.callback.func', None)
                rev = cfg == 'reverse'
                w.set('o', 'sample.offset', cnt if rev else 0); w.set('o', 'sample.end', 0 if rev else cnt)
                w.set('o', 'sample.length', cnt); w.set('o', 'sample.numChannels', nch)
                if cfg == 'custom': w.set('o', 'phase.count', cnt)
                w.set('o', 'sample.period', (-(1 << 20) if rev else 1 << 20) & 0xffffffff); w.set('o', 'sample.timeFrac', 0)
                w.set('o', 'sample.repeatMode', w.enum('BK_REPEAT'))
            w.set('o', 'phase.phase', ph); w.set('o', 'phase.wrap', wrap); w.set('o', 'phase.wrapCount', wrap); w.set('o', 'dutyCycle', duty)
            w.set('o', 'mute', 0); w.set('o', 'period', 1 << 20); w.set('o', 'time', 0)
            v = [I.nsym('v%d' % i, 32, 1, 32767) for i in range(2)]
            for i, x in enumerate((v[0], C(0, 32), v[1])): w.set('o', 'volume[%d]' % i, x)
            for i in range(ctx_n): w.set('o', LP % i, 0)
            reg(w)
            I.summaries['BKBufferAddPulse'] = ghost(lambda I, st, i, t, p: st.ev(('pulse', i, t, p)))
            inst = '%s, phase %d%s%s%s' % (cfg, ph, ', duty cycle %d' % duty if cfg == 'square' else '', ', wrap %d' % wrap if wrap else '', ', %d-channel data' % nch if nch > 1 else '')
            outs = w.run('BKUnitRun', 'o', STEPS << 20)
            rep.ob('level-scale', len(outs) >= 1, inst, where(w, 'BKUnitRun'), 'the call does not return')
            for st, ret in outs:
                rep.ob('level-scale', True, inst, where(w, 'BKUnitRun'))
                m = judge(w, st, cfg, nch, v, frames, ph, wrap)
                rep.ob('level-scale', m is None, inst, where(w, 'BKUnitRun'), m or '')
            rep.funcs |= w.I.visited_fn

def judge(w, st, cfg, nch, v, frames, ph, wrap):
    ev = [[], [], []]; lvl = [C(0, 32)] * 3
    for e in st.events():
        if e[0] != 'pulse': continue
        _, i, t, p = e
        lvl[i] = st.simp(add(lvl[i], p)); ev[i].append((st.const(t), lvl[i]))
    for i in (0, 2):
        if len(ev[i]) != STEPS: return 'channel %d gets %d pulses in %d steps' % (i, len(ev[i]), STEPS)
        if [t for t, _ in ev[i]] != [k << 20 for k in range(STEPS)]: return 'channel %d gets its pulses at %s' % (i, [t for t, _ in ev[i]])
    if any(st.const(l) != 0 for t, l in ev[1]): return 'a channel with volume 0 reaches level %s' % show(ev[1][-1][1])
    cnt = len(frames) // nch if frames else 0
    for k in range(STEPS):
        X = []
        for i, vol in ((0, v[0]), (2, v[1])):
            l = ev[i][k][1]
            x = value(w, st, l, vol)
            if x is None: return 'step %d: the level of channel %d is %s, not a waveform value scaled by its volume' % (k, i, show(l))
            if frames:
                q = (ph + (k if not wrap or k < wrap - 1 else k - (wrap - 1) - ph) if cfg == 'custom' else ph + k if cfg == 'sample' else ph - k) % cnt
                want = frames[q * nch + (i if nch > 1 else 0)]
                if x != want: return 'step %d: channel %d plays value %d instead of frame %d (%d)' % (k, i, x, q, want)
            X.append(x)
        if nch == 1 and X[0] != X[1]: return 'step %d: channel 0 plays value %d, channel 2 value %d' % (k, X[0], X[1])
    return None

def value(w, st, l, vol):
    """the constant x with l = (x * vol) >> 15, or None"""
    if st.const(l) == 0: return 0
    x = evalt(l, {vol: 1 << 15})
    if x is None: return None
    x = tos(x, 32)
    want = w.I.binop(st, 'ashr', st.simp(mulc(vol, x)), C(15, 32), 32)
    if want == l or eq(st, want, l): return x
    # written differently: compare the two expressions over the volume
    for q in list(range(1, 40)) + list(range(40, 32768, 111)) + [32767]:
        y = evalt(l, {vol: q})
        if y is None or y != (x * q >> 15) & 0xffffffff: return None
    return x


FORGETS = ('BKUnitReset', 'BKTrackReset')

def chans(w, st, rid):
    """region holding the channel buffers of a context"""
    b = field(w, st, rid, 'channels')
    return b[2] if b[0] == 'ptr' else None

def untouched(rep, job):
    """no operation but running and resetting changes a remembered level or adds a pulse"""
    kind, v, i = job; op = O.ops(kind)[i]
    w = rich(kind, v); w.I.MAXRET = 3; w.I.MAXSTATES = 4; need(w, 'BKBufferAddPulse')
    w.I.summaries['BKBufferAddPulse'] = lambda I, st, a, ins: [(st.ev(('pulse', show(a[2])[:60])) or st, C(0, ins['w']) if ins['w'] else None)]
    pre, fn, outs = O.go(w, op)
    pfx = 'unit.' if kind == 'track' else ''
    forgets = fn in FORGETS
    inst = '%s (%s) %s' % (kind, v, op.label)
    for st, ret in outs:
        m = None
        if any(e[0] == 'pulse' for e in st.events()): m = 'adds a pulse'
        elif fn != 'BKDispose' and 'o' in st.mem and not st.mem['o'].freed:
            for k in range(NCH):
                a, b = field(w, pre, 'o', pfx + LP % k), field(w, st, 'o', pfx + LP % k)
                if not eq(st, a, b) and not (forgets and st.const(b) == 0):
                    m = 'remembered level of channel %d changes from %s to %s without a pulse' % (k, show(a), show(b)); break
        if not m and v[:4] != 'free':
            c = chans(w, pre, 'c')
            d = [x for x in diff_regions(w, pre, st, rids=[c])] if c else []
            if d: m = 'changes the channel buffer of the context: %s' % fx(d[0])
        rep.ob('level-kept', m is None, inst, where(w, fn), m or '')
    rep.funcs |= w.I.visited_fn

def ctxops(rep, i):
    op = O.ops('ctx')[i]
    w = rich('ctx', 'populated'); w.I.MAXRET = 3; w.I.MAXSTATES = 4
    w.generalise('u', only=('lastPulse',)); w.generalise('t', only=('unit.lastPulse',))
    c = chans(w, w.st, 'o'); o = w.st.mem[c]
    for path, off, sz, lt in list(w.p.leaves(o.type)) if o.type is not None else ():
        pass
    w.I.summaries['BKBufferAddPulse'] = lambda I, st, a, ins: [(st.ev(('pulse', '')) or st, C(0, ins['w']) if ins['w'] else None)]
    pre, fn, outs = O.go(w, op)
    for st, ret in outs:
        m = None
        if any(e[0] == 'pulse' for e in st.events()): m = 'adds a pulse'
        for rid, pfx in (('u', ''), ('t', 'unit.')):
            for k in range(NCH):
                a, b = field(w, pre, rid, pfx + LP % k), field(w, st, rid, pfx + LP % k)
                if fn == 'BKContextReset':
                    if st.const(b) != 0: m = m or 'after the reset an attached player still remembers level %s on channel %d' % (show(b), k)
                elif not eq(st, a, b): m = m or 'remembered level of channel %d changes to %s without a pulse' % (k, show(b))
        if fn not in ('BKContextReset', 'BKDispose') and diff_regions(w, pre, st, rids=[c]): m = m or 'changes the channel buffers'
        rep.ob('level-kept' if fn != 'BKContextReset' else 'reset-forgets', m is None, 'ctx %s' % op.label, where(w, fn), m or '')
    rep.funcs |= w.I.visited_fn

def buffers(rep):
    """a context reset brings every channel buffer back to silence"""
    for n in (1, 2, 8):
        w = World(); w.ctx('o', n); c = chans(w, w.st, 'o')
        sz = w.p.sizeof(w.p.struct('BKBuffer')); B = w.p.struct('BKBuffer')
        if c is None: raise AnalysisBroken('a context has no channel buffers')
        kern = w.I.rd(w.st, c, C(w.p.offset(B, 'pulse'), 64), 8)
        w.st.mem[c] = w.st.w(c); w.st.mem[c].cells.clear(); w.st.mem[c].dflt = [('sym', '')] if isinstance(w.st.mem[c].dflt, list) else (('sym', ''),)
        for k in range(n): w.st.w(c).cells[k * sz + w.p.offset(B, 'pulse')] = (8, kern)
        w.st.memo = {}
        fr = w.p.offset(B, 'frames')
        outs = w.run('BKContextReset', 'o')
        rep.ob('reset-silence', bool(outs), '%d channels' % n, where(w, 'BKContextReset'), 'does not return')
        for st, ret in outs:
            m = None
            for k in range(n):
                for path, off, s_, lt in w.p.leaves(B):
                    if path.split('.')[0].split('[')[0] in ('pulse',): continue
                    v = w.I.rd(st, c, C(k * sz + off, 64), s_)
                    if st.const(v) != 0: m = 'channel %d: %s is %s after the reset' % (k, path, show(v)); break
                if m: break
            rep.ob('reset-silence', m is None, '%d channels' % n, where(w, 'BKContextReset'), m or '')
        rep.funcs |= w.I.visited_fn

def jobs(tier):
    out = [('levels', c) for c in GEN] + [('scale', c) for c in GEN if c != 'none'] + [('silent', c) for c in GEN if c != 'none'] + [('buffers', None)]
    for kind in ('unit', 'track'):
        out += [('ops', (kind, v, i)) for v in variants(kind) for i in range(len(O.ops(kind)))]
    return out + [('ctx', i) for i in range(len(O.ops('ctx')))]

def part(a):
    (n, x), tier = a
    r = Report('C22', tier)
    if n == 'levels': levels(r, tier, x)
    elif n == 'scale': scale(r, tier, x)
    elif n == 'silent': silent(r, x)
    elif n == 'buffers': buffers(r)
    elif n == 'ops': untouched(r, x)
    else: ctxops(r, x)
    return r

def check(rep):
    for r in presults(part, [(j, rep.tier) for j in jobs(rep.tier)]): rep.merge(r)
    rep.need('level-remembered', 20); rep.need('level-scale', 100); rep.need('level-kept', 500); rep.need('muted-silent', 8); rep.need('reset-forgets', 1); rep.need('reset-silence', 3)
    return rep.finish('other', 'The generators are interpreted symbolically with pulses summed into a ghost level per channel: whatever path is taken from whatever state, the level a player remembers equals the level its pulses reached. The level is the waveform value scaled by the volume, checked step by step with symbolic volumes from every phase. Every other operation on a unit, track or context in any state neither adds a pulse nor changes a remembered level, apart from resets, which forget them together with the channel buffers.', program())
