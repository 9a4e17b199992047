"""C20: output samples saturate, and every frame is delivered once, in order, in its channel."""
from scen import *
from cbs import eq, cmp, split, Callbacks, calls
from report import Report
import c24

LEAK, SCALE = 9, 14     # the accumulator loses 1/512 per frame; 2^14 steps make one output step
MAXF = 32767

def where(w, fn): f = w.p.fn(fn); return '%s:%d %s' % (f.file, f.line, fn)
def boff(w, path): return w.off('BKBuffer', path)

def buffer(w, rid='b', A=None, cap=None, frames=()):
    """a channel buffer of any content"""
    w.new(rid, 'BKBuffer'); w.call('BKBufferInit', rid)
    o = w.st.w(rid); fo = boff(w, 'frames')
    n = sum(1 for p, off, sz, lt in w.p.leaves(w.p.struct('BKBuffer')) if p.startswith('frames'))
    # frames that pulses can have reached hold anything, those behind them nothing
    top = w.st.const(cap) if cap is not None and w.st.const(cap) is not None else CAP
    o.dflt.append((fo, fo + 4 * (top + REACH), ('sym', ''))); o.dflt.append((fo + 4 * (top + REACH), fo + 4 * n, ('zero',)))
    if n < top + REACH: raise AnalysisBroken('a channel buffer has only %d frames' % n)
    for k, v in enumerate(frames): o.cells[fo + 4 * k] = (4, v)
    w.st.memo = {}
    A = A if A is not None else w.I.nsym('accum', 32)
    w.set(rid, 'accum', A); w.set(rid, 'time', w.I.nsym('time', 32, 0, 1 << 31))
    w.set(rid, 'capacity', cap if cap is not None else w.I.nsym('cap', 32, 1, CAP))
    return A
CAP = 4095; REACH = 32   # a pulse spreads over 32 frames
def fr(w, st, rid, k): return w.I.rd(st, rid, C(boff(w, 'frames') + 4 * k, 64), 4)

def steps(I, st, A, F):
    """accumulator after one more frame"""
    return st.simp(add(sub(A, I.binop(st, 'ashr', A, C(LEAK, 32), 32)), F))

def values(rep):
    """one frame: the value delivered for every accumulator and every frame"""
    for what, lo, hi in (('within the range', -(1 << 29), (1 << 29) - 1), ('above the range', 1 << 29, (1 << 31) - 1), ('below the range', -(1 << 31), -(1 << 29) - 1),
                         ('at the upper limit', (1 << 29) - 1, (1 << 29) - 1), ('one above', 1 << 29, (1 << 29) + (1 << SCALE) - 1), ('one below', -(1 << 29) - (1 << SCALE), -(1 << 29) - 1)):
        w = World(); I = w.I; A = buffer(w, cap=I.nsym('cap', 32, 1, CAP)); F = fr(w, w.st, 'b', 0)
        w.set('b', 'capacity', I.nsym('cap', 32, 1, CAP))
        A1 = steps(I, w.st, A, F)
        w.st.set_s(A1, lo, hi)
        w.raw('out', 64)
        outs = w.run('BKBufferRead', 'b', 'out', 1, 1)
        rep.ob('sample-value', bool(outs), 'amplitude %s' % what, where(w, 'BKBufferRead'), 'the call does not return')
        for st, ret in outs:
            m = None; got = I.rd(st, 'out', C(0, 64), 2)
            if st.const(ret) != 1: m = 'reports %s frames' % show(ret)
            elif not eq(st, field(w, st, 'b', 'accum'), A1): m = 'the accumulator becomes %s' % show(field(w, st, 'b', 'accum'))
            else:
                want = C(MAXF, 16) if lo >= 1 << 29 else C(0x8000, 16) if hi < -(1 << 29) else I.narrow(st, I.binop(st, 'ashr', A1, C(SCALE, 32), 32), 16)
                if not eq(st, got, want): m = 'the sample delivered is %s' % show(got)
            rep.ob('sample-value', m is None, 'amplitude %s' % what, where(w, 'BKBufferRead'), m or '')
        rep.funcs |= w.I.visited_fn

def moves(rep, tier):
    """what is read leaves the buffer, the rest moves up, the space behind it is empty"""
    caps = (0, 1, 2, 3, 5) if tier == 'quick' else (0, 1, 2, 3, 4, 5, 8, 12)
    for cap in caps:
        for size in range(0, max(caps) + 2 if tier != 'quick' else 5):
            for inter in (0, 1, 2, 8):
                w = World(); I = w.I; A = buffer(w, cap=C(cap, 32))
                K = cap + REACH; F = [fr(w, w.st, 'b', k) for k in range(K)] + [C(0, 32)]
                # amplitudes are small enough not to saturate
                for x in [A] + F[:-1]: w.st.set_s(x, -(1 << 22), 1 << 22)
                w.raw('out', 512); T = w.get('b', 'time')
                outs = w.run('BKBufferRead', 'b', 'out', size, inter)
                inst = 'fill %d, read %d, step %d' % (cap, size, inter); n = min(size, cap); step = max(1, inter)
                rep.ob('buffer-moves', bool(outs), inst, where(w, 'BKBufferRead'), 'the call does not return')
                for st, ret in outs:
                    m = None; o = st.mem['out']
                    if st.const(ret) != n: m = 'reports %s frames instead of %d' % (show(ret), n)
                    elif sorted(o.cells) != [2 * step * k for k in range(n)] or any(e[0] != 2 for e in o.cells.values()) or o.sc: m = 'samples are written to %s' % sorted(o.cells)
                    elif st.const(field(w, st, 'b', 'capacity')) != cap - n: m = 'capacity becomes %s' % show(field(w, st, 'b', 'capacity'))
                    elif not eq(st, field(w, st, 'b', 'time'), st.simp(add(T, C(-(n << 20) & 0xffffffff, 32)))): m = 'time becomes %s' % show(field(w, st, 'b', 'time'))
                    else:
                        for k in range(K + 1):
                            want = F[k + n] if k + n < K else C(0, 32)
                            g = fr(w, st, 'b', k)
                            if not eq(st, g, want): m = 'frame %d of the buffer becomes %s instead of %s' % (k, show(g), show(want)); break
                        a = A
                        for k in range(n): a = steps(I, st, a, F[k])
                        if not m and not eq(st, field(w, st, 'b', 'accum'), a): m = 'the accumulator becomes %s' % show(field(w, st, 'b', 'accum'))
                    rep.ob('buffer-moves', m is None, inst, where(w, 'BKBufferRead'), m or '')
                rep.funcs |= w.I.visited_fn

def large(rep, tier):
    """the same at the other end of the buffer"""
    for cap in (4095, 4094, 2048, 1025) if tier == 'quick' else (4095, 4094, 4093, 3000, 2048, 1025, 100):
        for size in (1, 2, 3):
            w = World(); I = w.I; A = buffer(w, cap=C(cap, 32)); K = cap + REACH
            probes = sorted({k for k in (0, 1, 2, 31, 32, 33, cap - 1, cap, cap + 1, cap + 30, cap + 31) if 0 <= k < K} | {min(k + size, K - 1) for k in (0, 1, 2, 31, 32, cap - 1, cap, cap + 29)})
            F = {k: fr(w, w.st, 'b', k) for k in set(probes) | {k + size for k in probes if k + size < K}}
            w.raw('out', 512)
            outs = w.run('BKBufferRead', 'b', 'out', size, 1)
            inst = 'fill %d, read %d' % (cap, size)
            rep.ob('buffer-moves', bool(outs), inst, where(w, 'BKBufferRead'), 'the call does not return')
            for st, ret in outs:
                m = None
                if st.const(ret) != size or st.const(field(w, st, 'b', 'capacity')) != cap - size: m = 'reports %s frames' % show(ret)
                for k in probes:
                    want = F[k + size] if k + size < K else C(0, 32); g = fr(w, st, 'b', k)
                    if not eq(st, g, want): m = m or 'frame %d of the buffer becomes %s instead of %s' % (k, show(g), show(want))
                rep.ob('buffer-moves', m is None, inst, where(w, 'BKBufferRead'), m or '')

def interleave(rep, tier):
    """every channel of a context is read into its own place of the output"""
    sz = None
    for n in range(1, 9):
        for have, size in ((0, 3), (1, 3), (2, 2), (3, 2), (3, 0)):
            w = World(); w.ctx('c', n); I = w.I; ch = w.get('c', 'channels')[2]; sz = w.p.sizeof(w.p.struct('BKBuffer'))
            fo, ao, co, to = boff(w, 'frames'), boff(w, 'accum'), boff(w, 'capacity'), boff(w, 'time')
            F = {}; o = w.st.w(ch)
            for i in range(n):
                for k in range(4):
                    F[i, k] = I.nsym('f%d.%d' % (i, k), 32, -(1 << 20), 1 << 20); o.cells[i * sz + fo + 4 * k] = (4, F[i, k])
                o.cells[i * sz + co] = (4, C(4, 32)); o.cells[i * sz + to] = (4, C(have << 20, 32)); o.cells[i * sz + ao] = (4, C(0, 32))
            w.st.memo = {}; w.raw('out', 512)
            outs = w.run('BKContextRead', 'c', 'out', size)
            r = min(have, size); inst = '%d channels, %d frames there, %d asked for' % (n, have, size)
            rep.ob('interleave', bool(outs), inst, where(w, 'BKContextRead'), 'the call does not return')
            for st, ret in outs:
                m = None; q = st.mem['out']
                if st.const(ret) != r: m = 'reports %s frames instead of %d' % (show(ret), r)
                elif sorted(q.cells) != [2 * k for k in range(r * n)] or q.sc: m = 'samples are written to %s' % sorted(q.cells)
                else:
                    for i in range(n):
                        a = C(0, 32)
                        for k in range(r):
                            a = steps(I, st, a, F[i, k]); want = I.narrow(st, I.binop(st, 'ashr', a, C(SCALE, 32), 32), 16); g = I.rd(st, 'out', C(2 * (k * n + i), 64), 2)
                            if not eq(st, g, want): m = m or 'place %d of frame %d is %s and not channel %d' % (i, k, show(g), i)
                        for k in range(4):
                            want = F[i, k + r] if k + r < 4 else C(0, 32)
                            g = I.rd(st, ch, C(i * sz + fo + 4 * k, 64), 4)
                            if k + r < 4 and not eq(st, g, want): m = m or 'channel %d does not keep the frames not read' % i
                rep.ob('interleave', m is None, inst, where(w, 'BKContextRead'), m or '')
            rep.funcs |= w.I.visited_fn

def size_(rep):
    """the number of frames announced is the number that can be read"""
    w = World(); w.ctx('c', 2); ch = w.get('c', 'channels')[2]; t = w.I.nsym('t', 32, 0, (1 << 32) - 1)
    w.st.w(ch).cells[boff(w, 'time')] = (4, t); w.st.memo = {}
    for st, ret in w.run('BKContextSize', 'c'):
        ok = eq(st, ret, mkbits(32, bits_of(t)[20:] + (0,) * 20))
        rep.ob('announced-size', ok, 'BKContextSize', where(w, 'BKContextSize'), 'size is %s' % show(ret))
    rep.funcs |= w.I.visited_fn

def generate(rep, tier):
    """BKContextGenerate fills the output without gaps and reports the number of frames"""
    MX = None
    for n in (1, 2, 8):
        for size in (0, 1, 511, 1023, 1024, 1025, 2047, 2048, 2049, 5000):
            for silent in (False, True):
                w = World(); w.ctx('c', n); I = w.I; I.MAXSTATES = None
                w.raw('out', 2 * n * 8192)
                def end(I, st, args, ins):
                    d = st.const(args[1])
                    if d is None or d & 0xfffff: raise AnalysisBroken('length of a stretch unknown')
                    st.ev(('end', d >> 20)); return [(st, args[1])]
                def read(I, st, args, ins, silent=silent):
                    want = st.const(args[2])
                    ends = [e[1] for e in st.events() if e[0] == 'end']
                    r = 0 if silent else min(want, ends[-1] if ends else 0)
                    st.ev(('read', args[0], args[1], want, r)); return [(st, C(r, 32))]
                I.summaries['BKContextEnd'] = end; I.summaries['BKContextRead'] = read
                outs = w.run('BKContextGenerate', 'c', 'out', size)
                inst = '%d channels, %d frames%s' % (n, size, ', no players' if silent else '')
                rep.ob('generate', bool(outs), inst, where(w, 'BKContextGenerate'), 'the call does not return')
                for st, ret in outs:
                    m = None; done = 0
                    for e in st.events():
                        if e[0] == 'end' and e[1] > 4096 - 1024: m = m or 'generates %d samples at once, more than the buffers hold' % e[1]
                        if e[0] != 'read': continue
                        if e[2] != P('out', done * n * 2): m = m or 'frame %d is written to %s' % (done, show(e[2]))
                        done += e[4]
                        if done > size: m = m or 'delivers more than the %d frames asked for' % size
                    if not m and not silent and done != size: m = 'delivers %d frames' % done
                    if not m and st.const(ret) != done: m = 'reports %s frames although %d are delivered' % (show(ret), done)
                    rep.ob('generate', m is None, inst, where(w, 'BKContextGenerate'), m or '')
                rep.funcs |= w.I.visited_fn

def totime(rep, tier):
    """BKContextGenerateToTime hands over every frame up to the end time"""
    for dt in (0, 1, 500, 682, 683, 1023, 1024, 1025, 1275, 1706, 2048, 3000, 5000) + ((10000, 20000) if tier != 'quick' else ()):
        w = World(hooks=Callbacks()); w.ctx('c', 2); I = w.I
        E = c24.generating(w, dt << 20)
        f = I.nsym('write', 64); w.st.assume_ne(f, NULL); u = I.nsym('info', 64)
        outs = w.run('BKContextGenerateToTime', 'c', E, f, u)
        inst = '%d samples to pass' % dt; seen = 0
        for st0, ret in outs:
            for st, b in split(st0, [cmp('eq', e[4], C(0, 32)) for e in calls(st0)]):
                got = sum(st.const(e[2]) for e in st.events() if e[0] == 'read'); m = None
                n = sum(st.const(e[2][1]) or 0 for e in calls(st))
                if n != got: m = '%d frames are read, %d are handed over' % (got, n)
                if all(b):
                    seen += 1
                    if got != dt: m = m or '%d of %d frames are handed over' % (got, dt)
                    if st.const(ret) != dt: m = m or 'reports %s frames' % show(ret)
                rep.ob('generate-to-time', m is None, inst, where(w, 'BKContextGenerateToTime'), m or '')
        rep.ob('generate-to-time', seen > 0, inst, where(w, 'BKContextGenerateToTime'), 'never comes to an end')
        rep.funcs |= w.I.visited_fn

PARTS = [('values', lambda r, t: values(r)), ('moves', moves), ('large', large), ('interleave', interleave), ('size', lambda r, t: size_(r)), ('generate', generate), ('totime', totime)]
def part(a):
    r = Report('C20', a[1]); dict(PARTS)[a[0]](r, a[1]); return r

def check(rep):
    for r in presults(part, [(n, rep.tier) for n, _ in PARTS]): rep.merge(r)
    rep.need('sample-value', 12); rep.need('buffer-moves', 100); rep.need('interleave', 80); rep.need('generate', 60); rep.need('generate-to-time', 20); rep.need('announced-size', 1)
    return rep.finish('other', 'Reading is interpreted with an arbitrary accumulator and arbitrary frames, split into amplitudes within, above and below the 16-bit range: the delivered sample is the scaled amplitude or the limit of the same sign. For small buffer fills, sizes and steps every frame that leaves, moves or is cleared is compared symbolically; interleaving is compared for 1 to 8 channels; the generating loops are unrolled over sizes around their chunk limits.', program())
