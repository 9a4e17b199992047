"""C10: tables, arrays, buffers and sample frames are never accessed out of bounds."""
from states import *
from bounds import inside
from interp import SYMR
import ops as O, c06, files as F, c13, c26

class Bounds(Hooks):
    """every access to memory and every index into an array"""
    def __init__(s): s.seen = {}; s.bad = {}
    def put(s, kind, I, ins, ok, msg):
        k = (kind, I.loc(ins)); s.seen[k] = s.seen.get(k, 0) + 1
        if not ok: s.bad.setdefault(k, msg())
    def index(s, I, st, off, ins):
        n = C(ins['asz'], 64); e = ins['esz'] if ins['used'] else 0
        if off[0] == 'c': ok = 0 <= tos(off[2], 64) <= ins['asz'] - e
        else: ok = inside(st, off, e, n)
        s.put('index', I, ins, ok, lambda: 'uses the element at byte %s of an array of %d elements of %d bytes' % (show(st.simp(off)), ins['asz'] // max(ins['esz'], 1), ins['esz']))
    def access(s, I, st, rid, off, size, write, ins):
        o = st.mem.get(rid)
        if o is None or o.freed: return
        off, size = st.simp(off), st.simp(size)
        if o.size is None: return
        total = o.size if isinstance(o.size, tuple) else C(o.size, 64)
        if size[0] == 'c' and size[2] == 0: return
        # memory of the caller, as large as it says
        if o.kind == 'param' and total[0] == 'c' and total[2] >= 1 << 32: return
        if off[0] == 'c' and size[0] == 'c' and total[0] == 'c': ok = 0 <= tos(off[2], 64) and off[2] + size[2] <= total[2]
        else: ok = none(st, size) or inside(st, off, size, total)
        s.put('inside', I, ins, ok, lambda: '%s %s bytes at %s of %s, which has %s bytes' % ('writes' if write else 'reads', show(size), show(off), nmr(rid), show(total)))
        if ok and o.type is not None and (off[0] != 'c' or size[0] != 'c') and I.p.strip(o.type) is not None:
            a = part(I.p, st, o.type, off)
            if a: s.put('part', I, ins, none(st, size) or inside(st, sub(off, C(a[0], 64)), size, C(a[1], 64)), lambda: '%s %s bytes at %s of %s, behind the array there of %d bytes' % ('writes' if write else 'reads', show(size), show(off), nmr(rid), a[1]))
def none(st, size): return st.urng(size)[1] == 0
def part(p, st, ti, off):
    """(offset, size) of the array or field the first byte lies in"""
    lo = st.rng(off)[0]
    if lo < 0: return None
    t = p.types[p.strip(ti)]
    if t['kind'] == 'array' or lo >= t['size']: return None
    path, leaf, base, arrs = p.leaf(ti, lo)
    if arrs: return arrs[0][0], arrs[0][1] * max(arrs[0][2], 1)
    return (base, p.sizeof(leaf)) if leaf is not None else None

# loops over a number of frames the analysis may not prove for every number; they are enumerated ('decode', 'read', 'append' below)
LOOPS = ('BKDataSetData', 'BKDataLoad', 'BKWaveFile')
def verdict(rep, h, inst, proof=False):
    for (k, loc), n in h.seen.items():
        if proof and (k, loc) in h.bad:
            rep.notes.append('%s at %s: not proved for every size (%s)' % (inst, loc, h.bad[k, loc][:160])); rep.count('not proved for every size'); continue
        rep.ob(k, (k, loc) not in h.bad, '%s at %s' % (inst, loc), loc, h.bad.get((k, loc), ''), key='%s/%s' % (k, loc))
        rep.count('at ' + loc, n)
    rep.count('operations')

def state(rep, w, pre, outs, inst, fn, new=False):
    res = {}
    for st, v in outs:
        if fn == 'BKDispose' or new and (v is None or st.rng(v)[0] < 0): continue
        for rid, t, grp, label, ok, msg in checks(w, st, pre):
            # (which frames are played: C05)
            if grp != 'state' or label == 'plays frames of its data': continue
            res.setdefault((t, label), None)
            if not ok: res[t, label] = (rid, msg)
    for (t, label), bad in res.items():
        rep.ob('state', bad is None, '%s: %s of %s' % (inst, label, t), fn, '%s: %s' % bad if bad else '', key='state/%s/%s' % (t, label))

CAP = 4095
def channel(w, ctx):
    """channel buffers in any state"""
    b = w.get(ctx, 'channels')[2]; n = w.st.const(w.get(ctx, 'numChannels')); sz = w.p.sizeof(w.p.struct('BKBuffer'))
    kern = w.I.rd(w.st, b, C(w.off('BKBuffer', 'pulse'), 64), 8); o = w.st.w(b)
    o.cells.clear(); o.dflt = [(0, 1 << 62, ('sym', ''))]
    for k in range(n):
        o.cells[k * sz + w.off('BKBuffer', 'pulse')] = (8, kern)
        o.cells[k * sz + w.off('BKBuffer', 'capacity')] = (4, w.I.nsym('capacity%d' % k, 32, 0, CAP))
        o.cells[k * sz + w.off('BKBuffer', 'time')] = (4, w.I.nsym('time%d' % k, 32))
    w.st.memo = {}
def channels(w, h):
    """pulses go to a channel of the context; what the buffer does with them: 'buffer' below"""
    sz = w.p.sizeof(w.p.struct('BKBuffer'))
    def fn(I, st, a, ins):
        b = st.simp(a[0]); o = st.mem.get(b[2]) if b[0] == 'ptr' else None
        off = st.const(b[3]) if b[0] == 'ptr' else None
        h.put('channel', I, ins, o is not None and off is not None and off % sz == 0 and 0 <= tos(off, 64) and off + sz <= (o.size if isinstance(o.size, int) else st.const(o.size) or 0), lambda: 'uses %s as a channel' % show(b))
        return [(st, C(0, ins['w']) if ins['w'] else None)]
    for n in ('BKBufferAddPulse', 'BKBufferEnd'):
        if n in w.p.funcs: w.I.summaries[n] = fn

KINDS = ('unit', 'track')
def job(a):
    what, x, tier = a; rep = Report('C10', tier); h = Bounds(); State.SETTLE = True
    lim = lambda w: (setattr(w.I, 'MAXRET', 6 if tier == 'quick' else 24), setattr(w.I, 'MAXSTATES', 4 if tier == 'quick' else 12))
    if what == 'op':
        kind, v, att, i = x; op = getop(kind, i)
        if kind in KINDS:
            w = arbitrary(kind, v, att, hooks=h); inst = '%s (%s%s) %s' % (kind, v, '' if att else ', free', op.label)
        else:
            w = anyobj(kind, v, op, h, tier); inst = '%s (%s) %s' % (kind, v, op.label)
        loop = any(n in op.label for n in LOOPS)
        w.I.AFFINE = loop or 'BKInstrumentSetEnvelope' in op.label
        if op.label == 'tick': lim(w)
        pre, fn, outs = O.go(w, op); verdict(rep, h, inst, loop); state(rep, w, pre, outs, inst, fn, kind == 'new')
    elif what == 'run':
        kind, cfg, fn = x; w = arbitrary(kind, cfg, True, hooks=h, chans=2); w.I.FACTS = 0; w.I.AFFINE = True; lim(w)
        w.generalise('o', only=('lastPulse',) if kind == 'unit' else ('unit.lastPulse',))
        channels(w, h); inst = '%s playing %s: %s' % (kind, cfg, fn); pre = w.st.fork()
        outs = w.run(fn, 'o', w.I.nsym('end', 32)); verdict(rep, h, inst)
        state(rep, w, pre, outs, inst, fn); rep.ob('runs', bool(outs), inst, fn, 'does not return')
    elif what == 'buffer':
        fn, n, x = x; w = World(hooks=h); w.ctx('c', n); channel(w, 'c'); buf = w.get('c', 'channels'); w.I.AFFINE = fn != 'BKBufferRead'
        k = len(w.p.fn(fn).args); cs = w.p.sizeof(w.p.struct('BKBuffer')); inst = fn
        if x is not None:
            # as many frames as are there, as many as asked for
            cap, size = x; inst = '%s: %d of %d frames of %d channels' % (fn, size, cap, n); w.I.UNROLL = 5000
            w.st.w(buf[2]).dflt.append((0, 1 << 62, ('zero',)))   # (what they hold does not matter)
            for q in range(n):
                for f, v in (('capacity', C(cap, 32)), ('time', add(mulc(C(cap, 32), 1 << 20), w.I.nsym('frac', 32, 0, (1 << 20) - 1)))): w.st.w(buf[2]).cells[q * cs + w.off('BKBuffer', f)] = (4, v)
            w.st.memo = {}; w.raw('out', 2 * n * min(cap, size)); pre = w.st.fork()
            outs = w.run(fn, 'c', 'out', size)
        else:
            w.raw('out', 1 << 40); pre = w.st.fork()
            outs = w.run(fn, ('ptr', 64, buf[2], mulc(C(cs, 64), n - 1)), *([P('out')] if fn == 'BKBufferRead' else []), *[w.I.nsym('arg%d' % q, 32) for q in range(k - 1 - (fn == 'BKBufferRead'))])
        verdict(rep, h, inst); rep.ob('runs', bool(outs), inst, fn, 'does not return')
        for st, v in outs:
            if buf[2] not in st.mem or st.mem[buf[2]].freed: continue
            for q in range(n):
                t = st.simp(w.I.rd(st, buf[2], C(q * cs + w.off('BKBuffer', 'capacity'), 64), 4))
                rep.ob('state', st.urng(t)[1] <= CAP, '%s: frames in channel %d' % (fn, q), fn, 'a channel may hold %s frames' % show(t), key='capacity/' + fn)
    elif what == 'file':
        label, prep = F.fops()[x]; w = F.base(h, io=True, alloc=True, tier=tier); w.I.AFFINE = True
        _, fn, outs = F.start(w, prep); verdict(rep, h, label, True)
    elif what == 'query':
        fn, kind, mk = c06.queries(program())[x]; f = program().fn(fn)
        for v in (variants(kind) if kind else ['-']):
            w = rich(kind, v, hooks=h) if kind else World(hooks=h)
            w.raw('out', 1 << 40); SYMR[('s', 64, 'size64')] = (0, 1 << 31)
            w.run(fn, *mk('o')[:len(f.args)])
        verdict(rep, h, fn)
    elif what in LOOPED: return LOOPED[what](rep, x, tier)
    rep.funcs |= w.I.visited_fn
    return rep

def decode(rep, x, tier):
    """raw data of every small length"""
    a, ch = x; nm, bits, _ = c26.FMT[a]; at = c26.AT
    for order in c26.ORDER if bits == 16 else c26.ORDER[:1]:
        for D in list(range(0, 20)) + [31, 33, 64] + ([127, 257, 600] if tier != 'quick' else []):
            h = Bounds(); w = c26.prep(h, n=D); inst = '%s %s, %d channels, %d bytes' % (nm, order, ch, D)
            outs = w.run(at, 'o', 'in', D, ch, w.enum(nm) | (w.enum(order) if order != 'native' else 0))
            verdict(rep, h, inst); rep.ob('runs', bool(outs), inst, at, 'does not return'); rep.funcs |= w.I.visited_fn
    return rep
def read(rep, x, tier):
    """files announcing any small number of frames"""
    ch, bits = x; at = 'BKWaveFileReaderReadFrames'
    for n in (0, 1, 2, 5, 513) + (() if tier == 'quick' else (511, 512, 1024, 1025)):
        total = n * ch * bits // 8
        if total > 3000 and tier == 'quick': continue
        for have in sorted({total, total // 2}):
            cells, l = c13.wave(ch, bits, size=total, data=have); w, _ = c13.opened(cells, l); h = Bounds(); inst = '%d frames of %d channels of %d bits, %d bytes there' % (n, ch, bits, have)
            both(w, h)
            for st, r in w.run(c13.AT, 'o', *c13.out3(w)):
                if c13.ok(st, r) is not True: continue
                w.st = st; w.raw('fr', 2 * n * ch); outs = w.run(at, 'o', 'fr'); rep.ob('runs', bool(outs), inst, at, 'does not return')
            verdict(rep, h, inst); rep.funcs |= w.I.visited_fn
    return rep
def append(rep, x, tier):
    s, bits = x; at = 'BKWaveFileWriterAppendFrames'
    for n in (0, 1, 2, 5, 511, 512, 513) + (() if tier == 'quick' else (1024, 1025)):
        h = Bounds(); w = F.base(h, io=True, tier=tier); w.I.UNROLL = 20000; o = F.writer(w, s, 2, bits); w.raw('fr', 2 * n); inst = '%d values of %d bits (%s)' % (n, bits, s)
        outs = w.run(at, o, 'fr', n); rep.ob('runs', bool(outs), inst, at, 'does not return'); verdict(rep, h, inst); rep.funcs |= w.I.visited_fn
    return rep
LOOPED = dict(decode=decode, read=read, append=append)
def both(w, h):
    """watch accesses beside what stands for the file"""
    f = w.I.h.access
    def acc(I, st, rid, off, size, write, ins): f(I, st, rid, off, size, write, ins); h.access(I, st, rid, off, size, write, ins)
    w.I.h.access = acc; w.I.h.index = h.index

def jobs(tier):
    out = [('op', (k, c, at, i), tier) for k in KINDS for c in CFGS for at in (True, False) if at or tier != 'quick' or c in ('square', 'sample') for i in range(len(O.ops(k)))]
    out += [('op', (k, v, None, i), tier) for k, v, i in allops(tier) if k not in KINDS]
    out += [('file', i, tier) for i in range(len(F.fops()))] + [('query', i, tier) for i in range(len(c06.queries(program())))]
    out += [('run', (k, c, 'BKUnitRun'), tier) for k in KINDS for c in CFGS if k == 'unit' or tier != 'quick'] + [('run', ('unit', c, 'BKUnitEnd'), tier) for c in ('square', 'sample')]
    out += [('buffer', (n, k, None), tier) for n in sorted(program().funcs) if n.startswith('BKBuffer') and not program().funcs[n].decl and n != 'BKBufferInit' for k in (1, 2)]
    out += [('buffer', ('BKContextRead', k, x), tier) for k in ((1, 2, 3, 8) if tier == 'quick' else range(1, 9)) for x in ((0, 5), (7, 0), (8, 3), (16, 16), (5, 64)) + (() if tier == 'quick' else ((512, 512), (4095, 600)))]
    out += [('decode', (a, c), tier) for a in range(len(c26.FMT)) for c in range(1, 9)] + [('read', (c, b), tier) for c in range(1, 9) for b in F.BITS] + [('append', (s, b), tier) for s in ('new', 'open') for b in F.BITS]
    return out

EXPL = ('Abstract interpretation from any state within the facts that checks() states about phases, notes, positions, capacities and counts: on every path every index into '
        'an array type stays within that array (index), every access to memory of known size stays within it (inside) and, where its offset is not constant, within the array '
        'or field of the object it starts in (part); pulses go to a channel the context has (channel); and the facts hold again afterwards (state), so they hold for '
        'any sequence of calls. Covered: every public operation and query with any arguments, clock ticks, file operations with failures, playing of every waveform and of sample '
        'data for every length, the channel buffers for any capacity, reading any amount from contexts of every channel count; decoding, reading and writing frames is '
        'proved for every length where an affine loop invariant is found and enumerated for small lengths, all formats and channel counts.')
def check(rep):
    for r in presults(job, jobs(rep.tier)): rep.merge(r)
    rep.need('inside', 1000); rep.need('index', 100); rep.need('state', 1000); rep.need('channel', 2)
    return rep.finish('other', EXPL, program())
