"""C13: whatever a WAVE file contains, the reader refuses it or delivers exactly what it announces."""
from files import *

AT = 'BKWaveFileReaderReadHeader'
def le(o, z, v): return [(o, z, v)]
def wave(ch=2, bits=16, fmt=1, rate=44100, size=None, data=0, extra=0, before=(), tags=('RIFF', 'WAVE', 'fmt ', 'data'), fmtsize=None, frames=()):
    """cells and length of a file; `size` is the announced data size, `data` the bytes present"""
    c = tag(0, tags[0]) + [(4, 4, ('s', 32, 'riffsize'))] + tag(8, tags[1]) + tag(12, tags[2])
    c += [(16, 4, fmtsize if fmtsize is not None else 16 + extra), (20, 2, fmt), (22, 2, ch), (24, 4, rate), (28, 4, ('s', 32, 'byterate')), (32, 2, ('s', 16, 'blockalign')), (34, 2, bits)]
    o = 36
    for k in range(extra): c.append((o + k, 1, ('s', 8, 'ext%d' % k)))
    o += extra
    for t, n in before:
        c += tag(o, t) + [(o + 4, 4, n)]; o += 8
        for k in range(n): c.append((o + k, 1, ('s', 8, 'junk%d.%d' % (o, k))))
        o += n
    c += tag(o, tags[3]) + [(o + 4, 4, data if size is None else size)]; o += 8
    for k in range(data): c.append((o + k, 1, ('s', 8, 'byte%d' % k)))
    return c, o + data

def opened(cells, length, pos=0):
    w, h = fileworld(cells, length, pos)
    w.new('o', 'BKWaveFileReader'); made(w, 'BKWaveFileReaderInit', 'o', 'file'); w.st.trace = None
    return w, h

def mem(rep, h, inst):
    for (k, loc), m in h.bad.items(): rep.ob('in-bounds', False, '%s at %s' % (inst, loc), loc, m, key='%s/%s' % (k, loc))
    rep.ob('in-bounds', True, inst, AT)

def proof(rep, h, inst):
    """an argument by induction over the loops: when it does not go through, the enumerated sizes decide alone"""
    rep.count('proved for every size' if not h.bad else 'not proved for every size')
    if not h.bad: rep.ob('in-bounds', True, inst, AT)
    else: rep.notes.append('no inductive argument for %s: %s' % (inst, '; '.join(m for m in list(h.bad.values())[:1])[:200]))

# ---- headers
def arbitrary(rep, tier):
    """any content, any success of the file operations: what an accepted header announces"""
    h = File(); w = base(h, io=True, tier=tier); w.I.MAXRET = 400; w.I.MAXSTATES = 200
    reader(w, 'fresh'); at = where(w.p, AT)
    n = 0
    for st, r in w.run(AT, 'o', *out3(w)):
        rep.ob('status', ok(st, r) is not None, 'any content', at, 'returns %s' % show(r))
        if ok(st, r) is not True: continue
        n += 1
        f = {k: st.simp(w.I.getf(st, 'o', k)) for k in ('numChannels', 'numBits', 'sampleRate', 'numFrames', 'dataSize')}
        g = [st.simp(w.I.rd(st, q, C(0, 64), 4)) for q in ('ch', 'sr', 'nf')]
        rep.ob('announced-range', 1 <= st.rng(g[0])[0] and st.rng(g[0])[1] <= 8, 'channels', at, 'may announce %s to %s channels' % st.rng(g[0]))
        rep.ob('announced-range', st.rng(g[1])[0] >= 1, 'sample rate', at, 'may announce a sample rate of %s' % st.rng(g[1])[0])
        rep.ob('announced-range', st.rng(g[2])[0] >= 0, 'frames', at, 'may announce %s frames' % st.rng(g[2])[0])
        for q, k in zip(g, ('numChannels', 'sampleRate', 'numFrames')): rep.ob('announced-kept', st.equal(q, f[k]) is True, k, at, 'announces %s but keeps %s' % (show(q), show(f[k])))
    rep.ob('announced-range', n > 0, 'accepts', at, 'accepts no file at all'); mem(rep, h, 'any content'); rep.funcs |= w.I.visited_fn

def sizes(rep, tier):
    """announced frames: all whole frames of the data chunk, for every size of it"""
    for ch in range(1, 9):
        for bits in BITS:
            D = ('s', 32, 'chunksize'); SYMR_(D)
            for kind in ('announced', 'to the end of the file'):
                inst = '%d channels, %d bits, size %s' % (ch, bits, kind); F = ch * bits // 8
                if kind == 'announced': cells, l = wave(ch, bits, size=D); ln = C(l, 64)
                else:
                    cells, l = wave(ch, bits, size=0); rest = ('s', 64, 'rest'); SYMR_(rest, 0, 1 << 40); ln = add(C(l, 64), rest)
                w, h = opened(cells, ln); at = where(w.p, AT); n = 0
                S = ext(D, 64, False) if kind == 'announced' else rest
                if kind == 'announced': w.st.assume_ne(D, C(0, 32))
                for st, r in w.run(AT, 'o', *out3(w)):
                    if ok(st, r) is not True: continue
                    n += 1
                    ds, nf = w.I.getf(st, 'o', 'dataSize'), w.I.getf(st, 'o', 'numFrames'); m = None
                    sy = D if kind == 'announced' else rest
                    lo, hi = st.urng(sy)
                    # the formulas are compared over the multiples of a frame around every power of two
                    for e in range(0, 33 if kind == 'announced' else 41):
                        for d in list(range(-F - 1, F + 2)):
                            x = (1 << e) + d
                            if not lo <= x <= hi: continue
                            a, b = evalt(ds, {sy: x}), evalt(nf, {sy: x})
                            if x // F > (1 << 31) - 1: continue
                            if a is None or b is None: m = 'announces %s frames in %s bytes' % (show(nf), show(ds)); break
                            if a != x // F * F or b != x // F: m = 'announces %d frames in %d bytes for a chunk of %d bytes' % (b, a, x); break
                        if m: break
                    rep.ob('announced-size', m is None, inst, at, m or '')
                rep.ob('announced-size', n > 0, inst + ' accepted', at, 'refuses the file'); mem(rep, h, inst); rep.funcs |= w.I.visited_fn

def SYMR_(t, lo=None, hi=None):
    import interp
    if lo is not None: interp.SYMR[t] = (lo, hi)

BAD = [('channels %d' % c, dict(ch=c)) for c in (0, 9, 16, 255, 256, 258, 32768, 65535)] + [('%d bits' % b, dict(bits=b)) for b in (0, 1, 4, 7, 9, 12, 15, 17, 24, 32, 64, 264, 272, 65535)] \
    + [('format %d' % f, dict(fmt=f)) for f in (0, 2, 3, 6, 7, 17, 257, 65534, 65535)] + [('rate 0', dict(rate=0)), ('rate 2^31', dict(rate=1 << 31)), ('rate 2^32-1', dict(rate=(1 << 32) - 1))] \
    + [('format chunk of %d bytes' % f, dict(fmtsize=f)) for f in (0, 1, 8, 15)]
GOOD = [('channels %d' % c, dict(ch=c)) for c in range(1, 9)] + [('8 bits', dict(bits=8)), ('rate 1', dict(rate=1)), ('rate 2^31-1', dict(rate=(1 << 31) - 1)), ('longer format', dict(extra=2)), ('extensible length', dict(extra=24)),
        ('chunks before data', dict(before=(('LIST', 6), ('fact', 4)))), ('chunks of unknown kind', dict(before=(('abcd', 0), ('bext', 602))))]
def accepts(rep, tier):
    def one(nm, kw, want):
        cells, l = wave(**dict(dict(data=16), **kw)); w, h = opened(cells, l); at = where(w.p, AT)
        r = {ok(st, r) for st, r in w.run(AT, 'o', *out3(w))}
        rep.ob('refused' if not want else 'accepted', r == {want}, nm, at, 'a file with %s is %s' % (nm, 'accepted' if not want else 'refused'))
        mem(rep, h, nm); rep.funcs |= w.I.visited_fn
    for nm, kw in BAD: one(nm, kw, False)
    for nm, kw in GOOD: one(nm, kw, True)
    T = ('RIFF', 'WAVE', 'fmt ', 'data')
    for k in range(4):
        for q in range(4):
            t = list(T); t[k] = t[k][:q] + chr(ord(t[k][q]) ^ 0x20) + t[k][q + 1:]
            one('%s instead of %s' % (t[k], T[k]), dict(tags=tuple(t)), False)
    # cut at every byte of the header
    for kw in (dict(), dict(extra=2), dict(before=(('LIST', 6),))):
        cells, l = wave(data=0, **kw)
        for cut in range(0, l):
            w, h = opened(cells, cut); r = {ok(st, r) for st, r in w.run(AT, 'o', *out3(w))}
            rep.ob('refused', r == {False}, 'header of %d bytes cut after %d' % (l, cut), where(w.p, AT), 'a header cut after %d bytes is accepted' % cut)
            mem(rep, h, 'cut after %d' % cut)

# ---- frames
def bounds(rep, tier):
    """any number of frames, any outcome of reading: the output is never left"""
    for ch in range(1, 9):
        for bits in BITS:
            h = File(); w = base(h, io=True, tier=tier); reader(w, 'read', ch, bits); frames(w, ch)
            outs = w.run('BKWaveFileReaderReadFrames', 'o', 'fr'); inst = 'any number of frames, %d channels, %d bits' % (ch, bits)
            rep.ob('terminates', bool(outs), inst, where(w.p, 'BKWaveFileReaderReadFrames'), 'never returns'); proof(rep, h, inst); rep.funcs |= w.I.visited_fn

def values(rep, tier):
    """each announced frame is delivered once, in order; what is missing is silence"""
    ns = (0, 1, 2, 5, 511, 512, 513, 1024, 1025) if tier != 'quick' else (0, 1, 3, 511, 513, 1025)
    for ch in ((1, 2, 3) if tier == 'quick' else range(1, 9)):
        for bits in BITS:
            for n in ns:
                B = bits // 8; total = n * ch * B
                for have in sorted({total, total - 1, total // 2 - total // 2 % B, 0, 1023, 1025} & set(range(0, total + 1))):
                    if n > 600 and have not in (1025, total, total // 2 - total // 2 % B): continue
                    cells, l = wave(ch, bits, size=total, data=have) if total else wave(ch, bits, size=0, data=0)
                    w, h = opened(cells, l); inst = '%d frames, %d channels, %d bits, %d bytes there' % (n, ch, bits, have); at = where(w.p, 'BKWaveFileReaderReadFrames')
                    seen = 0
                    for st, r in w.run(AT, 'o', *out3(w)):
                        if ok(st, r) is not True: continue
                        w.st = st; w.raw('fr', 2 * n * ch)
                        rep.ob('delivered', st.const(w.I.rd(st, 'nf', C(0, 64), 4)) == n, inst + ' announced', at, 'announces %s frames' % show(w.I.rd(st, 'nf', C(0, 64), 4)))
                        for q, r2 in w.run('BKWaveFileReaderReadFrames', 'o', 'fr'):
                            seen += 1
                            if ok(q, r2) is not True: rep.ob('delivered', have < total, inst, at, 'a complete file is refused'); continue
                            m = None
                            for k in range(n * ch):
                                v = q.simp(w.I.rd(q, 'fr', C(2 * k, 64), 2))
                                if (k + 1) * B > have: good = v == C(0, 16)
                                elif bits == 16: good = bits_of(v) == bits_of(('s', 8, 'byte%d' % (2 * k))) + bits_of(('s', 8, 'byte%d' % (2 * k + 1)))
                                else:
                                    x = ('s', 8, 'byte%d' % k); good = all(evalt(v, {x: t}) == (t - 128 << 8) & 0xffff for t in ((0, 1, 127, 128, 129, 255) if k > 2 else range(256)))
                                if not good: m = 'value %d is %s' % (k, show(v)); break
                            rep.ob('delivered', m is None, inst, at, m or '')
                    rep.ob('delivered', seen > 0, inst + ' accepted', at, 'refuses the file')
                    mem(rep, h, inst); rep.funcs |= w.I.visited_fn

def announced(I, ch, bits):
    """stands for reading a header: refused, or the reader and the outputs announce n frames"""
    def model(I, st, a, ins):
        bad = st.fork(); rid, off = I.resolve(st, a[0], ins)
        n = I.nsym('announced', 32, 0, (1 << 31) - 1); rate = I.nsym('announcedRate', 32, 1, (1 << 31) - 1)
        for k, v in (('numFrames', n), ('numChannels', C(ch, 32)), ('numBits', C(bits, 32)), ('sampleRate', rate), ('dataSize', mulc(ext(n, 64, False), ch * bits // 8))): I.setf(st, rid, k, v)
        for q, v in zip(a[1:], (C(ch, 32), rate, n)):
            r = I.resolve(st, q, ins); I.wr(st, r[0], r[1], 4, v)
        return [(bad, C(-1, 32)), (st, C(0, 32))]
    return model

def load(rep, tier):
    """loading into sample data keeps within what was announced"""
    for v, ch, bits in [('empty', c, b) for c in range(1, 9) for b in BITS] + [(v, 2, 16) for v in variants('data') if v != 'empty']:
        h = File(); w = base(h, io=True, alloc=True, tier=tier); datav(w, v); w.st.trace = None
        w.I.summaries[AT] = announced(w.I, ch, bits)
        outs = w.run('BKDataLoadWAVE', 'o', 'file'); inst = 'BKDataLoadWAVE (%s), %d channels, %d bits' % (v, ch, bits)
        loaded(rep, w, outs, inst, ch); proof(rep, h, inst); rep.funcs |= w.I.visited_fn
    for ch in range(1, 9):
        for bits in BITS:
            B = bits // 8
            for n in (2, 3, 513):
                for have in (n * ch * B, n * ch * B - 1, B):
                    cells, l = wave(ch, bits, size=n * ch * B, data=have); w, h = fileworld(cells, l); w.new('o', 'BKData'); made(w, 'BKDataInit', 'o'); w.st.trace = None
                    inst = 'BKDataLoadWAVE, %d of %d bytes, %d channels, %d bits' % (have, n * ch * B, ch, bits)
                    loaded(rep, w, w.run('BKDataLoadWAVE', 'o', 'file'), inst, ch, n if have == n * ch * B else None); mem(rep, h, inst)
                    rep.funcs |= w.I.visited_fn

def loaded(rep, w, outs, inst, ch, want=None):
    at = where(w.p, 'BKDataLoadWAVE')
    rep.ob('terminates', bool(outs), inst, at, 'never returns')
    for st, r in outs:
        if want: rep.ob('loaded', ok(st, r) is True, inst, at, 'refuses a complete file')
        if ok(st, r) is not True: continue
        c, n, f = (st.simp(w.I.getf(st, 'o', k)) for k in ('numChannels', 'numFrames', 'frames'))
        m = None
        if st.equal(c, C(ch, 32)) is not True: m = 'has %s channels' % show(c)
        elif st.rng(n)[0] < 2 or want and st.const(n) != want: m = 'has %s frames' % show(n)
        elif f[0] != 'ptr' or st.const(f[3]) != 0: m = 'frames at %s' % show(f)
        elif not st.le(mulc(ext(n, 64, False), 2 * ch), st.mem[f[2]].size, 'S'): m = 'frames have only %s bytes' % show(st.mem[f[2]].size)
        rep.ob('loaded', m is None, inst, at, m or '')

PARTS = dict(arbitrary=arbitrary, sizes=sizes, accepts=accepts, bounds=bounds, values=values, load=load)
def part(a):
    r = Report('C13', a[1]); PARTS[a[0]](r, a[1]); return r

EXPL = ('Reading a header is analysed with arbitrary bytes delivered by every read (what is announced stays in range and is what is kept), with an arbitrary data size for '
        'every channel count and bit depth, and with files that differ from a good one in one field, one byte of a tag, or are cut after any byte of the header: they are '
        'refused. Reading frames is analysed for an arbitrary number of frames with reads of arbitrary length, by induction over its loops (affine relations between '
        'the counters and pointers): no access leaves the output or the internal buffer. For concrete sizes around the buffer size every delivered value is compared '
        'bit by bit with the bytes of the file; values missing at its end are zero. Loading into sample data is analysed with the same bounds.')
def check(rep):
    for r in presults(part, [(n, rep.tier) for n in ('values', 'load', 'bounds', 'sizes', 'accepts', 'arbitrary')]): rep.merge(r)
    rep.need('announced-range', 5); rep.need('announced-size', 30); rep.need('refused', 120); rep.need('accepted', 4); rep.need('delivered', 60); rep.need('in-bounds', 200)
    rep.assumptions += ['the caller provides memory for the frames announced', 'delivered values compared for up to 1025 frames']
    return rep.finish('other', EXPL, program())
