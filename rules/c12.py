"""C12: a written WAVE file describes exactly what was written."""
from files import *

FR = ('s', 16, '')
def sample(k): return ('s', 16, 'frame%d' % k)

def session(calls, ch, bits, rate, start=0, term=True):
    """(world, hooks, states) after writing `calls` many values each, from file position `start`"""
    w, h = fileworld(length=start, pos=start)
    w.new('o', 'BKWaveFileWriter'); made(w, 'BKWaveFileWriterInit', 'o', 'file', ch, rate, bits)
    sts = [w.st]; k = 0
    for n in calls:
        rid = 'fr%d' % k
        nxt = []
        for st in sts:
            w.st = st; w.raw(rid, 2 * n)
            for q in range(n): w.st.w(rid).cells[2 * q] = (2, sample(k + q))
            nxt += [(s, r) for s, r in w.run('BKWaveFileWriterAppendFrames', 'o', rid, n)]
        sts = [s for s, r in nxt if ok(s, r) is True]
        k += n
        if len(sts) != len(nxt) or not sts: return w, h, None, k
    if term:
        nxt = [x for st in sts for x in (setattr(w, 'st', st), w.run('BKWaveFileWriterTerminate', 'o'))[1]]
        sts = [s for s, r in nxt if ok(s, r) is True]
        if len(sts) != len(nxt): sts = None
    return w, h, sts, k

def header(rep, w, st, inst, at, s0, ch, bits, rate, n):
    """every field of the header, byte by byte where it belongs"""
    size = n * bits // 8; B = bits // 8
    want = [('RIFF', 0, 4, C(int.from_bytes(b'RIFF', 'little'), 32)), ('RIFF size', 4, 4, C(36 + size, 32)), ('WAVE', 8, 4, C(int.from_bytes(b'WAVE', 'little'), 32)),
            ('fmt tag', 12, 4, C(int.from_bytes(b'fmt ', 'little'), 32)), ('fmt size', 16, 4, C(16, 32)), ('format', 20, 2, C(1, 16)), ('channels', 22, 2, C(ch, 16)),
            ('sample rate', 24, 4, rate), ('byte rate', 28, 4, mulc(rate, ch * B)), ('block size', 32, 2, C(ch * B, 16)), ('bits', 34, 2, C(bits, 16)),
            ('data tag', 36, 4, C(int.from_bytes(b'data', 'little'), 32)), ('data size', 40, 4, C(size, 32))]
    for nm, o, z, v in want:
        g = fbits(w, st, s0 + o, z)
        ok_ = g == v or st.equal(g, v) is True
        if not ok_ and v[0] != 'c': ok_ = same_bits(w, st, s0 + o, z, v)
        rep.ob('header', ok_, '%s %s' % (inst, nm), at, '%s is %s instead of %s' % (nm, show(g), show(v)))
    _, l = content(w, st)
    rep.ob('length', l == s0 + HEADER + size, inst, at, 'the file has %s bytes instead of %d' % (l, s0 + HEADER + size))

def same_bits(w, st, off, z, v):
    """the bytes of the file are the bytes of v"""
    return all(bits_of(st.simp(w.I.rd(st, '&file', C(off + q, 64), 1))) == bits_of(v)[8 * q:8 * q + 8] for q in range(z))

def data(rep, w, st, inst, at, s0, bits, n):
    m = None
    for k in range(n):
        v = sample(k)
        if bits == 16: m = None if same_bits(w, st, s0 + HEADER + 2 * k, 2, v) else 'bytes of value %d are %s' % (k, show(fbits(w, st, s0 + HEADER + 2 * k, 2)))
        else:
            g = fbits(w, st, s0 + HEADER + k, 1)
            # unsigned 8 bit: the upper byte with its sign turned
            for x in (0, 1, 127, 128, 255, 256, 32767, 32768, 32769, 65535, 0xff00, 0x8100):
                if evalt(g, {v: x}) != ((x >> 8) ^ 128): m = 'value %d becomes %s' % (k, show(g)); break
            e = trunc(add(ext(trunc(lshr(v, 8), 8), 32, True), C(128, 32)), 8)
            if m is None and g != e and st.equal(g, e) is not True and sub(g, e)[:3] != ('c', 8, 0): m = 'value %d becomes %s' % (k, show(g))
        if m: break
    rep.ob('values', m is None, inst, at, m or '')

SESS = [(), (0,), (1,), (2, 3), (8, 0, 8), (3, 1, 4), (1023,), (1024,), (1025,), (2048, 2)]
def jobs(tier):
    o = []
    for bits in BITS:
        for ch in range(1, 9):
            for k, c in enumerate(SESS if ch in (1, 2) or tier != 'quick' else SESS[1:6]): o.append((ch, bits, c, 0 if (k + ch) % 3 else 1000, tier))
    return o
def job(a):
    ch, bits, calls, s0, tier = a
    rep = Report('C12', tier); rate = ('s', 32, 'rate'); inst = '%d channels, %d bits, %s values' % (ch, bits, '+'.join(map(str, calls)) or 'no')
    w, h, sts, n = session(calls, ch, bits, rate, s0); at = where(w.p, 'BKWaveFileWriterTerminate')
    rep.ob('completes', sts is not None and len(sts) > 0, inst, at, 'a healthy file cannot be written')
    for st in sts or ():
        header(rep, w, st, inst, at, s0, ch, bits, rate, n); data(rep, w, st, inst, where(w.p, 'BKWaveFileWriterAppendFrames'), s0, bits, n)
    for (k, loc), m in h.bad.items(): rep.ob('memory', False, '%s at %s' % (inst, loc), loc, m, key='%s/%s' % (k, loc))
    rep.funcs |= w.I.visited_fn
    return rep

def more(a):
    """appending after the file was terminated, terminating twice, leaving it to disposal"""
    ch, bits, tier = a
    rep = Report('C12', tier); rate = ('s', 32, 'rate')
    for how in ('append after terminating', 'terminated twice', 'only disposed of'):
        inst = '%d channels, %d bits, %s' % (ch, bits, how)
        w, h, sts, n = session((2 * ch,), ch, bits, rate, 8, term=how != 'only disposed of'); at = where(w.p, 'BKWaveFileWriterTerminate')
        fin = []
        for st in sts or ():
            w.st = st
            if how == 'append after terminating':
                w.raw('more', 4 * ch)
                for q in range(2 * ch): w.st.w('more').cells[2 * q] = (2, sample(n + q))
                for s, r in w.run('BKWaveFileWriterAppendFrames', 'o', 'more', 2 * ch): w.st = s; fin += [q for q, _ in w.run('BKDispose', 'o')]
            elif how == 'terminated twice': fin += [q for q, r in w.run('BKWaveFileWriterTerminate', 'o') if ok(q, r) is True]
            else: fin += [q for q, _ in w.run('BKDispose', 'o')]
        rep.ob('completes', bool(fin), inst, at, 'a healthy file cannot be written')
        m = n + (2 * ch if how == 'append after terminating' else 0)
        for st in fin: header(rep, w, st, inst, at, 8, ch, bits, rate, m); data(rep, w, st, inst, where(w.p, 'BKWaveFileWriterAppendFrames'), 8, bits, m)
        for (k, loc), m in h.bad.items(): rep.ob('memory', False, '%s at %s' % (inst, loc), loc, m, key='%s/%s' % (k, loc))
        rep.funcs |= w.I.visited_fn
    return rep

def shot(a):
    """writing sample data in one go"""
    ch, bits, tier = a
    rep = Report('C12', tier); rate = ('s', 32, 'rate'); N = 3
    w, h = fileworld(length=12, pos=12)
    w.data('d'); w.raw('frames', 2 * N * ch)
    for q in range(N * ch): w.st.w('frames').cells[2 * q] = (2, sample(q))
    w.set('d', 'numFrames', N); w.set('d', 'numChannels', ch); w.set('d', 'frames', 'frames')
    outs = w.run('BKWaveFileWriteData', 'file', 'd', rate, bits); at = where(w.p, 'BKWaveFileWriteData'); inst = 'BKWaveFileWriteData %d channels, %d bits' % (ch, bits)
    good = [s for s, r in outs if ok(s, r) is True]
    rep.ob('completes', len(good) == len(outs) > 0, inst, at, 'a healthy file cannot be written')
    for st in good: header(rep, w, st, inst, at, 12, ch, bits or 16, rate, N * ch); data(rep, w, st, inst, at, 12, bits or 16, N * ch)
    for (k, loc), m in h.bad.items(): rep.ob('memory', False, '%s at %s' % (inst, loc), loc, m, key='%s/%s' % (k, loc))
    rep.funcs |= w.I.visited_fn
    return rep

def back(a):
    """what was written is what the reader finds"""
    ch, bits, tier = a
    rep = Report('C12', tier); rate = w_rate(); N = 4 * ch; inst = 'written and read, %d channels, %d bits' % (ch, bits)
    w, h, sts, n = session((N,), ch, bits, rate, 0); at = where(w.p, 'BKWaveFileReaderReadHeader')
    for st in sts or ():
        w.st = st.fork(); h.setpos(w.st, C(0, 64)); w.new('r', 'BKWaveFileReader'); made(w, 'BKWaveFileReaderInit', 'r', 'file')
        seen = 0
        for s, r in w.run('BKWaveFileReaderReadHeader', 'r', *out3(w)):
            if ok(s, r) is not True: continue
            seen += 1
            g = [s.simp(w.I.rd(s, q, C(0, 64), 4)) for q in ('ch', 'sr', 'nf')]
            rep.ob('read-back', s.const(g[0]) == ch and s.equal(g[1], rate) is True and s.const(g[2]) == 4, inst, at, 'the reader finds %s channels, rate %s, %s frames' % tuple(map(show, g)))
            w.st = s; w.raw('back', 2 * N)
            for q, r2 in w.run('BKWaveFileReaderReadFrames', 'r', 'back'):
                m = None
                for k in range(N):
                    v = q.simp(w.I.rd(q, 'back', C(2 * k, 64), 2)); x = sample(k)
                    if bits == 16: okv = v == x
                    else: okv = all(evalt(v, {x: t}) == t & 0xff00 for t in (0, 255, 256, 32767, 32768, 65535, 0x8100, 0x7f80))
                    if not okv: m = 'value %d is read as %s' % (k, show(v)); break
                rep.ob('read-back', m is None, inst + ' values', where(w.p, 'BKWaveFileReaderReadFrames'), m or '')
        rep.ob('read-back', seen > 0, inst + ' accepted', at, 'the reader refuses the file')
    for (k, loc), m in h.bad.items(): rep.ob('memory', False, '%s at %s' % (inst, loc), loc, m, key='%s/%s' % (k, loc))
    rep.funcs |= w.I.visited_fn
    return rep
def w_rate():
    from interp import SYMR
    t = ('s', 32, 'rate.'); SYMR[t] = (1, (1 << 31) - 1); return t

EXPL = ('Writing sessions (any number of channels, both bit depths, an arbitrary sample rate, several appends of sizes around the internal buffer, from the '
        'start or the middle of a file, terminated once, twice, by disposal, or continued afterwards) are analysed against a file held in abstract memory. '
        'Every byte of the finished file is compared symbolically: tags, format, channels, rate, bit depth, byte rate, block size and both chunk sizes at '
        'their places, every value in order in little-endian order, and the total length. The reader is then analysed on the file and must find the same '
        'header and the same values.')
def check(rep):
    for r in presults(job, jobs(rep.tier)): rep.merge(r)
    cfg = [(c, b, rep.tier) for c in range(1, 9) for b in BITS]
    for r in presults(more, cfg): rep.merge(r)
    for r in presults(shot, cfg + [(2, 0, rep.tier)]): rep.merge(r)
    for r in presults(back, cfg): rep.merge(r)
    rep.need('header', 1000); rep.need('values', 80); rep.need('length', 80); rep.need('read-back', 15)
    rep.assumptions += ['little-endian build', 'files below 4 GiB, sessions of up to 2050 values']
    return rep.finish('other', EXPL, program())
