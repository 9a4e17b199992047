"""C26: raw sample data is decoded bit-exactly."""
from c13 import *

AT = 'BKDataSetData'
FMT = (('BK_1_BIT_UNSIGNED', 1, 0), ('BK_2_BIT_UNSIGNED', 2, 0), ('BK_4_BIT_UNSIGNED', 4, 0), ('BK_8_BIT_SIGNED', 8, 1), ('BK_8_BIT_UNSIGNED', 8, 0), ('BK_16_BIT_SIGNED', 16, 1))
ORDER = ('native', 'BK_LITTLE_ENDIAN', 'BK_BIG_ENDIAN')
FULL = 32767
def tou(x): return x & 0xffff
def bytesof(w, rid, at, n, bits, signed, which):
    """arbitrary bytes; of signed ones every third (which chooses) is -127 or -128, which has no positive counterpart"""
    low = set()
    for k in range(n):
        y = ('s', 8, 'byte%d' % k)
        if bits == 8 and signed:
            SYMR_(y, -126, 127)
            if (k + which) % 3 == 0: low.add(k); y = C(128 + k % 2, 8)
        else: SYMR_(y, -128, 127)
        w.st.w(rid).cells[at + k] = (1, y)
    w.st.memo = {}
    return low

def count(D, bits, ch): return D * 8 // (bits * ch)
def prep(h, v='empty', n=None, **k):
    w = base(h, io=True, **k); w.I.UNROLL = 20000; w.I.IFCONV = True     # (a choice between two constants is a value)
    datav(w, v); w.raw('in', n if n is not None else 0)
    return w

def own(k, bits):
    """bytes that hold value k"""
    return (2 * k, 2 * k + 1) if bits == 16 else (k * bits // 8,)

def exact(k, bits, signed, order, b):
    """what value k is, given its bytes"""
    if bits == 16: x = b[0] << 8 | b[1] if order == 'BK_BIG_ENDIAN' else b[0] | b[1] << 8; return x, x, x
    if signed: v = b[0] - 256 if b[0] > 127 else b[0]; v = max(v, -127); m = 127
    else: v = b[0] >> 8 - bits - k * bits % 8 & (1 << bits) - 1; m = (1 << bits) - 1
    q = v * FULL / m
    return q - 1, q + 1, None if v not in (0, m, -m) else int(q)

def value(w, st, fr, k, bits, signed, order, low=None):
    """`low`: the byte is -128 or -127 (True) or anything else (False)"""
    t = st.simp(w.I.rd(st, fr, C(2 * k, 64), 2))
    if low: return None if st.const(t) == tou(-FULL) else 'is %s for the byte -128 or -127' % show(t)
    sy = [('s', 8, 'byte%d' % j) for j in own(k, bits)]
    if bits == 16:
        want = bits_of(sy[1]) + bits_of(sy[0]) if order == 'BK_BIG_ENDIAN' else bits_of(sy[0]) + bits_of(sy[1])
        if bits_of(t) == want: return None
        for b in ((0, 0), (1, 2), (0x12, 0x34), (0x80, 0), (0, 0x80), (255, 127), (127, 255), (255, 255)):
            r = evalt(t, dict(zip(sy, b)))
            if r is None: return 'is %s' % show(t)
            if r != exact(k, bits, signed, order, b)[0]: return 'is %d for the bytes %d, %d' % (tos(r, 16), b[0], b[1])
        return 'is not just its two bytes: %s' % show(t)[:200]
    for b in range(256) if k < 8 else (0, 1, 0x55, 0x7f, 0x80, 0x81, 0xaa, 0xfe, 0xff):
        if low is False and b in (128, 129): continue
        if not st.rng(sy[0])[0] <= tos(b, 8) <= st.rng(sy[0])[1]: continue
        r = evalt(t, {sy[0]: b})
        if r is None: return 'is not just its own bits: %s' % show(t)[:200]
        lo, hi, e = exact(k, bits, signed, order, (b,)); r = tos(r, 16)
        if (e is not None and r != e) or not lo < r < hi: return 'is %d for the byte %d' % (r, b)
    return None

def values(rep, a):
    nm, bits, signed = FMT[a]; at = where(program(), AT); quick = rep.tier == 'quick'
    for order in (ORDER if bits == 16 else ORDER if not quick else ORDER[:1]):
        for ch in range(1, 9):
            F = bits * ch
            ds = sorted({d for d in (list(range(0, 20)) if not quick else list(range(0, 10)) if ch == 1 or ch == 3 and bits < 8 else [0, ch, 4 * ch - 1, 4 * ch, 4 * ch + 1, 17]) + [31] + ([64, 127, 257] if not quick else [])})
            for D in ds:
                h = File(); w = prep(h, n=D); inst = '%s %s, %d channels, %d bytes' % (nm, order, ch, D)
                low = bytesof(w, 'in', 0, D, bits, signed, D % 3); w.st.trace = None; pre = w.st.fork()
                n = count(D, bits, ch)
                outs = w.run(AT, 'o', 'in', D, ch, w.enum(nm) | (w.enum(order) if order != 'native' else 0))
                rep.ob('returns', bool(outs), inst, at, 'never returns')
                for st, r in outs:
                    if n < 2:
                        rep.ob('refused', ok(st, r) is False, inst, at, '%d bytes, which are %d frames, are accepted' % (D, n)); continue
                    rep.ob('accepted', ok(st, r) is True, inst, at, '%d frames are refused' % n)
                    if ok(st, r) is not True: continue
                    got = st.const(w.I.getf(st, 'o', 'numFrames')), st.const(w.I.getf(st, 'o', 'numChannels')), st.const(w.I.getf(st, 'o', 'numBits'))
                    rep.ob('complete-frames', got == (n, ch, bits), inst, at, 'has %s frames of %s channels of %s bits, expected %d of %d of %d' % (got + (n, ch, bits)))
                    f = st.simp(w.I.getf(st, 'o', 'frames'))
                    if f[0] != 'ptr' or f[2] not in st.mem or st.const(f[3]) != 0: rep.ob('decoded', False, inst, at, 'frames are %s' % show(f)); continue
                    rep.ob('room', st.le(C(2 * n * ch, 64), st.mem[f[2]].size, 'S'), inst, at, 'has %s bytes for %d frames' % (show(st.mem[f[2]].size), n))
                    m = None
                    for k in range(n * ch):
                        m = value(w, st, f[2], k, bits, signed, order, k in low if bits == 8 and signed else None)
                        if m: m = 'value %d %s' % (k, m); break
                    rep.ob('decoded', m is None, inst, at, m or '')
                    rep.ob('input-kept', st.mem['in'].cells == pre.mem['in'].cells, inst, at, 'changes the caller\'s data')
                mem(rep, h, inst); rep.funcs |= w.I.visited_fn

def sizes(rep, a):
    """number of frames for every data size, as a formula over it"""
    nm, bits, signed = FMT[a]; at = where(program(), AT)
    for ch in range(1, 9):
        for v in variants('data') if ch == 2 else ('empty',):
            h = File(); w = base(h, io=True, alloc=True); datav(w, v); D = ('s', 32, 'dataSize'); w.raw('in', ext(D, 64, False)); w.st.trace = None
            w.I.MAXRET = 400
            inst = '%s, %d channels, any size (%s)' % (nm, ch, v); seen = {}
            outs = w.run(AT, 'o', 'in', D, ch, w.enum(nm)); m = None; F = bits * ch
            for st, r in outs:
                if ok(st, r) is not True: continue
                lo, hi = st.urng(D); n = st.simp(w.I.getf(st, 'o', 'numFrames'))
                if v == 'empty': rep.ob('size-kept', st.equal(w.I.getf(st, 'o', 'numChannels'), C(ch, 32)) is True, inst, at, 'keeps %s channels' % show(w.I.getf(st, 'o', 'numChannels')))
                for e in range(0, 33):
                    for d in range(-F - 1, F + 2) if rep.tier != 'quick' else (-F - 1, -F, -1, 0, 1, ch, F - 1, F, F + 1):
                        x = (1 << e) + d
                        if not lo <= x <= hi or count(x, bits, ch) < 2 or count(x, bits, ch) * ch > FULLINT: continue
                        g = evalt(n, {D: x})
                        if g is None and st.const(n) is None: m = 'is %s' % show(n)[:200]; break
                        if g is not None and g != count(x, bits, ch): m = m or 'has %d frames for %d bytes, not %d' % (g, x, count(x, bits, ch))
                        seen[x] = 1
                    if m: break
                if m: break
            # only when the amount is still an expression of the size (an iterated count is decided by enumeration)
            if m and m.startswith('is '): rep.notes.append('%s: number of frames %s' % (inst, m)); rep.count('not decided for every size')
            else:
                rep.ob('complete-frames', m is None, inst, at, m or ''); rep.count('sizes compared', len(seen))
            proof(rep, h, inst); rep.funcs |= w.I.visited_fn

FULLINT = (1 << 31) - 1
def refusals(rep, a):
    """arguments outside of the documented sets are refused and leave the object alone"""
    at = where(program(), AT)
    for what, ch, fm in [('%d channels' % c, c, 'BK_16_BIT_SIGNED') for c in (0, 9, 255, 1 << 16, (1 << 32) - 1, 1 << 31)] + [('format %d' % f, 1, f) for f in (0, 7, 8, 9, 15, 0x10)]:
        for v in variants('data'):
            h = File(); w = prep(h, v, n=64); pre = w.st.fork()
            for st, r in w.run(AT, 'o', 'in', 64, ch, w.enum(fm) if isinstance(fm, str) else fm):
                rep.ob('refused', ok(st, r) is False, '%s (%s)' % (what, v), at, '%s accepted' % what)
                if ok(st, r) is False:
                    c = changes(w, pre, st, ('&ghost',)); rep.ob('refused-unchanged', not c, '%s (%s)' % (what, v), at, '; '.join(map(fx, c[:3])))
            mem(rep, h, what)

def loadraw(rep, a):
    """data read from a file is what is decoded, from the position of the file on"""
    at = where(program(), 'BKDataLoadRaw')
    for nm, bits, signed in FMT:
        for D, pos in ((0, 0), (1, 0), (8, 0), (33, 0), (24, 4), (600, 2)):
            for ch in (1, 2):
                n = count(D, bits, ch)
                if D > 100 and rep.tier == 'quick' and (bits < 8 or ch > 1): continue
                w, h = fileworld([], pos + D, pos); low = bytesof(w, '&file', pos, D, bits, signed, 0)
                w.I.UNROLL = 20000; w.I.IFCONV = True
                w.new('o', 'BKData'); made(w, 'BKDataInit', 'o'); w.st.trace = None
                inst = 'BKDataLoadRaw %s, %d channels, %d bytes from %d' % (nm, ch, D, pos)
                outs = w.run('BKDataLoadRaw', 'o', 'file', ch, w.enum(nm)); rep.ob('returns', bool(outs), inst, at, 'never returns')
                for st, r in outs:
                    rep.ob('accepted' if n >= 2 else 'refused', ok(st, r) is (n >= 2), inst, at, '%d frames are %s' % (n, 'refused' if n >= 2 else 'accepted'))
                    if ok(st, r) is not True: continue
                    rep.ob('complete-frames', st.const(w.I.getf(st, 'o', 'numFrames')) == n, inst, at, 'has %s frames, not %d' % (show(w.I.getf(st, 'o', 'numFrames')), n))
                    f = st.simp(w.I.getf(st, 'o', 'frames')); m = None
                    for k in range(min(n * ch, 64)):
                        m = value(w, st, f[2], k, bits, signed, 'native', k in low if bits == 8 and signed else None)
                        if m: m = 'value %d %s' % (k, m); break
                    rep.ob('decoded', m is None, inst, at, m or '')
                mem(rep, h, inst); rep.funcs |= w.I.visited_fn

PARTS = dict(values=values, sizes=sizes, refusals=refusals, loadraw=loadraw)
def part(a):
    r = Report('C26', a[2]); PARTS[a[0]](r, a[1]); return r

EXPL = ('BKDataSetData is analysed with arbitrary bytes for every format, byte order and channel count, for all small lengths (complete, cut inside a frame, cut inside a '
        'byte). Each output value is an expression over the input bytes; it must contain no byte but its own and is compared for all 256 values of the byte with '
        'the value its bits (most significant first) stand for: exact at silence and full scale, within one in between; 16-bit values must be the two bytes in the given order. The number of '
        'frames is compared with the number of complete frames for these lengths, and, with the length left arbitrary, as an expression around every power of two. '
        'Accesses stay inside the input and the new frames. BKDataLoadRaw is analysed on a file with arbitrary bytes.')
def check(rep):
    jobs = [(n, k, rep.tier) for n in ('values', 'sizes') for k in range(len(FMT))] + [(n, 0, rep.tier) for n in ('refusals', 'loadraw')]
    for r in presults(part, jobs): rep.merge(r)
    rep.need('decoded', 500); rep.need('complete-frames', 500); rep.need('refused', 100); rep.need('in-bounds', 100)
    rep.assumptions += ['little-endian machine (the one analysed for)', 'lengths above the enumerated ones are covered by the number of frames only']
    return rep.finish('other', EXPL, program())
