"""Readers and writers of WAVE files in arbitrary states."""
from mem import *
from val import ext
import ops as O

BITS = (8, 16)
def base(hooks=None, io=True, alloc=False, affine=True, tier='quick'):
    w = World(hooks=hooks, fail_alloc=alloc, io_fail=io)
    w.I.AFFINE = affine
    w.I.MAXRET = 40 if tier == 'quick' else 80; w.I.MAXSTATES = 12 if tier == 'quick' else 30
    w.raw('&ghost', 8, ('zero',)); w.st.w('&ghost').cells.update({0: (4, C(0, 32)), 4: (4, C(0, 32))})
    w.raw('file', 1 << 10, ('undef',))
    return w

def made(w, fn, *args):
    """an initialised object: the outcomes of the constructor agree but for the mode of the file"""
    a = [w.arg(x, fn, i) for i, x in enumerate(args)]
    q, g = (w.I.fail_alloc, w.I.io_fail), None
    w.I.fail_alloc = w.I.io_fail = False
    try: outs = [st for st, r in w.I.run(fn, a, w.st) if ok(st, r) is True]
    finally: w.I.fail_alloc, w.I.io_fail = q
    if not outs: raise AnalysisBroken('%s never succeeds' % fn)
    w.st = outs[0]; w.st.trace = None

def reader(w, state, ch=1, bits=16, rid='o'):
    w.new(rid, 'BKWaveFileReader'); made(w, 'BKWaveFileReaderInit', rid, 'file')
    if state == 'read':
        n = w.I.nsym('numFrames', 32, 0, (1 << 31) - 1)
        w.set(rid, 'numFrames', n); w.set(rid, 'numChannels', ch); w.set(rid, 'numBits', bits)
        w.set(rid, 'sampleRate', w.I.nsym('sampleRate', 32, 1, (1 << 31) - 1))
        w.set(rid, 'dataSize', mulc(ext(n, 64, False), ch * bits // 8))
    return rid

def writer(w, state, ch=1, bits=16, rid='o'):
    w.new(rid, 'BKWaveFileWriter'); made(w, 'BKWaveFileWriterInit', rid, 'file', ch, w.I.nsym('sampleRate', 32, 1, (1 << 31) - 1), bits)
    if state != 'new':
        f = w.get(rid, 'object.flags'); b = list(bits_of(f))
        # the two private bits of a writer: header written, terminated
        hdr, term = flagbits(w)
        b[hdr] = 1; b[term] = 1 if state == 'done' else 0
        w.set(rid, 'object.flags', mkbits(32, tuple(b)))
        d = w.I.nsym('dataSize', 64, 0, 1 << 30); w.set(rid, 'dataSize', d); w.set(rid, 'fileSize', add(d, C(HEADER - 8, 64)))
    w.set(rid, 'initOffset', w.I.nsym('initOffset', 64, 0, 1 << 40))
    return rid

HEADER = 44
_fb = None
def flagbits(w):
    """which private flag bits the writer uses, from what writing and terminating set"""
    global _fb
    if _fb is None:
        v = base(io=False); v.new('o', 'BKWaveFileWriter'); made(v, 'BKWaveFileWriterInit', 'o', 'file', 1, 44100, 16)
        v.raw('fr', 64); f0 = v.get('o', 'object.flags')[2]
        v.call('BKWaveFileWriterAppendFrames', 'o', 'fr', 1); f1 = v.get('o', 'object.flags')[2]
        v.call('BKWaveFileWriterTerminate', 'o'); f2 = v.get('o', 'object.flags')[2]
        a, b = f1 & ~f0, f2 & ~f1
        if bin(a).count('1') != 1 or bin(b).count('1') != 1: raise AnalysisBroken('flags of the file writer not recognised: %x %x %x' % (f0, f1, f2))
        _fb = (a.bit_length() - 1, b.bit_length() - 1)
    return _fb

def out3(w):
    for r in ('ch', 'sr', 'nf'): w.raw(r, 4)
    return ('ch', 'sr', 'nf')

def fops():
    """[(label, prepare(world) -> (function, args))] of everything that touches a file"""
    o = []
    o.append(('BKWaveFileReaderInit', lambda w: (w.new('o', 'BKWaveFileReader') and 0, ('BKWaveFileReaderInit', 'o', 'file'))[1]))
    for b in (16, 8, 0, 24): o.append(('BKWaveFileWriterInit %d bits' % b, lambda w, b=b: (w.new('o', 'BKWaveFileWriter') and 0, ('BKWaveFileWriterInit', 'o', 'file', w.I.nsym('numChannels', 32, 1, 8), w.I.nsym('sampleRate', 32, 1, (1 << 31) - 1), b))[1]))
    o.append(('BKWaveFileReaderReadHeader first', lambda w: ('BKWaveFileReaderReadHeader', reader(w, 'fresh')) + out3(w)))
    o.append(('BKWaveFileReaderReadHeader again', lambda w: ('BKWaveFileReaderReadHeader', reader(w, 'read')) + out3(w)))
    for b in BITS:
        for c in (1, 2, 8):
            o.append(('BKWaveFileReaderReadFrames %d bits %d channels' % (b, c), lambda w, b=b, c=c: ('BKWaveFileReaderReadFrames', reader(w, 'read', c, b), frames(w, c))))
        for s in ('new', 'open', 'done'):
            o.append(('BKWaveFileWriterAppendFrames %s %d bits' % (s, b), lambda w, b=b, s=s: ('BKWaveFileWriterAppendFrames', writer(w, s, 2, b), w.raw('fr', 1 << 34) and 'fr', w.I.nsym('numFrames', 32))))
            o.append(('BKWaveFileWriterTerminate %s %d bits' % (s, b), lambda w, b=b, s=s: ('BKWaveFileWriterTerminate', writer(w, s, 2, b))))
    for v in variants('data'):
        for b in (8, 16, 24):
            o.append(('BKWaveFileWriteData %s %d bits' % (v, b), lambda w, v=v, b=b: ('BKWaveFileWriteData', 'file', datav(w, v), w.I.nsym('rate', 32), b)))
        o.append(('BKDataLoadRaw ' + v, lambda w, v=v: ('BKDataLoadRaw', datav(w, v), 'file', w.I.nsym('numChannels', 32), w.enum('BK_8_BIT_UNSIGNED'))))
        o.append(('BKDataLoadWAVE ' + v, lambda w, v=v: ('BKDataLoadWAVE', datav(w, v), 'file')))
    return o

def frames(w, ch, rid='fr', n=None):
    """caller memory for exactly the announced frames"""
    n = n if n is not None else w.get('o', 'numFrames')
    w.raw(rid, mulc(ext(n, 64, False), 2 * ch)); return rid

def datav(w, v):
    """sample data 'o' of the variant, in the given world"""
    setdata(w, 'o', {'played': 'owned', 'borrowed-played': 'borrowed'}.get(v, v))
    w.generalise('o', keep=('numFrames', 'numChannels', 'object'), inv=inv)
    if v.endswith('played'):
        w.ctx('c', 2); w.unit('u'); w.track('t')
        L(w, 'unit', 'c').build([('u', 0)])
        play(w, 'unit', 'u', 'o', 'BK_SAMPLE'); play(w, 'track', 't', 'o', 'BK_CUSTOM')
    return 'o'

def start(w, prep):
    a = prep(w); a = (a[0],) + tuple(P(x) if isinstance(x, str) and x in w.st.mem else x for x in a[1:])
    w.st.trace = None
    return w.st.fork(), a[0], w.run(*a)

def io(w, st):
    """what may have happened on this path: 1 a file operation failed, 2 the file ended early"""
    g = w.I.rd(st, '&ghost', C(4, 64), 4)
    return {k for k in (1, 2) if st.equal(g, C(k, 32)) is not False}

# ---- a file with known structure
class File(Hooks):
    """stands for the C library: one file with given bytes, kept in abstract memory so that it follows the
    analysed paths. `cut` ends it early. Accesses to the caller's memory are checked against its size."""
    def __init__(s): s.bad = {}
    def note(s, kind, I, msg): s.bad.setdefault((kind, I.loc()), msg)
    def access(s, I, st, rid, off, size, write, ins):
        o = st.mem.get(rid)
        if o is None or o.size is None or o.kind == 'global' or rid == 'file': return
        if o.freed: s.note('freed', I, 'uses released memory')
        end = add(off, size if size[1] == 64 else ext(size, 64, False))
        if st.const(size) == 0: return
        if not st.le(C(0, 64), off, 'S') or not (st.le(end, o.size, 'S') and st.rng(size)[0] >= 0):
            s.note('bounds', I, '%s %s bytes at %s of %s, which has %s' % ('writes' if write else 'reads', show(size), show(off), nmr(rid), show(o.size)))
    def badderef(s, I, st, ptr, ins): s.note('null', I, 'uses the pointer %s' % show(ptr))
    # position and length
    def pos(s, st): return st.mem['&fpos'].cells[0][1]
    def setpos(s, st, v): st.w('&fpos').cells[0] = (8, st.simp(v)); st.memo = {}
    def known(s, st, t, what):
        c = st.const(t)
        if c is None: raise AnalysisBroken('%s of a file operation unknown: %s' % (what, show(t)))
        return tos(c, 64)
    def length(s, st): return st.mem['&fpos'].cells[8][1]
    def ext(s, I, st, name, args, ins):
        if '&fpos' not in st.mem: return None
        w = ins.get('w') or 32
        if name in ('fread', 'fwrite'):
            buf, sz, cnt, fp = args
            r = I.resolve(st, buf, ins); z, c = s.known(st, sz, 'size'), s.known(st, cnt, 'size'); n = z * c
            if n == 0: return [(st, C(0, 64))]
            if r is None: s.badderef(I, st, buf, ins); return []
            s.access(I, st, r[0], r[1], C(n, 64), name == 'fread', ins)
            p = s.known(st, s.pos(st), 'position'); b = s.known(st, r[1], 'address'); f = st.w('&file')
            got = n
            if name == 'fread':
                got = n if p + n <= st.rng(s.length(st))[0] else max(0, min(n, s.known(st, s.length(st), 'length') - p))
                for a in sorted(a for a, e in f.cells.items() if a < p + got and p < a + e[0]):
                    e = f.cells[a]
                    if p <= a and a + e[0] <= p + got: I.wr(st, r[0], C(b + a - p, 64), e[0], e[1])
                    else:
                        for q in range(max(a, p), min(a + e[0], p + got)): I.wr(st, r[0], C(b + q - p, 64), 1, I.rd(st, '&file', C(q, 64), 1))
                if got < n: st.ev(('short', p, got, n))
            else:
                for q in range(n): f.cells[p + q] = (1, st.simp(I.rd(st, r[0], C(b + q, 64), 1)))
                l = s.known(st, s.length(st), 'length')
                if p + n > l: st.w('&fpos').cells[8] = (8, C(p + n, 64))
                st.ev(('written', p, n))
            s.setpos(st, C(p + got, 64))
            return [(st, C(got // z, 64))]
        if name in ('fseek', 'fseeko'):
            b = {0: C(0, 64), 1: s.pos(st), 2: s.length(st)}[st.const(args[2])]
            s.setpos(st, add(b, args[1])); return [(st, C(0, w))]
        if name in ('ftell', 'ftello'): return [(st, s.pos(st))]
        if name in ('fflush',): return [(st, C(0, w))]
        if name in ('ferror',): return [(st, C(0, w))]
        if name == 'fileno': return [(st, C(3, w))]
        if name == 'fcntl': return [(st, C(2, w))]
        if name == 'memcmp':
            x, y = I.resolve(st, args[0], ins), I.resolve(st, args[1], ins); n = s.known(st, args[2], 'length'); r = 0
            for q in range(n):
                e = st.equal(I.rd(st, x[0], add(x[1], C(q, 64)), 1), I.rd(st, y[0], add(y[1], C(q, 64)), 1))
                if e is False: return [(st, C(1, w))]
                if e is None: r = None
            return [(st, C(0, w) if r == 0 else I.sym('memcmp', w))]
        return None

def fileworld(cells=(), length=0, pos=0):
    """world whose file holds the given (offset, size, value) cells"""
    h = File(); w = base(h, io=False); w.I.UNROLL = 5000
    w.raw('&file', 1 << 40, ('zero',), kind='heap'); w.raw('&fpos', 16, ('zero',))
    f = w.st.w('&file')
    for o, z, v in cells: f.cells[o] = (z, v if isinstance(v, tuple) else C(v, 8 * z))
    w.st.w('&fpos').cells.update({0: (8, C(pos, 64)), 8: (8, length if isinstance(length, tuple) else C(length, 64))}); w.st.memo = {}
    return w, h

def tag(o, s): return [(o + k, 1, ord(c)) for k, c in enumerate(s)]
def content(w, st): return st.mem['&file'].cells, st.const(st.mem['&fpos'].cells[8][1])
def fbits(w, st, off, n):
    """n bytes of the file at off, as one value"""
    return st.simp(w.I.rd(st, '&file', C(off, 64), n))
