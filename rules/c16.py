"""C16: copies equal their original and share nothing with it."""
from cbs import split, cmp
from report import Report
from objs import *

class Copies(Hooks):
    """notes every block copy"""
    def store(self, I, st, rid, off, size, val, old, ins):
        if old == 'memcpy' and val[0] == 'ptr': st.ev(('mcpy', rid, off, val[2], val[3], size))
    def badderef(self, I, st, ptr, ins): st.ev(('badderef', I.loc(ins)))

def reach(st, roots, stop=()):
    """regions reachable over pointers (constant globals and classes aside)"""
    seen, todo = set(), list(roots)
    while todo:
        r = todo.pop()
        if r in seen or r not in st.mem or r.startswith('@') or r in stop: continue
        seen.add(r)
        for a, e in st.mem[r].cells.items():
            if e[1][0] == 'ptr': todo.append(e[1][2])
    return seen

def okret(st0, ret):
    """states in which the call succeeded"""
    if ret is None: return [st0]
    return [st for st, (bad,) in split(st0, [cmp('slt', ret, C(0, ret[1]))]) if not bad]

def eq(st, a, b): return a == b or st.simp(a) == st.simp(b) or st.equal(a, b) is True

def cells_equal(w, st, a, b, n, step=2):
    """first offset below n at which two blocks (rid, offset) differ, or None"""
    for o in range(0, n, step):
        va = w.I.rd(st, a[0], C(a[1] + o, 64), step); vb = w.I.rd(st, b[0], C(b[1] + o, 64), step)
        if not eq(st, va, vb): return o, show(st.simp(va)), show(st.simp(vb))

def separate(rep, w, pre, st, inst, at, owned):
    """the copy shares no memory with the original, its players or its frames"""
    shared = [r for r in reach(st, ['cp']) if r in pre.mem and r != 'cp']
    rep.ob('nothing-shared', not shared, inst, at, 'the copy still refers to %s of the original' % ', '.join(sorted(shared)))
    back = sorted({r for r in reach(st, [r for r in pre.mem if r != 'cp' and not r.startswith('@') and not r.startswith('&')]) if r not in pre.mem})
    rep.ob('nothing-shared', not back, inst + ' (back)', at, 'the original refers to memory of the copy (%s)' % ', '.join(back))
    ch = changes(w, pre, st, {'cp'} | {r for r in st.mem if r not in pre.mem})
    rep.ob('original-unchanged', not ch, inst, at, '' if not ch else 'copying changes the original: ' + fx(ch[0]))

def lives(rep, w, pre, st, inst, at, dispose):
    """each of both can be disposed of first; the other one stays as it is"""
    for first, other in (('cp', 'o'), ('o', 'cp')):
        t = w.fork(); t.st = st.fork(); base = t.st.fork()
        own = reach(base, [other])
        blocks = {r for r in reach(base, [first]) if r.startswith('heap') and r not in own}
        outs = dispose(t, first)
        rep.ob('disposable', bool(outs), '%s dispose %s' % (inst, first), at, '%s cannot be disposed of' % first)
        for q, _ in outs:
            bad = [e for e in q.events() if e[0] == 'badderef']
            rep.ob('disposable', not bad, '%s dispose %s' % (inst, first), at, 'disposing %s uses an invalid pointer at %s' % (first, bad and bad[0][1]))
            ch = [c for c in diff_regions(t, base, q) if c[0] in own]
            rep.ob('independent', not ch, '%s dispose %s' % (inst, first), at, '' if not ch else 'disposing %s changes %s: %s' % ('the copy' if first == 'cp' else 'the original', 'the original' if first == 'cp' else 'the copy', fx(ch[0])))
            left = sorted(r for r in blocks if not q.mem[r].freed) if first == 'cp' else []
            rep.ob('disposable', not left, '%s memory of %s' % (inst, first), at, 'memory of the disposed copy is not released')

def objdispose(t, r):
    return t.run('BKDispose', r)

# ---------------- sample data
DFIELDS = ('numFrames', 'numChannels', 'numBits', 'sampleRate', 'samplePitch', 'sustainOffset', 'sustainEnd')
def data(rep, a):
    frames, played, n, ch = a
    w = World(hooks=Copies(), fail_alloc=False)
    num = n if n is not None else w.I.nsym('o.numFrames', 32, 2, 1 << 24)
    setdata(w, 'o', frames, num, ch if ch is not None else w.I.nsym('o.numChannels', 32, 1, 8))
    w.generalise('o', keep=('numFrames', 'numChannels', 'object'), inv=inv)
    if n and ch:
        for k in range(n * ch): w.st.w('o.fr').cells[2 * k] = (2, w.I.nsym('frame%d' % k, 16))
    if frames != 'empty':
        for f in ('sustainOffset', 'sustainEnd'): w.st.add_diff(w.get('o', f), w.get('o', 'numFrames'), 'S', 0); SYMR[w.get('o', f)] = (0, 1 << 24)
    else:
        for f in ('sustainOffset', 'sustainEnd'): w.set('o', f, 0)
    if played:
        w.ctx('c', 2); w.unit('u'); w.track('t')
        L(w, 'unit', 'c').build([('u', 0)]); play(w, 'unit', 'u', 'o', 'BK_SAMPLE'); play(w, 'track', 't', 'o', 'BK_CUSTOM')
    w.new('cp', 'BKData'); pre = w.st.fork()
    inst = 'data (%s%s) %s x %s' % (frames, ', played' if played else '', n if n is not None else 'any', ch if ch is not None else 'any')
    at = where(w.p, 'BKDataInitCopy')
    good = 0
    for st0, ret in w.run('BKDataInitCopy', 'cp', 'o'):
        for st in okret(st0, ret):
            good += 1
            g = lambda r, f: w.I.getf(st, r, f)
            for f in DFIELDS: rep.ob('equal', eq(st, g('cp', f), g('o', f)), '%s %s' % (inst, f), at, '%s of the copy is %s instead of %s' % (f, show(g('cp', f)), show(g('o', f))))
            rep.ob('valid-object', eq(st, g('cp', 'object.isa'), g('o', 'object.isa')), inst + ' class', at, 'the copy is no sample data object (class %s)' % show(g('cp', 'object.isa')))
            rep.ob('valid-object', eq(st, g('cp', 'stateList'), NULL), inst + ' players', at, 'the copy already lists players: %s' % show(g('cp', 'stateList')))
            fr = st.simp(g('cp', 'frames'))
            if frames == 'empty': rep.ob('equal', eq(st, fr, NULL), inst + ' frames', at, 'the copy of empty data has frames')
            elif fr[0] != 'ptr' or fr[2] not in st.mem:
                rep.ob('equal', False, inst + ' frames', at, 'the copy has no frames of its own: %s' % show(fr))
            else:
                if n is not None and ch is not None and n * ch <= 4096:
                    d = cells_equal(w, st, (fr[2], st.const(fr[3]) or 0), ('o.fr', 0), 2 * n * ch)
                    rep.ob('equal', d is None, inst + ' frames', at, d and 'frame %d of the copy is %s instead of %s' % (d[0] // 2, d[1], d[2]))
                mc = [e for e in st.events() if e[0] == 'mcpy' and e[1] == fr[2]]
                if len(mc) == 1 and mc[0][3] == 'o.fr':
                    e = mc[0]; env = {}
                    okc = eq(st, e[2], fr[3]) and st.const(e[4]) == 0
                    for nf, nc in ((2, 1), (3, 2), (5000, 8), (70000, 1), (1 << 24, 3), (1 << 24, 8)):
                        if n is not None: nf = n
                        if ch is not None: nc = ch
                        v = evalt(e[5], {('s', 32, 'o.numFrames'): nf, ('s', 32, 'o.numChannels'): nc})
                        if v is not None and v != 2 * nf * nc: okc = False; break
                    rep.ob('equal', okc, inst + ' size', at, 'frames are copied only in part (%s bytes of %d x %d frames)' % (v if okc is False else '', nf, nc))
            separate(rep, w, pre, st, inst, at, None)
            lives(rep, w, pre, st, inst, at, objdispose)
    rep.ob('succeeds', good > 0, inst, at, 'copying valid sample data is always refused')
    rep.funcs |= w.I.visited_fn

# ---------------- instruments and sequences
def sequence(w, rid, slot, kind, length, so, sl):
    """give instrument `rid` a sequence; its block"""
    v = w.raw(rid + '.in%d' % slot, 8 * length); o = w.st.w(rid + '.in%d' % slot)
    for k in range(length): o.cells[8 * k] = (4, C(5 + k, 32)); o.cells[8 * k + 4] = (4, C(100 * k, 32))
    w.call('BKInstrumentSet' + ('Envelope' if kind == 'envelope' else 'Sequence'), rid, slot, rid + '.in%d' % slot, length, so, sl)
    p = w.get(rid, 'sequences[%d]' % slot)
    return p[2], w.st.const(p[3])

def generalseq(w, b, kind, length, nm, listed):
    """arbitrary values"""
    blk, base = b
    S = w.p.struct('BKSequence'); f = lambda n: base + w.p.offset(S, n)
    v = w.I.rd(w.st, blk, C(f('values'), 64), 8); sz = 8 if kind == 'envelope' else 4
    o = w.st.w(v[2]); vo = w.st.const(v[3])
    for k in range(0, length * sz, 4): o.cells[vo + k] = (4, w.I.nsym('%s.value%d' % (nm, k // 4), 32))
    w.st.w(blk).cells[f('fracShift')] = (4, w.I.nsym(nm + '.fracShift', 32, 0, 30))
    w.st.w(blk).cells[f('state')] = (4, w.I.nsym(nm + '.state', 32))
    if listed:
        w.new(nm + '.st', 'BKSequenceState', ('sym', '')); w.st.w(blk).cells[f('stateList')] = (8, P(nm + '.st'))
    w.st.memo = {}
    return (blk, base)

SFIELDS = ('funcs', 'length', 'sustainOffset', 'sustainLength', 'fracShift', 'state')
def seqequal(rep, w, st, c, o, kind, length, inst, at):
    S = w.p.struct('BKSequence'); rd = lambda b, n: st.simp(w.I.rd(st, b[0], C(b[1] + w.p.offset(S, n), 64), 8 if n in ('funcs', 'values', 'stateList') else 4))
    for f in SFIELDS: rep.ob('equal', eq(st, rd(c, f), rd(o, f)), '%s %s' % (inst, f), at, '%s of the copied sequence is %s instead of %s' % (f, show(rd(c, f)), show(rd(o, f))))
    rep.ob('valid-object', eq(st, rd(c, 'stateList'), NULL), inst + ' players', at, 'the copied sequence already lists players: %s' % show(rd(c, 'stateList')))
    v, u = rd(c, 'values'), rd(o, 'values')
    if v[0] != 'ptr' or st.const(v[3]) is None: rep.ob('equal', False, inst + ' values', at, 'the copied sequence has no values: %s' % show(v)); return
    d = cells_equal(w, st, (v[2], tos(st.const(v[3]), 64)), (u[2], tos(st.const(u[3]), 64)), length * (8 if kind == 'envelope' else 4), 4)
    rep.ob('equal', d is None, inst + ' values', at, d and 'value %d of the copied sequence is %s instead of %s' % (d[0] // 4, d[1], d[2]))

SHAPES = [('simple', 1, 0, 0), ('simple', 4, 1, 2), ('envelope', 3, 1, 1), ('envelope', 1, 0, 1), ('simple', 3, 0, 3), ('envelope', 4, 2, 2)]
def instrument(rep, a):
    shape, used, listed = a         # shape: per slot None or an index into SHAPES
    w = World(hooks=Copies(), fail_alloc=False); w.instr('o'); blocks = {}
    for i, k in enumerate(shape):
        if k is not None: blocks[i] = sequence(w, 'o', i, *SHAPES[k])
    if used:
        w.track('t'); w.call('BKSetPtr', 't', w.enum('BK_INSTRUMENT'), 'o', 8, want=0)
    for i in blocks: generalseq(w, blocks[i], *SHAPES[shape[i]][:2], 'o.s%d' % i, listed)
    w.new('cp', 'BKInstrument'); pre = w.st.fork()
    inst = 'instrument (%s%s%s)' % (', '.join('-' if k is None else '%s %d' % SHAPES[k][:2] for k in shape), ', used' if used else '', ', states' if listed else '')
    at = where(w.p, 'BKInstrumentInitCopy'); good = 0
    for st0, ret in w.run('BKInstrumentInitCopy', 'cp', 'o'):
        for st in okret(st0, ret):
            good += 1
            g = lambda r, f: st.simp(w.I.getf(st, r, f))
            rep.ob('equal', eq(st, g('cp', 'numSequences'), g('o', 'numSequences')), inst + ' numSequences', at, 'numSequences is %s instead of %s' % (show(g('cp', 'numSequences')), show(g('o', 'numSequences'))))
            rep.ob('valid-object', eq(st, g('cp', 'object.isa'), g('o', 'object.isa')), inst + ' class', at, 'the copy is no instrument (class %s)' % show(g('cp', 'object.isa')))
            rep.ob('valid-object', eq(st, g('cp', 'stateList'), NULL), inst + ' players', at, 'the copy already lists players: %s' % show(g('cp', 'stateList')))
            for i in range(4):
                p = g('cp', 'sequences[%d]' % i)
                if i not in blocks: rep.ob('equal', eq(st, p, NULL), '%s slot %d' % (inst, i), at, 'slot %d of the copy holds %s, the original has none' % (i, show(p)))
                elif p[0] != 'ptr' or p[2] not in st.mem: rep.ob('equal', False, '%s slot %d' % (inst, i), at, 'slot %d of the copy holds %s' % (i, show(p)))
                else: seqequal(rep, w, st, (p[2], st.const(p[3]) or 0), blocks[i], *SHAPES[shape[i]][:2], '%s slot %d' % (inst, i), at)
            separate(rep, w, pre, st, inst, at, None)
            lives(rep, w, pre, st, inst, at, objdispose)
    rep.ob('succeeds', good > 0, inst, at, 'copying a valid instrument is always refused')
    rep.funcs |= w.I.visited_fn

def seqcopy(rep, a):
    k, listed = a
    w = World(hooks=Copies(), fail_alloc=False); w.instr('oi'); blk, base = generalseq(w, sequence(w, 'oi', 0, *SHAPES[k]), *SHAPES[k][:2], 'o.s', listed)
    w.raw('cp', 8, ('undef',)); pre = w.st.fork()
    inst = 'sequence (%s %d%s)' % (*SHAPES[k][:2], ', states' if listed else ''); at = where(w.p, 'BKSequenceCopy'); good = 0
    for st0, ret in w.run('BKSequenceCopy', 'cp', P(blk, base)):
        for st in okret(st0, ret):
            good += 1
            p = st.simp(w.I.rd(st, 'cp', C(0, 64), 8))
            if p[0] != 'ptr' or p[2] not in st.mem: rep.ob('equal', False, inst, at, 'no copy is delivered: %s' % show(p)); continue
            seqequal(rep, w, st, (p[2], st.const(p[3]) or 0), (blk, base), *SHAPES[k][:2], inst, at)
            separate(rep, w, pre, st, inst, at, None)
            for first, ptr, other in (('cp', p, P(blk, base)), ('o', P(blk, base), p)):
                t = w.fork(); t.st = st.fork(); b = t.st.fork(); own = reach(b, [other[2]])
                for q, _ in t.run('BKSequenceDispose', ptr):
                    ch = [c for c in diff_regions(t, b, q) if c[0] in own]
                    rep.ob('independent', not ch, '%s dispose %s' % (inst, first), at, '' if not ch else 'disposing one changes the other: ' + fx(ch[0]))
    rep.ob('succeeds', good > 0, inst, at, 'copying a valid sequence is always refused')
    rep.funcs |= w.I.visited_fn

def jobs(tier):
    out = []
    sizes = [(None, None), (2, 1), (3, 2), (2, 8), (17, 3), (None, 1), (40000, None)] + ([(n, c) for n in range(2, 9) for c in range(1, 9)] if tier != 'quick' else [])
    for f in ('borrowed', 'owned'):
        for pl in (0, 1): out += [('data', (f, pl, n, c)) for n, c in sizes]
    out += [('data', ('empty', 0, 0, 0))]
    shapes = [(None,) * 4, (0, None, None, None), (None, 1, None, 2), (1, 2, 3, 4), (None, None, None, 5), (4, 5, None, None), (3, 3, 0, 0)]
    if tier != 'quick':
        import itertools
        shapes += [s for s in itertools.product((None, 1, 2), repeat=4) if s not in shapes]
    out += [('instrument', (s, u, l)) for s in shapes for u in (0, 1) for l in ((0, 1) if tier != 'quick' else (0,))] + [('instrument', ((1, 2, None, None), 0, 1))]
    out += [('seqcopy', (k, l)) for k in range(len(SHAPES)) for l in (0, 1)]
    return out

def job(a):
    rep = Report('C16', a[2]); globals()[a[0]](rep, a[1]); return rep

EXPL = ('Copying is analysed for sample data (empty, borrowed and owned frames, played or not, small, large and arbitrary sizes, all channel '
        'counts), for instruments (every slot empty, with a simple sequence or an envelope of arbitrary values, used by a track or not) and for single '
        'sequences. On every successful path all properties and every value or frame of the copy equal those of the original, the copy is a complete '
        'object of its class without players, no block reachable from the copy is reachable from anything that existed before and vice versa, the original '
        'is untouched, and disposing of either one releases the memory of the copy and leaves the other one as it was.')
def check(rep):
    for r in presults(job, [j + (rep.tier,) for j in jobs(rep.tier)]): rep.merge(r)
    rep.need('equal', 300); rep.need('nothing-shared', 60); rep.need('independent', 60); rep.need('valid-object', 60)
    rep.assumptions += ['allocations succeed (failing ones belong to C15)', 'sequences have up to four values in the analysed heaps; frames beyond 4096 are covered by the extent of the block copied']
    return rep.finish('other', EXPL, program())
