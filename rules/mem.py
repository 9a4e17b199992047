"""Blocks of memory over all operations of the library (C04, C15)."""
from cbs import split, cmp
from report import Report
from c16 import reach
from objs import *
import ops as O

class Mem(Hooks):
    """watches every release and every access for released memory"""
    def __init__(s): s.bad = {}
    def note(s, kind, I, st, ins, msg): s.bad.setdefault((kind, I.loc(ins)), msg)
    def free(s, I, st, ptr, ins):
        r = I.resolve(st, ptr, ins)
        if r is None or r[0] not in st.mem: s.note('release', I, st, ins, 'releases %s' % show(ptr)); return
        o = st.mem[r[0]]
        if o.kind != 'heap': s.note('release', I, st, ins, 'releases %s, which is not memory of the library' % nmr(r[0]))
        elif o.freed: s.note('release', I, st, ins, 'releases %s a second time' % nmr(r[0]))
        elif st.const(r[1]) != 0: s.note('release', I, st, ins, 'releases the inside of %s' % nmr(r[0]))
    def access(s, I, st, rid, off, size, write, ins):
        o = st.mem.get(rid)
        if o is not None and o.freed: s.note('use', I, st, ins, '%s %s after its release' % ('writes' if write else 'reads', nmr(rid)))
    def badderef(s, I, st, ptr, ins): s.note('null', I, st, ins, 'uses the pointer %s' % show(ptr))

def nmr(r): return 'the block allocated at ' + r[5:].split('#')[0] if r.startswith('heap:') else r

def lost(st, dead=(), ret=None):
    """blocks in use that nothing refers to any more"""
    roots = [r for r, o in st.mem.items() if not r.startswith('heap') and not r.startswith('&') and not o.freed and r not in dead]
    if ret is not None and ret[0] == 'ptr': roots.append(ret[2])
    seen, todo = set(), list(roots)
    while todo:
        r = todo.pop()
        if r in seen or r not in st.mem: continue
        seen.add(r)
        if st.mem[r].freed: continue
        for a, e in st.mem[r].cells.items():
            if e[1][0] == 'ptr': todo.append(e[1][2])
    return sorted(r for r, o in st.mem.items() if o.kind == 'heap' and not o.freed and r not in seen and r not in dead)

def dangling(st, dead=()):
    """pointers in live memory to released blocks"""
    return [(r, a, e[1][2]) for r, o in st.mem.items() if not o.freed and not r.startswith('&') and r not in dead
            for a, e in o.cells.items() if e[1][0] == 'ptr' and e[1][2] in st.mem and st.mem[e[1][2]].freed]

def datas(w, st): return [r for r, o in st.mem.items() if w.types.get(r) == 'BKData' and not o.freed]
def frameowner(w, st, r):
    """sample data frees its frames later exactly when they are its own block"""
    fl = w.I.getf(st, r, 'object.flags'); bit = w.enum('BK_DATA_FLAG_COPY').bit_length() - 1
    b = bits_of(st.simp(fl))[bit]; own = b if b in (0, 1) else st.bitval(b)
    p = st.simp(w.I.getf(st, r, 'frames'))
    if st.const(p) == 0: return None
    heap = p[0] == 'ptr' and p[2] in st.mem and st.mem[p[2]].kind == 'heap'
    if p[0] != 'ptr': return None
    if own is None or bool(own) == heap: return None
    return 'sample data %s %s' % (r, 'would release frames of the caller' if own else 'never releases its own frames')

# ---- operations that create or free whole objects
WAVES = ('BK_SQUARE', 'BK_TRIANGLE', 'BK_NOISE', 'BK_SAWTOOTH', 'BK_SINE', 'BK_CUSTOM', 'BK_SAMPLE')
def creators(p):
    out = []
    mk = lambda w, t: (w.raw('out', 8, ('undef',)) and 'out' or 'out')
    for kind, t in (('ctx', 'BKContext'), ('clock', 'BKClock'), ('div', 'BKDivider'), ('unit', 'BKUnit'), ('track', 'BKTrack'), ('data', 'BKData'), ('instr', 'BKInstrument')):
        for suf in ('Init', 'Alloc'):
            fn = t + suf
            if fn not in p.funcs or p.funcs[fn].decl: continue
            # channels, waveforms: each value on its own, then all others
            known = range(9) if t == 'BKContext' else [0] + [p.enum(n) for n in WAVES if p.enum(n) is not None] if t in ('BKUnit', 'BKTrack') else []
            for x in list(known) + [None]:
              def prep(w, t=t, suf=suf, fn=fn, x=x, known=known):
                if suf == 'Init': w.new('cp', t); first = 'cp'
                else: w.raw('cp', 8, ('undef',)); first = 'cp'
                n = len(w.p.fn(fn).args) - 1
                args = [w.I.nsym('arg%d' % k, w.p.fn(fn).args[k + 1]['w']) if w.p.fn(fn).args[k + 1]['w'] < 64 else (P(w.callback('cbk')) if 'Callback' in str(w.p.fn(fn).args[k + 1]) else w.I.nsym('arg%d' % k, 64)) for k in range(n)]
                if x is not None: args[0] = C(x, 32)
                else:
                    for v in known: w.st.assume(cmp('eq', args[0], C(v, 32)), False)
                return (first, *args)
              out.append(O.Op(kind, fn if x is None and not known else '%s %s' % (fn, 'other' if x is None else x), fn, prep))
    return out

def world(kind, v, op, hooks, tier, fail=True):
    if kind == 'new':
        w = World(hooks=hooks, fail_alloc=fail, io_fail=fail)
    else: w = rich(kind, v, hooks=hooks, fail_alloc=fail, io_fail=fail)
    w.I.MAXRET = 6 if tier == 'quick' else 24; w.I.MAXSTATES = 4 if tier == 'quick' else 12
    w.raw('&ghost', 4, ('zero',)); w.st.w('&ghost').cells[0] = (4, C(0, 32))
    return w

def nomem(st): return st.const(st.simp(st.mem['&ghost'].cells[0][1])) == 1

def allops(tier):
    out = [(k, v, i) for k in CLASSES for v in variants(k) for i in range(len(O.ops(k)))]
    return out + [('new', '', i) for i in range(len(creators(program())))]
def getop(kind, i): return creators(program())[i] if kind == 'new' else O.ops(kind)[i]
def allocators(p):
    """functions that allocate or release memory"""
    out = {}
    for n, f in p.funcs.items():
        if f.decl: continue
        for b in f.blocks.values():
            for i in b['ins']:
                g = (i.get('callee') or {}).get('g') if i['op'] == 'call' else None
                if g in ('malloc', 'calloc', 'realloc', 'free', 'strdup', 'posix_memalign', 'aligned_alloc'): out.setdefault(n, set()).add(g)
    return out

def cover(rep, p):
    """every function that allocates or releases takes part"""
    for f, gs in sorted(allocators(p).items()):
        rep.ob('covered', f in rep.funcs, f, where(p, f), '%s calls %s but is not reached from any operation analysed' % (f, ', '.join(sorted(gs))))
