"""Small abstract heaps of BlipKit objects: constructed by analysing the
library's own constructors, then generalised to arbitrary scalar contents."""
import os, sys
from multiprocessing import get_context
from val import *
import interp
from interp import Interp, State, Hooks, Infeasible, SYMR
import ir
from ir import AnalysisBroken, VERIF

_prog = None
def program():
    global _prog
    if _prog is None: _prog = ir.load(extra=[os.path.join(VERIF, 'engine', 'stubs.c')])
    return _prog

OBJ = {'ctx': 'BKContext', 'clock': 'BKClock', 'div': 'BKDivider', 'unit': 'BKUnit', 'track': 'BKTrack', 'data': 'BKData', 'instr': 'BKInstrument'}
BIGFLAGS = 24   # private object flags live in the top byte

def P(rid, off=0): return ('ptr', 64, rid, C(off, 64))

class World:
    """one abstract heap; `st` is the current state"""
    def __init__(s, prog=None, hooks=None, fail_alloc=False, io_fail=False):
        s.p = prog or program()
        s.I = Interp(s.p, hooks, fail_alloc, io_fail)
        s.st = State()
        s.types = {}
    def enum(s, n): return s.p.enum(n)
    def new(s, rid, type, dflt=('undef',), n=None, kind='param', size=None):
        ti = s.p.struct(type) if isinstance(type, str) else type
        s.types[rid] = type
        return s.I.region(s.st, rid, ti, kind, size, dflt)
    def raw(s, rid, size, dflt=('sym', ''), kind='param'):
        return s.I.region(s.st, rid, None, kind, size, dflt)
    def call(s, fname, *args, want=0, one=True):
        """run during construction; keeps the single state returning `want`"""
        a, b = s.I.fail_alloc, s.I.io_fail
        s.I.fail_alloc = s.I.io_fail = False
        try: outs = s.I.run(fname, [s.arg(x, fname, i) for i, x in enumerate(args)], s.st)
        finally: s.I.fail_alloc, s.I.io_fail = a, b
        if want is not None:
            outs = [(t, v) for t, v in outs if v is None or t.const(v) in (want & 0xffffffff, None)]
        if not outs: raise AnalysisBroken('construction step %s has no successful outcome' % fname)
        if len(outs) > 1 and one:
            raise AnalysisBroken('construction step %s has %d outcomes' % (fname, len(outs)))
        s.st = outs[0][0]; s.st.trace = None
        return outs[0][1]
    def arg(s, x, fname=None, i=0):
        if isinstance(x, tuple): return x
        if x is None: return NULL
        if isinstance(x, str): return P(x)
        f = s.p.fn(fname)
        return C(x, f.args[i]['w'])
    def get(s, rid, path): return s.I.getf(s.st, rid, path)
    def set(s, rid, path, v):
        if v is None: v = NULL
        if isinstance(v, str): v = P(v)
        s.I.setf(s.st, rid, path, v)
    def off(s, type, path): return s.p.offset(s.p.struct(type), path)
    # ---- objects
    def ctx(s, rid='ctx', ch=1, rate=44100):
        s.new(rid, 'BKContext'); s.call('BKContextInit', rid, ch, rate)
        return rid
    def clock(s, rid, period=0x100000, cb=None):
        s.new(rid, 'BKClock'); s.call('BKClockInit', rid, period, cb); return rid
    def div(s, rid, n=3, cb=None):
        s.new(rid, 'BKDivider'); s.call('BKDividerInit', rid, n, cb); return rid
    def unit(s, rid, wf=0):
        s.new(rid, 'BKUnit'); s.call('BKUnitInit', rid, wf); return rid
    def track(s, rid, wf=0):
        s.new(rid, 'BKTrack'); s.call('BKTrackInit', rid, wf); return rid
    def data(s, rid):
        s.new(rid, 'BKData'); s.call('BKDataInit', rid); return rid
    def instr(s, rid):
        s.new(rid, 'BKInstrument'); s.call('BKInstrumentInit', rid); return rid
    def callback(s, rid, fn='cbf'):
        """a BKCallback record with an unknown user function"""
        s.new(rid, 'BKCallback', ('sym', '')); f = s.I.nsym(rid + '.func', 64); s.st.assume_ne(f, NULL)
        s.set(rid, 'func', f); s.set(rid, 'userInfo', s.I.nsym(rid + '.userInfo', 64))
        return rid
    def generalise(s, rid, keep=(), only=None, inv=None):
        """replace every scalar of the object by an arbitrary value (within
        `inv(path,w)` if given); pointers and the private flag byte stay"""
        o = s.st.mem[rid]; ti = o.type
        for path, off, sz, lt in list(s.p.leaves(ti)):
            if s.p.is_ptr(lt) or sz not in (1, 2, 4, 8): continue
            if any(path == k or path.startswith(k) for k in keep): continue
            if only is not None and not any(path == k or path.startswith(k) for k in only): continue
            if path.endswith('instanceSize'): continue
            w = sz * 8
            n = ('s', w, rid + '.' + path)
            r = inv(path, w) if inv else None
            if r is not None: SYMR[n] = r
            if path.endswith('object.flags') or path == 'flags' and s.types.get(rid) in ():
                cur = s.get(rid, path)
                b = bits_of(cur)
                v = mkbits(32, tuple((n, i) for i in range(BIGFLAGS)) + b[BIGFLAGS:])
                s.set(rid, path, v)
            else: s.set(rid, path, n)
        s.st.memo = {}
    def fork(s):
        w = World.__new__(World)
        w.p, w.I, w.types = s.p, s.I, dict(s.types)
        w.st = s.st.fork()
        return w
    def run(s, fname, *args):
        """analyse an operation on this heap: list of (state, ret)"""
        st = s.st.fork(); st.trace = None
        return s.I.run(fname, [s.arg(x, fname, i) for i, x in enumerate(args)], st)

def same(st, a, b): return st.equal(a, b) is True or a == b

def field(w, st, rid, path): return w.I.getf(st, rid, path)

def diff_regions(w, pre, post, rids=None, ignore=()):
    """cells of regions existing in `pre` whose value changed; [(rid, path, old, new)]"""
    out = []
    for rid, o in pre.mem.items():
        if rids is not None and rid not in rids: continue
        if rid.startswith('&'): continue
        if rid not in post.mem: out.append((rid, '?', 'live', 'gone')); continue
        q = post.mem[rid]
        if q is o: continue
        if q.freed and not o.freed: out.append((rid, '*', 'live', 'released')); continue
        offs = {}
        for a, e in o.cells.items(): offs[a] = e[0]
        for a, e in q.cells.items(): offs.setdefault(a, e[0])
        for a, sz in sorted(offs.items()):
            va = w.I.rd(pre, rid, C(a, 64), sz); vb = w.I.rd(post, rid, C(a, 64), sz)
            va, vb = post.simp(va), post.simp(vb)
            if va == vb or post.equal(va, vb) is True: continue
            p = w.p.leaf(o.type, a)[0] if o.type is not None else '+%d' % a
            if any(p == i or p.startswith(i) for i in ignore): continue
            out.append((rid, p, show(va), show(vb)))
        if q.sc and q.sc != o.sc: out.append((rid, '[unknown index]', '', ''))
        if len(q.dflt) != len(o.dflt) or q.dflt != o.dflt:
            out.append((rid, '[range]', '', str(q.dflt[-1])))
    return out

def reaches(st, rid, keep=()):
    """(region, offset) cells in live regions that still point at region rid"""
    out = []
    for r, o in st.mem.items():
        if r == rid or r.startswith('&') or o.freed: continue
        for a, e in o.cells.items():
            if e[1][0] == 'ptr' and e[1][2] == rid: out.append((r, a))
    return out

def pmap(fn, items, procs=None):
    """run fn over items in worker processes (fork), results in order"""
    items = list(items)
    procs = procs or min(8, os.cpu_count() or 1, len(items))
    if procs <= 1 or os.environ.get('VERIF_SERIAL'):
        return [fn(i) for i in items]
    ctx = get_context('fork')
    global _pfn
    _pfn = fn
    with ctx.Pool(procs) as pool:
        return pool.map(_pcall, items, chunksize=1)
_pfn = None
def _pcall(i):
    import threading
    sys.setrecursionlimit(20000)
    try: return ('ok', _pfn(i))
    except AnalysisBroken as e: return ('broken', str(e))
def presults(fn, items, procs=None):
    out = []
    for r in pmap(fn, items, procs):
        if isinstance(r, tuple) and len(r) == 2 and r[0] == 'broken': raise AnalysisBroken(r[1])
        out.append(r[1] if isinstance(r, tuple) and len(r) == 2 and r[0] == 'ok' else r)
    return out
