"""C02: an operation that returns an error has changed nothing."""
from cbs import split, cmp
from report import Report
from objs import *
import ops as O

NOMEM = 'BK_ALLOCATION_ERROR'
# documented: giving a player unusable sample data silences it
SILENCES = ('BKSetPtr BK_WAVEFORM data', 'BKSetPtr BK_SAMPLE data')
# results of these are no status codes
NOSTATUS = ('tick',)

def relevant(op): return op.label not in NOSTATUS and op.label not in SILENCES and op.label != 'BKDispose'

def allowed(w, pre, op):
    """caller memory an operation may use as scratch even if it fails: the file it reads, output objects"""
    return {r for r in ('file', 'cp', 'out') if r in pre.mem}

def job(a):
    kind, v, i, tier = a; op = O.ops(kind)[i]
    rep = Report('C02', tier)
    w = rich(kind, v, io_fail=True); w.I.MAXRET = 6 if tier == 'quick' else 24; w.I.MAXSTATES = 4 if tier == 'quick' else 12
    pre, fn, outs = O.go(w, op)
    inst = '%s (%s) %s' % (kind, v, op.label)
    n = 0
    for st0, ret in outs:
        if ret is None or ret[0] == 'ptr': continue
        for st, (bad,) in split(st0, [cmp('slt', ret, C(0, ret[1]))]):
            if not bad: continue
            n += 1
            ch = changes(w, pre, st, allowed(w, pre, op))
            m = None if not ch else 'returns %s but %s' % (show(ret), '; '.join(fx(c) for c in ch[:3]))
            rep.ob('refused-unchanged', not ch, inst, where(w.p, fn), m or '')
    rep.count('operations'); rep.count('operations that can fail', 1 if n else 0)
    rep.funcs |= w.I.visited_fn
    return rep

def jobs(tier): return [(k, v, i, tier) for k in CLASSES for v in variants(k) for i, op in enumerate(O.ops(k)) if relevant(op)]

EXPL = ('Every operation of the library (all attribute and pointer attribute setters with arbitrary values, effects, sequences and envelopes, '
        'setting, converting, normalising and loading sample data, attaching, detaching, copying) is analysed on an object in an arbitrary state: '
        'free or attached, playing a sample or custom wave, with own or borrowed frames, used or unused. Allocations succeed; file operations '
        'may fail at every call. On every path that returns a negative status the memory after the call is compared with the memory before it, '
        'cell by cell over every object in the heap: the object, its containers, its players, and blocks of the heap. Nothing but the file, '
        'the output location and the copy under construction may differ, and no block may have been allocated or released.')

def check(rep):
    for r in presults(job, jobs(rep.tier)): rep.merge(r)
    rep.need('refused-unchanged', 120)
    rep.assumptions += ['allocations succeed (failing ones belong to C15)', 'giving a unit or track unusable sample data silences it, as documented',
                        'containers hold the few members of the analysed heaps']
    return rep.finish('other', EXPL, program())
