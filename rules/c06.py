"""C06: no query changes anything but the caller's output location."""
from objs import *
from report import Report

def queries(p):
    """(function, kind, argument builder)"""
    q = []
    A = ('s', 32, 'attr'); S32 = ('s', 32, 'size'); S64 = ('s', 64, 'size64')
    for k, f in entry_points(p, 'getAttr'): q.append((f, k, lambda o: (o, A, 'out')))
    for k, f in entry_points(p, 'getPtr'): q.append((f, k, lambda o: (o, A, 'out', S64)))
    for k in CLASSES:
        q.append(('BKGetAttr', k, lambda o: (o, A, 'out'))); q.append(('BKGetPtr', k, lambda o: (o, A, 'out', S64)))
    for f, k, a in (('BKUnitGetAttr', 'unit', 3), ('BKUnitGetPtr', 'unit', 3), ('BKTrackGetAttr', 'track', 3), ('BKTrackGetPtr', 'track', 3), ('BKContextGetAttr', 'ctx', 3),
                 ('BKContextGetPtr', 'ctx', 3), ('BKDataGetAttr', 'data', 3)):
        if f in p.funcs: q.append((f, k, lambda o: (o, A, 'out')))
    if 'BKTrackGetEffect' in p.funcs: q.append(('BKTrackGetEffect', 'track', lambda o: (o, A, 'out', S32)))
    if 'BKContextSize' in p.funcs: q.append(('BKContextSize', 'ctx', lambda o: (o,)))
    if 'BKInstrumentGetSequence' in p.funcs: q.append(('BKInstrumentGetSequence', 'instr', lambda o: (o, A)))
    if 'BKInstrumentStateGetSequenceValueAtOffset' in p.funcs:
        q.append(('BKInstrumentStateGetSequenceValueAtOffset', 'track', lambda o: (P('o', program().offset(program().struct('BKTrack'), 'instrState')), A, S32)))
    q.append(('BKStatusGetName', None, lambda o: (A,)))
    for f in ('BKTonePeriodLookup', 'BKLog2PeriodLookup'):
        q.append((f, None, lambda o: (('s', 32, 'tone'), ('s', 32, 'rate'))))
    return q

def job(qi):
    rep = Report('C06', 'quick'); p = program()
    fn, kind, mk = queries(p)[qi]
    f = p.fn(fn)
    for v in (variants(kind) if kind else ['-']):
        w = rich(kind, v) if kind else World()
        w.raw('out', 4096)
        args = mk('o')[:len(f.args)]
        pre = w.st.fork()
        for st, ret in w.run(fn, *args):
            ch = changes(w, pre, st, ('out',))
            ev = [e for e in st.events() if e[0] in ('alloc', 'free', 'fread', 'fwrite', 'fseek', 'cb')]
            at = st.simp(args[1]) if len(args) > 1 and args[1][0] == 's' and args[1][2] == 'attr' else None
            a = show(at) if at is not None else ''
            if at is not None and at[0] == 'c': a = next((n for n, x in p.enums.items() if x == at[2] and x > 1000), a)
            rep.ob('pure-query', not ch and not ev, '%s of %s (%s) %s' % (fn, kind, v, a), where(p, fn),
                   'changes %s' % '; '.join(fx(c) for c in ch[:4]) if ch else 'has side effect %s' % (ev[:1],),
                   key='pure-query/%s/%s' % (fn, a))
        rep.funcs |= w.I.visited_fn
    rep.count('query functions')
    return rep

def check(rep):
    p = program()
    for r in presults(job, range(len(queries(p)))): rep.merge(r)
    rep.need('pure-query', 400)
    return rep.finish('other', 'Every query of the API (direct getters, class table getters, generic entry points on every object kind, lookups) is analysed on objects in arbitrary states (attached or not, playing data or not, all scalars unconstrained) with an arbitrary attribute; on every path the whole reachable memory except the output location is compared before and after, and allocation, release, I/O and callback effects are excluded.', p)
