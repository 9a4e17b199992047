"""C11: no division by zero."""
from mem import *
import c06, files as F, scen

class Div(Hooks):
    """every divisor, on every path, in every state"""
    def __init__(s): s.seen = {}; s.bad = {}
    def div(s, I, st, ins, a, b):
        k = (I.f.name if hasattr(I, 'f') else '', I.loc(ins))
        s.seen[k] = s.seen.get(k, 0) + 1
        if not nonzero(st, b): s.bad.setdefault(k, 'divides %s by %s' % (show(a), show(b)))

def nonzero(st, b):
    b = st.simp(b)
    c = st.const(b)
    if c is not None: return c != 0
    lo, hi = st.rng(b)
    if lo > 0 or hi < 0 or st.urng(b)[0] > 0: return True
    if st.equal(b, C(0, b[1])) is False: return True
    return any(x == 1 or (x != 0 and st.bitval(x) == 1) for x in bits_of(b)) if b[0] in ('bits', 's') else False

def sites(p):
    """divisions with a divisor the compiler does not know: {(file:line function): function}"""
    out = {}
    for n, f in p.funcs.items():
        if f.decl: continue
        for b in f.blocks.values():
            for i in b['ins']:
                if i['op'] in ('sdiv', 'udiv', 'srem', 'urem') and 'c' not in i['ops'][1]: out['%s:%s %s' % (f.file, i['line'], n)] = n
    return out

def verdict(rep, h, inst, at):
    for (f, loc), n in h.seen.items():
        rep.ob('nonzero', (f, loc) not in h.bad, '%s at %s' % (inst, loc), loc, '%s, which may be zero' % h.bad.get((f, loc), ''), key='nonzero/' + loc)
        rep.count('at ' + loc, n)
    rep.count('operations'); 

def job(a):
    what, x, tier = a; rep = Report('C11', tier); h = Div()
    if what == 'op':
        kind, v, i = x; op = getop(kind, i); w = world(kind, v, op, h, tier)
        pre, fn, outs = O.go(w, op); verdict(rep, h, '%s (%s) %s' % (kind, v, op.label), fn)
    elif what == 'file':
        label, prep = F.fops()[x]; w = F.base(h, io=True, alloc=True, tier=tier)
        _, fn, outs = F.start(w, prep); verdict(rep, h, label, fn)
    elif what == 'player':
        kind, cfg, fn = x; w = World(hooks=h); scen.context(w, 'c', 2)
        scen.player(w, kind, 'o', cfg); f = P('o')
        w.I.MAXRET = 6 if tier == 'quick' else 24; w.I.MAXSTATES = 4 if tier == 'quick' else 12
        if fn == 'tick': import c25; w.run(c25.slot_tick(w.p), None, 'o')
        else: w.run('BKSetAttr', 'o', w.enum(fn), w.I.nsym('value', 32))
        verdict(rep, h, '%s playing %s: %s' % (kind, cfg, fn), fn)
    elif what == 'query':
        fn, kind, mk = c06.queries(program())[x]; f = program().fn(fn)
        for v in (variants(kind) if kind else ['-']):
            w = rich(kind, v, hooks=h) if kind else World(hooks=h)
            w.raw('out', 4096); w.run(fn, *mk('o')[:len(f.args)])
        verdict(rep, h, fn, fn)
    else:
        # no operation got there: the function alone, with any arguments
        w = World(hooks=h); f = w.p.fn(x); args = []
        for k, q in enumerate(f.args):
            if q.get('t') is not None and q['w'] == 64 and w.p.is_ptr(q['t']): args.append(w.I.nsym('arg%d' % k, 64))
            else: args.append(w.I.nsym('arg%d' % k, q['w']))
        w.run(x, *args); verdict(rep, h, '%s alone' % x, x)
    rep.funcs |= w.I.visited_fn; rep.seen = {k[1] for k in h.seen}
    return rep

EXPL = ('Abstract interpretation: every integer division and remainder met on any path of every public operation, query, file operation, clock tick and '
        'note change, from any valid state with any arguments, has a divisor that cannot be zero (nonzero). A division no operation reached is analysed '
        'in its function alone with any arguments, and each division whose divisor is not a constant has to be reached (covered).')
def check(rep):
    p = program(); S = sites(p)
    jobs = [('op', j, rep.tier) for j in allops(rep.tier)] + [('file', i, rep.tier) for i in range(len(F.fops()))]
    jobs += [('query', i, rep.tier) for i in range(len(c06.queries(p)))]
    jobs += [('player', (k, cfg, fn), rep.tier) for k in ('unit', 'track') for cfg in scen.GEN for fn in ('tick', 'BK_NOTE', 'BK_PHASE') if k == 'track' or fn == 'BK_PHASE']
    seen = set()
    for r in presults(job, jobs): rep.merge(r); seen |= r.seen
    rest = sorted({f for k, f in S.items() if k not in seen})
    for r in presults(job, [('alone', f, rep.tier) for f in rest]): rep.merge(r); seen |= r.seen
    for k, f in sorted(S.items()): rep.ob('covered', k in seen, k, k, 'no analysed operation reaches this division')
    rep.need('nonzero', 100); rep.need('covered', 10)
    return rep.finish('other', EXPL, p)
