"""C18: generating audio never allocates, blocks or does I/O."""
from world import *
from flow import Flow, USER
from report import Report

ROOTS = ['BKContextGenerate', 'BKContextGenerateToTime', 'BKContextRun', 'BKContextEnd', 'BKContextRead', 'BKContextSize', 'BKUnitRun', 'BKUnitEnd', 'BKClockTick', 'BKDividerTick', 'BKBufferRead']
# externals without allocation, blocking or I/O
PURE = {'memcpy', 'memmove', 'memset', 'memcmp', 'memchr', 'abs', 'labs', 'llabs', 'div', 'ldiv', '__assert_fail',
        'pow', 'powf', 'sqrt', 'sqrtf', 'floor', 'floorf', 'ceil', 'ceilf', 'round', 'roundf', 'lround', 'lroundf', 'lrint', 'lrintf', 'rint', 'rintf', 'trunc', 'truncf',
        'fabs', 'fabsf', 'fmin', 'fminf', 'fmax', 'fmaxf', 'sin', 'sinf', 'cos', 'cosf', 'tan', 'tanf', 'exp', 'expf', 'exp2', 'exp2f', 'log', 'logf', 'log2', 'log2f', 'log10', 'log10f', 'ldexp', 'ldexpf', 'fmod', 'fmodf', 'strlen', 'strcmp', 'strncmp'}
def pure(n): return n in PURE or (n.startswith('llvm.') and not n.startswith('llvm.va'))

def check(rep):
    p = program(); F = Flow(p)
    roots = [r for r in ROOTS if r in p.funcs and not p.funcs[r].decl]
    for r in ROOTS[:6]:
        rep.ob('entry', r in roots, r, 'BKContext.c', 'generating entry point is missing')
    par, edges, ind = F.reach(roots)
    rep.stats.update({'entry points': len(roots), 'functions reached': len(par), 'call edges': edges, 'indirect call sites': len(ind)})
    for n, ins, ts in ind:
        names = sorted(t for t in ts if isinstance(t, str))
        bad = sorted(t[1] for t in ts if isinstance(t, tuple) and t[0] == 'asm')
        rep.ob('indirect-resolved', not bad and bool(ts), 'line %s of %s: %s' % (ins.get('line'), n, ', '.join(names) + (' or a callback of the caller' if USER in ts else '')), F.p.funcs[n].loc(), 'the indirect call has no known target (%s)' % bad)
    for n in sorted(par):
        f = p.funcs[n]
        if f.decl:
            who = par[n]
            rep.ob('external-pure', pure(n), 'call of %s in %s' % (n, who[0] if who else '?'), '%s:%s %s' % (p.funcs[who[0]].file, who[1], who[0]) if who else n,
                   '%s is called while audio is generated' % n, path=F.path(par, n))
        else:
            rep.funcs.add(n)
            calls = [t for _, ts in F.callees(n) for t in ts if isinstance(t, str) and p.funcs[t].decl]
            bad = sorted({t for t in calls if not pure(t)})
            rep.ob('function-clean', not bad, n, f.loc(), 'calls %s' % ', '.join(bad), path=F.path(par, n))
    rep.need('function-clean', 60); rep.need('indirect-resolved', 8)
    return rep.finish('other', 'Call graph of the whole library below the generating entry points; indirect calls are resolved by field-based value flow (which functions are stored in which field of which table or object). Every reached function may call only library functions, callbacks registered by the caller and externals without allocation, blocking or I/O.', p)
