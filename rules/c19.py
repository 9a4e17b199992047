"""C19: the library keeps no hidden mutable state."""
from lists import *
from flow import Flow, USER
from report import Report
from c18 import pure

HANDLE = {'malloc', 'calloc', 'realloc', 'free', 'aligned_alloc', 'posix_memalign', 'fread', 'fwrite', 'fseek', 'fseeko', 'ftell', 'ftello', 'fflush', 'fclose', 'fopen', 'fileno', 'fcntl', 'ferror', 'feof', 'clearerr', 'rewind', 'fputc', 'fgetc', '__errno_location', 'fstat', 'lseek', 'read', 'write', 'strcpy', 'strncpy', 'strchr', 'memccpy'}
# argument positions external functions write through
WRITES = {'memcpy': [0], 'memmove': [0], 'memset': [0], 'fread': [0], 'free': [0], 'realloc': [0], 'strcpy': [0], 'strncpy': [0], 'read': [1]}
def extwrites(n, nargs):
    if n.startswith('llvm.mem'): return [0]
    if n in WRITES: return WRITES[n]
    if n in ('fwrite', 'memcmp', 'strlen', 'strcmp', 'strncmp', 'memchr', 'write') or n.startswith('llvm.'): return []
    return list(range(nargs))

def taint(F):
    """where pointers into static storage flow: values, fields; and the writes through them"""
    p = F.p
    val = {}           # (fn, id) -> origin global
    fld = {}           # field key -> origin
    ret = {}           # fn -> origin
    for k, es in F.gfields.items():
        if k[0] == 'global': continue
        for e in es:
            if not e.get('fn'): fld.setdefault(k, e['g'])
    def of(fn, op):
        if 'g' in op and not op.get('fn'): return op['g'] if op['g'] in p.globals and not p.globals[op['g']]['decl'] else None
        if 'v' in op: return val.get((fn, op['v']))
        return None
    callees = {n: {id(i): ts for i, ts in F.callees(n)} for n, f in p.funcs.items() if not f.decl}
    while True:
        ch = False
        def put(d, k, o):
            nonlocal ch
            if o is not None and k not in d: d[k] = o; ch = True
        for n, f in p.funcs.items():
            if f.decl: continue
            for b in f.blocks.values():
                for i in b['ins']:
                    o = i['op']
                    if o in ('getelementptr', 'bitcast', 'freeze'): put(val, (n, i['id']), of(n, i['ops'][0]))
                    elif o == 'select':
                        for x in i['ops'][1:]: put(val, (n, i['id']), of(n, x))
                    elif o == 'phi' and i.get('k') == 'p':
                        for x, _ in i['inc']: put(val, (n, i['id']), of(n, x))
                    elif o == 'load' and i.get('k') == 'p':
                        g = of(n, i['ops'][0])
                        if g is not None: put(val, (n, i['id']), g)
                        k = F.key_of(n, i['ops'][0])
                        if k is not None and k in fld: put(val, (n, i['id']), fld[k])
                    elif o == 'store':
                        g = of(n, i['ops'][0])
                        if g is not None:
                            k = F.key_of(n, i['ops'][1])
                            if k is not None: put(fld, k, g)
                    elif o == 'call':
                        for t in callees[n].get(id(i), ()):
                            if not isinstance(t, str) or p.funcs[t].decl: continue
                            for x, a in enumerate(p.funcs[t].args):
                                if x < len(i['ops']): put(val, (t, a.get('id', x)), of(n, i['ops'][x]))
                            if 'id' in i and i.get('k') == 'p': put(val, (n, i['id']), ret.get(t))
                    elif o == 'ret' and i['ops'] and i['ops'][0].get('k') == 'p' or o == 'ret' and i['ops'] and 'g' in i['ops'][0]:
                        put(ret, n, of(n, i['ops'][0]))
        if not ch: break
    return of, callees, val, fld

INITS = [('BKContext', 'BKContextInit', (2, 44100)), ('BKClock', 'BKClockInit', None), ('BKDivider', 'BKDividerInit', (3, None)), ('BKUnit', 'BKUnitInit', None), ('BKTrack', 'BKTrackInit', None),
         ('BKData', 'BKDataInit', ()), ('BKInstrument', 'BKInstrumentInit', ())]
ALLOCS = [('BKContext', 'BKContextAlloc', (2, 44100)), ('BKClock', 'BKClockAlloc', None), ('BKDivider', 'BKDividerAlloc', (3, None)), ('BKTrack', 'BKTrackAlloc', None), ('BKData', 'BKDataAlloc', ()), ('BKInstrument', 'BKInstrumentAlloc', ()), ]

def undefs(w, st, rid, ti, base=0):
    out = []
    for path, off, sz, lt in w.p.leaves(ti):
        if sz not in (1, 2, 4, 8): continue
        v = w.I.rd(st, rid, C(base + off, 64), sz)
        if v[0] != 'ptr' and any(str(x[2]).startswith('undef') for x in syms(v)): out.append(path)
    return out

def inits(rep):
    p = program()
    def run(cls, fn, args, alloc):
        if fn not in p.funcs or p.funcs[fn].decl: return
        for wf in ('BK_SQUARE', 'BK_NOISE', 'BK_SAMPLE', 'BK_CUSTOM') if args is None and cls in ('BKUnit', 'BKTrack') else (None,):
            w = World()
            if alloc: w.raw('out', 8, ('undef',))
            else: w.new('o', cls)
            a = args
            if a is None: a = (w.enum(wf),) if wf else (C(1 << 20, 64), None)
            if cls == 'BKClock': a = (C(1 << 20, 64), None)
            outs = w.run(fn, 'out' if alloc else 'o', *a)
            rep.ob('init-returns', bool(outs), fn, p.fn(fn).loc(), 'initialisation does not return')
            for st, ret in outs:
                if ok(st, ret) is False: continue
                rid = 'o'
                if alloc:
                    q = w.I.rd(st, 'out', C(0, 64), 8)
                    if q[0] != 'ptr': rep.ob('init-defined', False, fn, p.fn(fn).loc(), 'success without an object'); continue
                    rid = q[2]
                bad = undefs(w, st, rid, p.struct(cls))
                rep.ob('init-defined', not bad, '%s%s' % (fn, ' ' + wf if wf else ''), p.fn(fn).loc(), 'leaves %s undefined, so later results depend on what the memory held before' % ', '.join(bad[:6]))
                if cls == 'BKContext':
                    ch = w.I.rd(st, rid, C(w.off('BKContext', 'channels'), 64), 8)
                    for i in range(2):
                        bad = undefs(w, st, ch[2], p.struct('BKBuffer'), i * p.sizeof(p.struct('BKBuffer'))) if ch[0] == 'ptr' else ['channels']
                        rep.ob('init-defined', not bad, '%s channel %d' % (fn, i), p.fn(fn).loc(), 'leaves %s of the channel buffer undefined' % ', '.join(bad[:4]))
            rep.funcs |= w.I.visited_fn
    for c, f, a in INITS: run(c, f, a, False)
    for c, f, a in ALLOCS: run(c, f, a, True)

def check(rep):
    p = program(); F = Flow(p)
    of, callees, val, fld = taint(F)
    stub = lambda n: p.funcs[n].file == 'stubs.c'
    nst = 0
    bad = {}
    for n, f in p.funcs.items():
        if f.decl or stub(n): continue
        rep.funcs.add(n); first = None
        for b in f.blocks.values():
            for i in b['ins']:
                if i['op'] == 'store':
                    nst += 1; g = of(n, i['ops'][1])
                    if g is not None: bad.setdefault(g, (n, i)); first = first or (g, i, 'stores')
                elif i['op'] == 'call':
                    for t in callees[n].get(id(i), ()):
                        if not isinstance(t, str) or not p.funcs[t].decl: continue
                        for x in extwrites(t, len(i['ops'])):
                            if x < len(i['ops']):
                                g = of(n, i['ops'][x])
                                if g is not None: bad.setdefault(g, (n, i)); first = first or (g, i, 'passes it to %s, which writes it' % t)
                elif i['op'] in ('atomicrmw', 'cmpxchg'):
                    g = of(n, i['ops'][0])
                    if g is not None: first = first or (g, i, 'modifies')
        rep.ob('no-static-write', first is None, n, '%s:%s %s' % (f.file, first[1].get('line') if first else f.line, n), first and '%s: %s' % (first[0], first[2]))
    for gn, g in p.globals.items():
        if g['decl']:
            rep.ob('global-constant', gn in ('stdin', 'stdout', 'stderr', 'environ'), gn, gn, 'state of another library is used'); continue
        b = bad.get(gn)
        rep.ob('global-constant', b is None, gn, g.get('file') or '', b and 'static storage %s is written at line %s of %s' % (gn, b[1].get('line'), b[0]))
    for n, i in F.calls:
        if stub(n): continue
        for t in callees[n].get(id(i), ()):
            if isinstance(t, str) and p.funcs[t].decl and t != 'rand':
                rep.ob('external-stateless', pure(t) or t in HANDLE, '%s calls %s' % (n, t), '%s:%s %s' % (p.funcs[n].file, i.get('line'), n), '%s depends on state outside the objects of the caller' % t)
            elif isinstance(t, tuple) and t[0] == 'asm': rep.ob('external-stateless', False, '%s uses assembly' % n, p.funcs[n].loc(), 'inline assembly')
    # the C library generator only serves the dithering of bit reduction
    conv, _, _ = F.reach(['BKDataConvert']) if 'BKDataConvert' in p.funcs else ({}, 0, 0)
    for n, f in p.funcs.items():
        if f.decl or f.internal or stub(n) or n in conv: continue
        par, _, _ = F.reach([n])
        hit = 'rand' in par and not any(x == 'BKDataConvert' for x in F.path(par, 'rand').split(' <- '))
        rep.ob('rand-only-dithers', not hit, n, f.loc(), 'uses the C library generator outside bit reduction', path=F.path(par, 'rand') if hit else None)
    inits(rep)
    rep.stats.update({'stores examined': nst, 'globals': len(p.globals), 'values derived from globals': len(val), 'fields holding global addresses': len(fld)})
    rep.need('no-static-write', 150); rep.need('global-constant', 25); rep.need('init-defined', 15)
    return rep.finish('other', 'Field-based whole-program taint of every address of static storage: no store, block copy or external writer may reach it. External functions must be free of hidden state; the C library generator may only be reached through bit reduction. Every constructor is interpreted on memory of unknown content and must define every field.', p)
