"""Whole-program, field-based value flow over the compiled module: which
functions an indirect call can reach, and which memory derives from globals."""
import re
from ir import AnalysisBroken

USER = ('user',)          # a pointer handed in by the caller of the public interface

class Flow:
    def __init__(s, p):
        s.p = p
        s.defs = {}           # (fn, value id) -> ins or ('arg', i)
        s.sites = {}          # fn -> [(caller, ins)]
        s.fstores = {}        # field key -> [(fn, operand)]
        s.gfields = {}        # field key -> [global initialiser entries]
        s.stores, s.calls = [], []
        s.addr_taken = set()
        for n, f in p.funcs.items():
            if f.decl: continue
            for i, a in enumerate(f.args): s.defs[(n, a.get('id', i))] = ('arg', i)
            for b in f.blocks.values():
                for ins in b['ins']:
                    if 'id' in ins: s.defs[(n, ins['id'])] = ins
                    if ins['op'] == 'store': s.stores.append((n, ins))
                    if ins['op'] == 'call': s.calls.append((n, ins))
                    for o in ins.get('ops', ()):
                        if o.get('fn') and 'g' in o: s.addr_taken.add(o['g'])
                    if ins['op'] == 'phi':
                        for o, _ in ins['inc']:
                            if o.get('fn') and 'g' in o: s.addr_taken.add(o['g'])
        for gn, g in p.globals.items():
            ti = s.gtype(g)
            for off, sz, e in g.get('init') or []:
                if isinstance(e, dict) and 'g' in e:
                    if e.get('fn'): s.addr_taken.add(e['g'])
                    s.gfields.setdefault(s.key_at(ti, off) if ti is not None else ('global', gn), []).append(e)
                    s.gfields.setdefault(('global', gn), []).append(e)
        for n, ins in s.stores:
            k = s.key_of(n, ins['ops'][1])
            if k is not None: s.fstores.setdefault(k, []).append((n, ins['ops'][0]))
        for n, ins in s.calls:
            c = ins['callee']
            if c.get('fn') and 'g' in c: s.sites.setdefault(c['g'], []).append((n, ins))
    def gtype(s, g):
        m = re.match(r'%(struct\.)?([A-Za-z_0-9.]+)', g.get('ty') or '')
        if not m: return None
        return s.sti(m.group(2))
    def sti(s, name):
        try: return s.p.struct(name)
        except AnalysisBroken: return None
        except KeyError: return None
    def key_at(s, ti, off):
        """(innermost named struct, member path) holding byte `off` of type ti"""
        p = s.p; cur, o = p.strip(ti), off
        name, path = p.types[cur].get('name') or '?', []
        while cur is not None:
            t = p.types[cur]
            if t['kind'] in ('struct', 'union'):
                cur = p.resolve_fwd(cur); t = p.types[cur]
                if t.get('name') and not t['name'].startswith('anon'): name, path = t['name'], []
                for mn, mo, mt, sz in t.get('members', []):
                    if mo <= o < mo + max(p.sizeof(mt), sz, 1):
                        path.append(mn); cur, o = p.strip(mt), o - mo; break
                else: break
            elif t['kind'] == 'array':
                et = p.strip(t['base']); es = p.sizeof(et) or 1; cur, o = et, o % es
            else: break
        return (name, '.'.join(path))
    def key_of(s, fn, op):
        """field key of an address operand; None when it is not a field"""
        for _ in range(8):
            if 'g' in op and not op.get('fn'): return ('global', op['g'])
            if 'v' not in op: return None
            d = s.defs.get((fn, op['v']))
            if d is None or isinstance(d, tuple): return None
            if d['op'] == 'getelementptr':
                m = re.match(r'%(struct|union)\.([A-Za-z_0-9.]+)', d.get('sty') or '')
                if m:
                    ti = s.sti(m.group(2))
                    if ti is not None: return s.key_at(ti, d.get('off', 0) % max(1, s.p.sizeof(ti)))
                    return ('struct', m.group(2), d.get('off', 0))
                op = d['ops'][0]; continue
            if d['op'] == 'alloca': return ('local', fn, d['id'])
            if d['op'] in ('bitcast',): op = d['ops'][0]; continue
            return None
        return None
    # ---- functions a value can be
    def functions(s, fn, op, seen=None):
        """set of function names (or USER, or ('?', text)) the operand can hold"""
        seen = seen if seen is not None else set()
        k = (fn, op.get('v'), op.get('g'), op.get('c'))
        if k in seen: return set()
        seen.add(k)
        if op.get('fn') and 'g' in op: return {op['g']}
        if 'g' in op: return set()            # the address of data is not a function
        if 'v' not in op: return set()        # null or undef
        d = s.defs.get((fn, op['v']))
        if isinstance(d, tuple):
            f = s.p.funcs[fn]; out = set()
            for cn, ins in s.sites.get(fn, []): out |= s.functions(cn, ins['ops'][d[1]], seen)
            if not f.internal or not s.sites.get(fn): out.add(USER)
            return out
        if d is None: return {('?', 'unknown value')}
        o = d['op']
        if o == 'phi': return set().union(*[s.functions(fn, x, seen) for x, _ in d['inc']])
        if o == 'select': return s.functions(fn, d['ops'][1], seen) | s.functions(fn, d['ops'][2], seen)
        if o in ('bitcast', 'freeze'): return s.functions(fn, d['ops'][0], seen)
        if o == 'load':
            key = s.key_of(fn, d['ops'][0])
            if key is None: return {('?', 'loaded through an unknown pointer')}
            return s.field_functions(key, seen)
        if o == 'call':
            c = d['callee']
            if c.get('fn') and 'g' in c and not s.p.funcs[c['g']].decl: return s.returned(c['g'], seen)
            return {USER}
        if o in ('getelementptr', 'alloca'): return set()
        return {('?', o)}
    def returned(s, fn, seen):
        out = set()
        for b in s.p.funcs[fn].blocks.values():
            t = b['ins'][-1]
            if t['op'] == 'ret' and t['ops']: out |= s.functions(fn, t['ops'][0], seen)
        return out
    def field_functions(s, key, seen):
        if ('f', key) in seen: return set()
        seen.add(('f', key))
        out = set()
        for e in s.gfields.get(key, []):
            if e.get('fn'): out.add(e['g'])
        for fn, op in s.fstores.get(key, []): out |= s.functions(fn, op, seen)
        # records of this kind can be supplied by the caller
        if not out or key[0] in ('BKCallback',): out.add(USER)
        return out
    # ---- call graph
    def callees(s, fn):
        """[(ins, set of targets)] of every call in a function"""
        out = []
        for b in s.p.funcs[fn].blocks.values():
            for ins in b['ins']:
                if ins['op'] != 'call': continue
                c = ins['callee']
                if c.get('fn') and 'g' in c: out.append((ins, {c['g']})); continue
                if 'asm' in c: out.append((ins, {('asm', c['asm'])})); continue
                t = s.functions(fn, c, set())
                if any(isinstance(x, tuple) and x[0] == '?' for x in t):
                    # fall back to every address-taken function with as many parameters
                    t = {x for x in t if not (isinstance(x, tuple) and x[0] == '?')}
                    t |= {a for a in s.addr_taken if a in s.p.funcs and len(s.p.funcs[a].args) == len(ins['ops'])}
                out.append((ins, t))
        return out
    def reach(s, roots):
        """function -> (caller, line) for everything reachable"""
        par = {r: None for r in roots}; todo = list(roots); edges = 0; ind = []
        while todo:
            n = todo.pop()
            f = s.p.funcs[n]
            if f.decl: continue
            for ins, ts in s.callees(n):
                if not ins['callee'].get('fn'): ind.append((n, ins, ts))
                for t in ts:
                    if isinstance(t, tuple): continue
                    edges += 1
                    if t not in par: par[t] = (n, ins.get('line')); todo.append(t)
        return par, edges, ind
    def path(s, par, n):
        out = [n]
        while par.get(n): n = par[n][0]; out.append(n)
        return ' <- '.join(out)
