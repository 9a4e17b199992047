"""Loads the exported program (see export.cpp) and offers types, CFG, loops."""
import json, os, subprocess, sys, glob, hashlib, tempfile, shutil

REPO = os.environ.get('BK_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class AnalysisBroken(Exception):
    pass

def exporter():
    exe = os.path.join(VERIF, 'build', 'export')
    src = os.path.join(VERIF, 'engine', 'export.cpp')
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        r = subprocess.run(['bash', os.path.join(VERIF, 'setup.sh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or not os.path.exists(exe):
            raise AnalysisBroken('exporter does not build:\n' + r.stdout)
    return exe

CFLAGS = ['-std=gnu11', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names', '-w']

def export(extra=(), repo=None, only=False, flags=()):
    """compile every library source of the current tree (plus `extra` stub
    sources of ours, for header-only functions) and export it."""
    repo = repo or REPO
    srcs = sorted(glob.glob(os.path.join(repo, 'src', '*.c')))
    if not srcs:
        raise AnalysisBroken('no sources under %s/src' % repo)
    exe = exporter()
    d = tempfile.mkdtemp(prefix='bkexp')
    try:
        procs, outs = [], []
        for s in ([] if only else list(srcs)) + list(extra):
            o = os.path.join(d, os.path.basename(s) + '.bc')
            outs.append(o)
            procs.append((s, subprocess.Popen(['clang'] + CFLAGS + list(flags) + ['-I', os.path.join(repo, 'src'), '-emit-llvm', '-c', s, '-o', o],
                                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for s, p in procs:
            out, _ = p.communicate()
            if p.returncode:
                raise AnalysisBroken('cannot compile %s:\n%s' % (s, out[-2000:]))
        r = subprocess.run([exe] + outs, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise AnalysisBroken('export failed: ' + r.stderr[-2000:])
        m = json.loads(r.stdout)
        m['units'] = [os.path.basename(s) for s in srcs]
        return m
    finally:
        shutil.rmtree(d, ignore_errors=True)

class Fn:
    __slots__ = ('name', 'd', 'args', 'blocks', 'decl', 'file', 'line', 'succ', 'pred', 'rpo', 'loops', 'looptree', 'livein', 'vars', 'rw', 'rk', 'internal', 'sig', 'loopof', 'consts')
    def loc(self):
        return '%s:%d %s' % (self.file, self.line, self.name)

class Loop:
    __slots__ = ('header', 'body', 'children', 'parent', 'order', 'id')

class Program:
    def __init__(self, m):
        self.m = m
        self.types = m['types']
        self.globals = {g['name']: g for g in m['globals']}
        self.funcs = {}
        for fd in m['funcs']:
            f = Fn()
            f.name, f.d, f.decl = fd['name'], fd, fd['decl']
            f.file, f.line = fd.get('file', '?'), fd.get('line', 0)
            f.rw, f.rk, f.internal, f.sig = fd['rw'], fd['rk'], fd['internal'], fd.get('sig')
            f.args = fd.get('args', [])
            f.blocks = {b['id']: b for b in fd.get('blocks', [])}
            f.vars = fd.get('vars', {})
            f.rpo = None
            self.funcs[f.name] = f
        self.units = m.get('units', [])
        self.structs = {}
        for i, t in enumerate(self.types):
            if t.get('kind') in ('struct', 'union') and t['name'] and not t.get('fwd'):
                self.structs.setdefault(t['name'], i)
            # anonymous structs reachable by typedef name
        for i, t in enumerate(self.types):
            if t.get('kind') == 'alias' and t.get('tag') == 'DW_TAG_typedef' and t['name'] not in self.structs:
                b = self.strip(i)
                if b is not None and self.types[b].get('kind') in ('struct', 'union') and not self.types[b].get('fwd'):
                    self.structs[t['name']] = b
        self.enums = {}
        for t in self.types:
            if t.get('kind') == 'enum':
                for n, v in t['vals']:
                    self.enums[n] = int(v)
        self._fields = {}

    # ---- types
    def strip(self, ti):
        seen = 0
        while ti is not None and ti >= 0 and self.types[ti].get('kind') in ('alias', 'member'):
            ti = self.types[ti]['base']; seen += 1
            if seen > 50: return None
        return ti if ti is not None and ti >= 0 else None
    def struct(self, name):
        if name not in self.structs:
            raise AnalysisBroken('type %s not found' % name)
        return self.structs[name]
    def isa(self, ti, name):
        """is type ti the struct `name` (each unit has its own copy of it)"""
        ti = self.strip(ti)
        return ti is not None and (ti == self.strip(self.struct(name)) or self.types[ti].get('name') == name)
    def sizeof(self, ti):
        ti = self.strip(ti)
        return self.types[ti]['size'] if ti is not None else 0
    def resolve_fwd(self, ti):
        t = self.types[ti]
        if t.get('fwd') and t['name'] in self.structs:
            return self.structs[t['name']]
        return ti
    def pointee(self, ti):
        ti = self.strip(ti)
        if ti is None or self.types[ti]['kind'] != 'ptr': return None
        b = self.strip(self.types[ti]['base'])
        return self.resolve_fwd(b) if b is not None else None
    def is_ptr(self, ti):
        ti = self.strip(ti)
        return ti is not None and self.types[ti]['kind'] == 'ptr'
    def is_fnptr(self, ti):
        ti = self.strip(ti)
        if ti is None or self.types[ti]['kind'] != 'ptr': return False
        b = self.strip(self.types[ti]['base'])
        return b is not None and self.types[b]['kind'] == 'func'
    def leaf(self, ti, off):
        """(path, leaf type index, leaf offset, [array (off,stride,count)]) of byte `off` in type ti"""
        ti = self.strip(ti); path = ''; base = 0; arrs = []
        while ti is not None:
            t = self.types[ti]
            if t['kind'] in ('struct', 'union'):
                if t.get('fwd'):
                    ti = self.resolve_fwd(ti)
                    if self.types[ti].get('fwd'): return (path or '?', None, base, arrs)
                    t = self.types[ti]
                best = None
                for n, o, mt, sz in t['members']:
                    msz = self.sizeof(mt)
                    if o <= off - base < o + max(msz, sz, 1):
                        best = (n, o, mt); break
                if best is None: return (path + '.?%d' % (off - base), None, off, arrs)
                n, o, mt = best
                path = path + ('.' if path else '') + n if n else path
                base += o; ti = self.strip(mt)
            elif t['kind'] == 'array':
                et = self.strip(t['base']); es = self.sizeof(et)
                dims = t['dims']; stride = es
                for dd in dims[1:]: stride *= max(dd, 0)
                for k, dd in enumerate(dims):
                    if stride <= 0: return (path + '[]', et, base, arrs)
                    idx = (off - base) // stride
                    arrs.append((base, stride, dd))
                    path += '[%d]' % idx
                    base += idx * stride
                    if k + 1 < len(dims): stride //= max(dims[k + 1], 1)
                ti = et
            else:
                return (path, ti, base, arrs)
        return (path, None, base, arrs)
    def offset(self, ti, path):
        """byte offset of a dotted field path, e.g. 'sample.dataState.data' or 'volume[2]'"""
        import re
        ti0 = ti; ti = self.strip(ti); off = 0
        for part in path.split('.'):
            mm = re.match(r'(\w+)((?:\[\d+\])*)$', part)
            name, idx = mm.group(1), re.findall(r'\[(\d+)\]', mm.group(2))
            t = self.types[ti]
            for n, o, mt, sz in t.get('members', []):
                if n == name:
                    off += o; ti = self.strip(mt); break
            else:
                raise AnalysisBroken('field %s not found in %s' % (path, self.types[self.strip(ti0)]['name']))
            if idx:
                t = self.types[ti]; et = self.strip(t['base']); es = self.sizeof(et)
                strides = []
                for k in range(len(t['dims'])):
                    s = es
                    for dd in t['dims'][k + 1:]: s *= dd
                    strides.append(s)
                for k, i in enumerate(idx): off += int(i) * strides[k]
                ti = et
        return off
    def fieldtype(self, ti, path):
        return self.leaf(ti, self.offset(ti, path))[1]
    def leaves(self, ti, off=0, path=''):
        """all scalar leaves (path, off, size, type)"""
        ti = self.strip(ti)
        if ti is None: return
        t = self.types[ti]
        if t['kind'] in ('struct', 'union'):
            ti = self.resolve_fwd(ti); t = self.types[ti]
            for n, o, mt, sz in t.get('members', []):
                yield from self.leaves(mt, off + o, (path + '.' if path and n else path) + n)
        elif t['kind'] == 'array':
            et = self.strip(t['base']); es = self.sizeof(et); n = 1
            for dd in t['dims']: n *= max(dd, 0)
            for i in range(n):
                yield from self.leaves(et, off + i * es, path + '[%d]' % i)
        else:
            yield (path, off, t['size'] or 8, ti)
    def enum(self, name):
        if name not in self.enums: raise AnalysisBroken('constant %s not found' % name)
        return self.enums[name]
    def fn(self, name):
        f = self.funcs.get(name)
        if f is None or f.decl: raise AnalysisBroken('function %s not found' % name)
        self.prep(f)
        return f
    # ---- CFG
    def prep(self, f):
        if f.rpo is not None or f.decl: return
        f.succ, f.pred = {}, {b: [] for b in f.blocks}
        for b in f.blocks.values():
            t = b['ins'][-1]; s = []
            if t['op'] == 'br': s = list(t['succ'])
            elif t['op'] == 'switch': s = [c[1] for c in t['cases']] + [t['def']]
            f.succ[b['id']] = list(dict.fromkeys(s))
        entry = f.d['blocks'][0]['id']
        seen, order = set(), []
        stack = [(entry, iter(f.succ[entry]))]; seen.add(entry)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(f.succ[s]))); break
            else:
                order.append(n); stack.pop()
        f.rpo = order[::-1]
        idx = {b: i for i, b in enumerate(f.rpo)}
        for b in f.rpo:
            for s in f.succ[b]: f.pred[s].append(b)
        # dominators (sets; functions are small)
        dom = {b: set(f.rpo) for b in f.rpo}; dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in f.rpo[1:]:
                ps = [dom[p] for p in f.pred[b] if p in dom]
                n = set.intersection(*ps) | {b} if ps else {b}
                if n != dom[b]: dom[b] = n; ch = True
        loops = {}
        for b in f.rpo:
            for s in f.succ[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st.extend(f.pred[x])
                elif idx[s] <= idx[b]:
                    raise AnalysisBroken('irreducible control flow in %s' % f.name)
        L = []
        for h, body in loops.items():
            l = Loop(); l.header, l.body, l.children, l.parent, l.id = h, body, [], None, '%s.%s' % (f.name, h)
            L.append(l)
        L.sort(key=lambda l: len(l.body))
        for i, l in enumerate(L):
            for m in L[i + 1:]:
                if l.header in m.body and l is not m:
                    l.parent = m; m.children.append(l); break
        f.loops = L
        f.loopof = {}
        for l in L:
            for b in l.body: f.loopof.setdefault(b, l)
        # liveness of SSA values
        use, de, phiuse = {}, {}, {}
        def ops_of(i):
            for o in i.get('ops', ()):
                if 'v' in o: yield o['v']
            for o in i.get('var', ()):
                if 'v' in o[0]: yield o[0]['v']
            c = i.get('callee')
            if c and 'v' in c: yield c['v']
        for b in f.rpo:
            u, d = set(), set()
            for i in f.blocks[b]['ins']:
                if i['op'] == 'phi':
                    for o, p in i['inc']:
                        if 'v' in o: phiuse.setdefault(p, {}).setdefault(b, set()).add(o['v'])
                    d.add(i['id']); continue
                for v in ops_of(i):
                    if v not in d: u.add(v)
                d.add(i['id'])
            use[b], de[b] = u, d
        live = {b: set() for b in f.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.rpo):
                out = set()
                for s in f.succ[b]:
                    phis = {i['id'] for i in f.blocks[s]['ins'] if i['op'] == 'phi'}
                    out |= (live[s] - phis) | phiuse.get(b, {}).get(s, set())
                n = use[b] | (out - de[b])
                if n != live[b]: live[b] = n; ch = True
        # env needed on entry to b incl. its own phis
        f.livein = {}
        for b in f.rpo:
            phis = {i['id'] for i in f.blocks[b]['ins'] if i['op'] == 'phi'}
            f.livein[b] = live[b] | phis
        cs = set()
        for b in f.blocks.values():
            for i in b['ins']:
                for o in i.get('ops', ()):
                    if 'c' in o and isinstance(o['c'], int): cs.add((o['c'], o['w']))
        f.consts = cs

def load(extra=(), repo=None, only=False, flags=()):
    return Program(export(extra, repo, only, flags))
