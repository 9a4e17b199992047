"""C05: players always follow the sample data they play."""
from play import *

def players(w, groups, data, chans=2):
    out = []
    w.ctx('c', chans)
    for j, (kind, shape, att) in enumerate(groups):
        out.append((kind, player(w, kind, '%s%d' % (kind[0], j), data, shape, 'c' if att else None)))
    return out

def heap(groups, own, nc, tier, hooks=None, data='o'):
    w = World(hooks=hooks or Mem(), fail_alloc=True, io_fail=True); chans = max(2, nc)
    w.I.MAXRET = 8 if tier == 'quick' else 24; w.I.MAXSTATES = 6 if tier == 'quick' else 16
    w.I.NAMEOPS = True
    w.raw('&ghost', 8, ('zero',)); w.st.w('&ghost').cells.update({0: (4, C(0, 32)), 4: (4, C(0, 32))})
    setdata(w, data, own, numChannels=nc)
    w.generalise(data, keep=('numFrames', 'numChannels', 'object'), inv=inv)
    return w, players(w, groups, data, chans)

GROUPS = [[(k, s, a)] for k in ('unit', 'track') for s in SHAPES for a in (True, False)] \
    + [[('unit', 'sample', True), ('track', 'range', True), ('track', 'custom', False)], [('track', 'reversed', True), ('unit', 'custom', True), ('unit', 'sustain', False)]]

def dataops(rep, a):
    """every operation on the data, whatever plays it"""
    k, own, nc = a; groups = GROUPS[k]; DISPOSED.clear()
    for i, op in enumerate(O.ops('data')):
        w, pl = heap(groups, own, nc, rep.tier)
        inst = '%s of data (%s, %s channels) played by %s' % (op.label, own, nc, ' and '.join('%s %s %s' % (x[0], 'attached' if x[2] else 'free', x[1]) for x in groups))
        for kind, rid in pl:
            m = follows(w, w.st, kind, rid)
            if m: raise AnalysisBroken('constructed player is not in a valid state: %s: %s' % (inst, m))
        pre, fn, outs = O.go(w, op); at = where(w.p, fn)
        DISPOSED.clear()
        if fn == 'BKDispose': DISPOSED.add('o')
        rep.ob('returns', bool(outs), inst, at, 'never returns')
        for st, r in outs:
            for kind, rid in pl:
                m = follows(w, st, kind, rid)
                rep.ob('follows', m is None, '%s, %s' % (inst, kind), at, 'after %s (returning %s) the %s %s' % (op.label, retname(w, st, r), kind, m), key='%s/%s/%s' % (op.label, kind, (m or '')[:40]))
        rep.funcs |= w.I.visited_fn; rep.count('outcomes', len(outs)); DISPOSED.clear()

def ranges(op):
    """first and last frame are given from the begin, from the end, or from before the begin"""
    k = ('begin', 'end', 'before begin')
    return [(a, b) for a in k for b in k] if op.label.endswith('_RANGE range') else [None]
def ranged(w, args, case):
    n = w.get('a', 'numFrames')
    for off, c in zip((0, 4), case):
        lo, hi = {'begin': (0, (1 << 31) - 1), 'end': (0, 1 << 24), 'before begin': (-(1 << 30), -1)}[c]
        x = w.I.nsym('frame%d' % off, 32, lo, hi)
        if c == 'end': w.st.add_diff(x, n, 'S', 0); w.st.add_diff(x, n, 'U', 0)
        w.st.w('rng').cells[off] = (4, x if c == 'begin' else sub(x, add(n, C(1, 32))))
    w.st.memo = {}
    return args

def playerops(rep, a):
    """every operation on the player"""
    kind, shape, att, part = a
    for i, op in enumerate(O.ops(kind)):
        if i % 4 != part: continue
        for nc in ((1, 2, 3) if rep.tier != 'quick' else (1, 2, 3) if shape in ('sample', 'range') and '_RANGE' in op.label else (1,)):
          for case in ranges(op):
            w, pl = heap([(kind, shape, att)], 'borrowed', nc, rep.tier, data='a')
            rid = pl[0][1]
            # ticks change many values at once
            w.I.MAXSTATES = w.I.MAXRET = (4 if rep.tier == 'quick' else 12) if op.label == 'tick' else 200
            # the operations are written for an object called 'o'
            w = rename(w, rid, 'o')
            inst = '%s while playing (%s %s, %d channels)' % (op.label, 'attached' if att else 'free', shape, nc)
            DISPOSED.clear()
            this = op
            if case:
                inst += ', from %s to %s' % case
                this = O.Op(op.kind, op.label, op.fn, lambda w, case=case: ranged(w, op.prep(w), case))
            pre, fn, outs = O.go(w, this); at = where(w.p, fn)
            rep.ob('returns', bool(outs), inst, at, 'never returns')
            if fn == 'BKDispose':
                for st, r in outs:
                    l = L(w, 'data', 'a').walk(st)
                    rep.ob('forgotten', l == [], inst, at, 'the data still tells [%s] about changes' % (l if isinstance(l, str) else names(l)))
                continue
            for st, r in outs:
                m = follows(w, st, kind, 'o')
                rep.ob('follows', m is None, inst, at, 'after %s (returning %s) the %s %s' % (op.label, retname(w, st, r), kind, m), key='%s/%s/%s' % (op.label, kind, (m or '')[:40]))
                c = context(w, st, kind)
                rep.ob('fits', c is None, inst, at, 'after %s the %s %s' % (op.label, kind, c), key='%s/%s/fits' % (op.label, kind))
            rep.funcs |= w.I.visited_fn; rep.count('outcomes', len(outs))

def context(w, st, kind):
    """a sample played in a context has one channel or as many as the context"""
    pre = 'unit.' if kind == 'track' else ''
    G = lambda k: st.simp(w.I.getf(st, 'o', pre + k))
    if st.equal(G('waveform'), C(w.enum('BK_SAMPLE'), 32)) is False: return None
    c = G('ctx')
    if c[0] != 'ptr': return None
    n, want = G('sample.numChannels'), st.simp(w.I.getf(st, c[2], 'numChannels'))
    if st.equal(n, want) is True or st.equal(n, C(1, 32)) is True: return None
    for x in (('cmp', 1, 'ne', n, C(1, 32)),):
        q = st.fork()
        try: q.assume(x)
        except Infeasible: return None
        if q.equal(n, want) is True: return None
    return 'plays %s channels in a context of %s' % (show(n), show(want))

def rename(w, old, new):
    """the region `old` under another name"""
    st = w.st; o = st.mem[old]
    def f(t):
        if not isinstance(t, tuple): return t
        if t[0] == 'ptr' and t[2] == old: return ('ptr', t[1], new) + tuple(f(x) for x in t[3:])
        return t
    for r in list(st.mem):
        q = st.mem[r]
        if any(e[1][0] == 'ptr' and e[1][2] == old for e in q.cells.values()):
            q = st.w(r)
            for a, e in list(q.cells.items()): q.cells[a] = (e[0], f(e[1]))
    st.mem[new] = st.mem.pop(old); w.types[new] = w.types.pop(old); st.memo = {}
    w.I.KEEP = tuple((new if r == old else r, o) for r, o in w.I.KEEP)
    return w

def part(a):
    r = Report('C05', a[0]); {'data': dataops, 'player': playerops}[a[1]](r, a[2]); return r

EXPL = ('Every operation on sample data (replacing, converting, normalising, loading, copying, every attribute, disposing) is analysed while it is played by units and tracks in '
        'every state of playing: as custom waveform, whole, any sub-range, backwards, with an empty range, with a sustain part, attached or not, alone and together; positions '
        'and lengths are arbitrary. On every path, also with failed allocations and files, each player afterwards either is silent or uses the frames the data has now: same block, '
        'same channels, range within the number of frames, position within the range, and it is registered with the data. Every operation on the players themselves is analysed '
        'with the same condition.')
def check(rep):
    jobs = [(rep.tier, 'data', (k, own, nc)) for k in range(len(GROUPS)) for own in ('owned', 'borrowed') for nc in (1, 2) if nc == 1 or not any(g[1] == 'custom' for g in GROUPS[k]) and (rep.tier != 'quick' or own == 'owned' and (nc == 1 or GROUPS[k][0][1] in ('range', 'reversed') and GROUPS[k][0][2]))]
    jobs += [(rep.tier, 'player', (k, s, a, q)) for k in ('unit', 'track') for s in SHAPES for a in (True, False) for q in range(4)]
    jobs.sort(key=lambda j: (j[1] == 'data', len(GROUPS[j[2][0]]) if j[1] == 'data' else 0), reverse=True)
    for r in presults(part, jobs): rep.merge(r)
    rep.need('follows', 1000); rep.need('fits', 200); rep.need('returns', 500)
    rep.assumptions += ['up to three players at a time; sample data of one, two or three channels']
    return rep.finish('other', EXPL, program())
