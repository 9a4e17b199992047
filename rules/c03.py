"""C03: disposing of an object leaves nothing that refers to it."""
from play import *
import cbs

ATT = {'unit': ('BKUnitAttach', lambda x, c: (x, c)), 'track': ('BKTrackAttach', lambda x, c: (x, c)), 'clock': ('BKClockAttach', lambda x, c: (x, c, None)),
       'div': ('BKContextAttachDivider', None)}

class Town:
    """a population of objects together with the lists they are in"""
    def __init__(s, w): s.w, s.kind, s.lists, s.plays = w, {}, {}, {}
    def fork(s):
        t = Town(s.w.fork()); t.kind = dict(s.kind); t.lists = {k: list(v) for k, v in s.lists.items()}; t.plays = dict(s.plays); return t
    def without(s, x):
        """(lists, members that lost their container) once x is gone"""
        lists, free = {}, []
        for (k, c), ms in s.lists.items():
            if c == x: free += [(k, m) for m in ms if m[0] != x]
            else: lists[k, c] = [m for m in ms if m[0] != x]
        return lists, free

def town(order, tier, hooks):
    """contexts c and e, with members of every kind in the given order"""
    w = World(hooks=hooks); w.I.NAMEOPS = True
    w.I.MAXRET = 2 if tier == 'quick' else 8; w.I.MAXSTATES = 2 if tier == 'quick' else 8
    t = Town(w); K = t.kind
    for r in ('c', 'e'):
        w.ctx(r, 2); K[r] = 'ctx'
        w.generalise(r, keep=('numChannels', 'masterClock.callback', 'masterClock.object', 'masterClock.period'), inv=inv); w.set(r, 'masterClock.period', w.I.nsym(r + '.period', 64, 1, 1 << 62))
    for r in ('a', 'b'): setdata(w, r, 'owned' if r == 'a' else 'borrowed'); w.generalise(r, keep=('numFrames', 'numChannels', 'object'), inv=inv); K[r] = 'data'
    w.raw('vals', 64)
    for r in ('i', 'j'):
        w.instr(r); K[r] = 'instr'
        w.call('BKInstrumentSetSequence', r, 0, 'vals', 4, 1, 2)
    pl = [('u0', 'unit', 'a', 'sample', 'c'), ('t0', 'track', 'a', 'custom', 'c'), ('u1', 'unit', 'b', 'range', 'c'), ('t1', 'track', 'a', 'sustain', 'c'),
          ('u2', 'unit', 'a', 'custom', 'e'), ('t2', 'track', 'b', 'sample', 'e'), ('u3', 'unit', 'a', 'custom', None), ('t3', 'track', 'a', 'sample', None)]
    if order: pl = pl[::-1]
    for r, k, d, sh, c in pl: player(w, k, r, d, sh, c); K[r] = k; t.plays[r] = d
    w.I.KEEP = ()
    dv = w.off('BKTrack', 'divider'); mc = w.off('BKContext', 'masterClock'); so = w.off('BKTrack', 'instrState')
    for r in ('k0', 'k1', 'k2'): w.clock(r); K[r] = 'clock'
    for n in range(7): w.div('d%d' % n); K['d%d' % n] = 'div'
    for r in [x for x in K if K[x] in ('clock', 'div')]: w.generalise(r, keep=('callback', 'object'), inv=inv)
    S = t.lists
    S['clock', 'c'] = [('k0', 0), ('c', mc), ('k1', 0)] if order else [('c', mc), ('k0', 0), ('k1', 0)]
    S['clock', 'e'] = [('e', mc)] if order != 2 else []
    S['beat', 'c'] = [('d0', 0), ('d1', 0)]; S['beat', 'e'] = [('d2', 0)]
    S['cdiv', 'k0'] = [('d3', 0), ('d4', 0)]; S['cdiv', 'k2'] = [('d5', 0)]; S['cdiv', 'k1'] = []
    for c in ('c', 'e'):
        S['unit', c] = [(p[0], 0) for p in pl if p[4] == c]
        S['effect', c] = [(p[0], dv) for p in pl if p[4] == c and p[1] == 'track']
    S['effect', 'c'].insert(1, ('d6', 0))
    S['instr', 'i'] = [('t0', so), ('t1', so), ('t3', so)][::-1 if order else 1]; S['instr', 'j'] = [('t2', so)]
    for (k, c), ms in S.items():
        L(w, k, c).build(ms)
        if k == 'instr':
            for m in ms:
                w.set(m[0], 'instrState.states[0].sequence', w.get(c, 'sequences[0]')); w.set(m[0], 'instrState.states[0].phase', w.enum('BK_SEQUENCE_PHASE_ATTACK'))
                w.set(m[0], 'instrState.phase', w.enum('BK_SEQUENCE_PHASE_ATTACK')); w.set(m[0], 'instrState.numActiveSequences', 1)
                anytrack(w, m[0], any(p[0] == m[0] and p[4] for p in pl), c)
    for d in ('a', 'b'):
        S['data', d] = L(w, 'data', d).walk(w.st)
    for (k, c), ms in S.items():
        m = L(w, k, c).check(w.st, ms)
        if m: raise AnalysisBroken('constructed population is not in order: %s' % m)
    if order == 2:
        # objects allocated by the library
        b = w.enum('BKObjectFlagAllocated')
        for r, k in K.items():
            o = w.st.w(r); o.kind = 'heap'
            f = {'track': 'unit.object.flags'}.get(k, 'object.flags')
            x = list(bits_of(w.get(r, f))); x[b.bit_length() - 1] = 1; w.set(r, f, mkbits(32, tuple(x)))
    w.raw('&ghost', 8, ('zero',)); w.st.w('&ghost').cells.update({0: (4, C(0, 32)), 4: (4, C(0, 32))})
    return t

def links(w, st, t):
    """cells linking an object to its neighbours in a list it is not in: of no meaning"""
    out = set()
    for k, (ct, h, tl, mt, p, n, o) in LISTS.items():
        for x, kd in t.kind.items():
            for mm in member(w, k, x, kd):
                if x not in st.mem: continue
                q = st.simp(w.I.rd(st, x, C(mm + w.off(mt, o), 64), 8))
                if st.const(q) == 0:
                    if p: out.add((x, mm + w.off(mt, p)))
                    out.add((x, mm + w.off(mt, n)))
    return out

def member(w, k, x, kd):
    """offsets of the list nodes of list kind k inside an object"""
    if k == 'unit': return [0] if kd in ('unit', 'track') else []
    if k == 'clock': return [0] if kd == 'clock' else [w.off('BKContext', 'masterClock')] if kd == 'ctx' else []
    if k in ('effect', 'beat', 'cdiv'): return [0] if kd == 'div' else [w.off('BKTrack', 'divider')] if kd == 'track' else []
    if k == 'data': return [w.off('BKTrack', 'unit.sample.dataState')] if kd == 'track' else [w.off('BKUnit', 'sample.dataState')] if kd == 'unit' else []
    return [w.off('BKTrack', 'instrState')] if kd == 'track' else []

def frames_cell(w, st, t):
    """where the frames of a sample are kept by players which do not play: of no meaning"""
    out = set(); CU, SA = C(w.enum('BK_CUSTOM'), 32), C(w.enum('BK_SAMPLE'), 32)
    for x, kd in t.kind.items():
        if kd not in ('unit', 'track') or x not in st.mem: continue
        pre = 'unit.' if kd == 'track' else ''
        wf = st.simp(w.I.getf(st, x, pre + 'waveform'))
        if st.equal(wf, CU) is False and st.equal(wf, SA) is False: out.add((x, w.off(w.types[x], pre + 'sample.frames')))
    return out

def judge(rep, t, st, gone, lists, free, inst, at):
    w = t.w
    bad = t.w.I.h.bad
    rep.ob('memory', not bad, inst, at, '; '.join('%s (%s)' % (m, k[1]) for k, m in list(bad.items())[:2]))
    for (k, c), ms in lists.items():
        m = L(w, k, c).check(st, ms)
        rep.ob('lists', m is None, inst, at, m or '', key='%s/%s' % (at, (m or '')[:50]))
    for k, m_ in free:
        m = L(w, k, m_[0]).unowned(st, m_)
        rep.ob('released', m is None, '%s, %s of %s' % (inst, k, m_[0]), at, m or '', key='%s/%s/%s' % (at, k, m_[0]))
    dead = links(w, st, t) | frames_cell(w, st, t)
    for x in gone:
        rep.ob('memory', st.mem[x].kind != 'heap' or st.mem[x].freed, '%s: %s itself' % (inst, x), at, 'its memory is never released')
        r = [c for c in reaches(st, x) if c[0] not in gone and c not in dead]
        rep.ob('forgotten', not r, '%s: %s' % (inst, x), at, '; '.join('%s.%s still points to %s' % (a, w.p.leaf(st.mem[a].type, o)[0] if st.mem[a].type is not None else '+%d' % o, x) for a, o in r[:3]), key='%s/%s' % (at, r[:1]))
    r = [c for c in dangling(st, gone) if c[:2] not in dead]
    rep.ob('forgotten', not r, inst + ': memory it owned', at, '; '.join('%s.%s still points to released memory (%s)' % (a, w.p.leaf(st.mem[a].type, o)[0] if st.mem[a].type is not None else '+%d' % o, nmr(b)) for a, o, b in r[:3]), key='%s/mem/%s' % (at, r[:1]))
    for x, d in t.plays.items():
        if x in gone: continue
        m = follows(w, st, t.kind[x], x)
        rep.ob('plays', m is None, '%s: %s' % (inst, x), at, '%s %s' % (x, m), key='%s/plays/%s' % (at, t.kind[x]))

def dispose(t, x):
    """[(town, state)] after disposing of x"""
    w = t.w; outs = w.run('BKDispose', x); DISPOSED.add(x)
    return outs

def first(rep, a):
    order, x = a; hooks = Mem(); t = town(order, rep.tier, hooks)
    names_ = list(t.kind); at = where(t.w.p, 'BKDispose')
    DISPOSED.clear()
    outs = dispose(t, x); inst = 'dispose of %s %s (population %d)' % (t.kind[x], x, order); at = rule_at(t, x)
    rep.ob('returns', bool(outs), inst, at, 'never returns')
    rest = [y for y in names_ if y != x]
    for st, _ in outs:
        DISPOSED.clear(); DISPOSED.add(x)
        lists, free = t.without(x)
        judge(rep, t, st, {x}, lists, free, inst, at)
        rep.count('disposals')
        # then every other one
        for y in rest:
            q = t.fork(); q.lists = lists; q.w.st = st.fork()
            DISPOSED.clear(); DISPOSED.add(x)
            outs2 = dispose(q, y); i2 = '%s, then of %s %s' % (inst, q.kind[y], y); at2 = rule_at(t, y)
            rep.ob('returns', bool(outs2), i2, at2, 'never returns')
            l2, f2 = q.without(y)
            for s2, _ in outs2: judge(rep, q, s2, {x, y}, l2, f2, i2, at2); rep.count('disposals')
        # everything else, in either direction, until nothing is left
        for seq in (rest, rest[::-1], rest[len(rest) // 2:] + rest[:len(rest) // 2]):
            q = t.fork(); q.lists = lists; q.w.st = st.fork(); gone = {x}; DISPOSED.clear(); DISPOSED.add(x)
            i2 = inst + ', then of all others: ' + ' '.join(seq)
            for y in seq:
                l2, f2 = q.without(y)
                o2 = dispose(q, y); gone.add(y)
                rep.ob('returns', bool(o2), '%s (%s)' % (i2, y), rule_at(t, y), 'never returns')
                if not o2: break
                q.w.st = o2[0][0]; q.lists = l2
                judge(rep, q, q.w.st, gone, l2, f2, '%s (%s)' % (i2, y), rule_at(t, y)); rep.count('disposals')
            else:
                l = lost(q.w.st, gone)
                rep.ob('nothing-left', not l, i2, at, 'memory is left: %s' % ', '.join(nmr(r) for r in l[:3]))
        # survivors can be attached again
        ctx = [c for c in ('e', 'c') if c != x][0]
        for k, m in free:
            y = m[0]
            if k not in ('unit', 'clock', 'beat', 'cdiv', 'effect') or t.kind[y] not in ATT: continue
            q = t.fork(); q.lists = {k_: list(v) for k_, v in lists.items()}; q.w.st = st.fork(); DISPOSED.clear(); DISPOSED.add(x)
            fn, mk = ATT[t.kind[y]]
            if t.kind[y] == 'div': args = (ctx, y, q.w.enum('BK_CLOCK_TYPE_BEAT')); key = ('beat', ctx)
            else: args = mk(y, ctx); key = ('clock' if t.kind[y] == 'clock' else 'unit', ctx)
            i2 = '%s, then %s of %s to %s' % (inst, fn, y, ctx); a2 = where(q.w.p, fn)
            for s2, r in q.w.run(fn, *args):
                rep.ob('usable', ok(s2, r) is True, i2, a2, 'attaching again returns %s' % retname(q.w, s2, r), key='%s/%s' % (fn, t.kind[y]))
                if key in lists:
                    mm = L(q.w, *key).check(s2, lists[key] + [(y, 0)]) if not (t.kind[y] == 'track' and k == 'effect') else None
                    rep.ob('usable', mm is None, i2, a2, mm or '', key='%s/list' % fn)
    rep.funcs |= t.w.I.visited_fn; DISPOSED.clear()
    return rep

def rule_at(t, x):
    fn = slot(t.w.p, t.kind[x], 'dispose')
    return where(t.w.p, fn if fn else 'BKDispose')

def part(a):
    r = Report('C03', a[0]); first(r, a[1]); return r

KINDS = ['c', 'e', 'a', 'b', 'i', 'j', 'u0', 'u1', 'u2', 'u3', 't0', 't1', 't2', 't3', 'k0', 'k1', 'k2'] + ['d%d' % n for n in range(7)]
EXPL = ('Populations of two contexts with units, tracks, clocks, dividers (of the effect and beat groups and of clocks), two sample data objects played whole, in ranges and as '
        'waveform by attached and free players, and instruments used by several tracks, in different orders, and with all objects allocated by the library. Each object is disposed of first, then each other one second, and '
        'all others until nothing is left. After every disposal: it returned, every list holds exactly the remaining members in order, members of the disposed container are free, no '
        'pointer in any live object leads to it or to memory it owned (links of objects in no list and frames of silent players apart), players are silent or play live data, and '
        'freed members can be attached again. At the end no memory is left. Other settings of the objects are arbitrary.')
def check(rep):
    jobs = [(rep.tier, (o, x)) for o in (0, 1, 2) for x in KINDS]
    for r in presults(part, jobs): rep.merge(r)
    rep.need('forgotten', 1000); rep.need('lists', 1000); rep.need('released', 50); rep.need('usable', 20); rep.need('nothing-left', 40); rep.need('plays', 500)
    rep.assumptions += ['populations of the shapes listed; disposal from within callbacks belongs to C18']
    return rep.finish('other', EXPL, program())
