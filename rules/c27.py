"""C27: sequences of an instrument step in order, repeat their sustain part while held, end on release."""
from mem import *
from bounds import inside, parts
import itertools

PH = ('MUTE', 'ATTACK', 'RELEASE')

class Watch(Mem):
    """accesses outside of the values, callbacks of the state"""
    def __init__(s): s.bad = {}
    def access(s, I, st, rid, off, size, write, ins):
        Mem.access(s, I, st, rid, off, size, write, ins)
        o = st.mem.get(rid)
        if o is None or not rid.startswith('heap') and rid != 'values': return
        n = o.size
        if n is None: return
        n = n if isinstance(n, tuple) else C(n, 64)
        if not inside(st, off, size, n): s.note('bounds', I, st, ins, '%s %s of a block of %s bytes' % ('writes' if write else 'reads', show(off), show(n)))
    def icall(s, I, st, target, args, ins):
        st.ev(('icall', show(target), tuple(show(a) for a in args))); return None

class Model:
    """what one sequence does; `val` is its value (exact term) or a bound"""
    def __init__(s, kind, vals, so, sl):
        s.kind, s.v, s.so, s.end = kind, vals, so, so + sl; s.n = len(vals)
        s.done, s.i, s.left, s.phase = True, s.n, 0, 'MUTE'; s.val = ('exact', C(0, 32)); s.at = C(0, 32)
    def copy(s):
        m = Model.__new__(Model); m.__dict__.update(s.__dict__); return m
    def set(s, phase):
        """True if the sequence has nothing to do in this phase"""
        s.phase = phase
        s.i = {'ATTACK': 0, 'RELEASE': s.end, 'MUTE': s.n}[phase]
        s.done = False; s.left = 0
        if s.kind == 'sequence':
            if s.i < s.n: s.val = ('exact', s.v[s.i]); return False
            s.done = True; return True
        # an envelope slides from the value it has
        s.at = s.now()
        if phase == 'MUTE': s.done = True; return True
        return s.enter()
    def now(s): return s.val[1]
    def enter(s):
        """begin the next phase with a duration; True when there is none"""
        while True:
            if s.phase == 'ATTACK' and s.i >= s.end: s.i = s.so
            if s.i >= s.n: s.done = True; return True
            k, v = s.v[s.i]
            if k: s.left = k; s.total = k; return False
            s.at = v; s.val = ('exact', v); s.i += 1
    def tick(s, level):
        if s.done: return False
        if s.kind == 'sequence':
            if level == 0: return False
            if s.phase == 'ATTACK' and s.i >= s.end: s.i = s.so
            if s.i >= s.n: s.done = True; return True
            s.val = ('exact', s.v[s.i]); s.i += 1; return False
        s.left -= 1; v = s.v[s.i][1]
        if s.left: s.val = ('between', s.at, v, s.total - s.left, s.total); return False
        s.val = ('exact', v); s.at = v; s.i += 1
        return s.enter()

def agrees(st, t, want):
    """None or a message: does the value t equal what the model says"""
    t = st.simp(t)
    if want[0] == 'exact':
        w_ = want[1]
        if st.equal(t, w_) is True: return None
        ks = sorted(set(syms(t)) | set(syms(w_)))
        for a in grid(ks, st):
            x, y = evalt(t, a), evalt(w_, a)
            if x is None or y is None: return 'is %s instead of %s' % (show(t), show(w_))
            if x != y: return 'is %d instead of %d for %s' % (tos(x, 32), tos(y, 32), {k[2]: v for k, v in a.items()})
        return None
    _, s, e, j, n = want
    ks = sorted(set(syms(t)) | set(syms(s)) | set(syms(e)))
    for a in grid(ks, st):
        x, p, q = evalt(t, a), evalt(s, a), evalt(e, a)
        if None in (x, p, q): return 'is %s' % show(t)
        x, p, q = tos(x, 32), tos(p, 32), tos(q, 32)
        ideal = p + (q - p) * j / n
        if not abs(x - ideal) <= 1.01 + n / 1024: return 'is %d after %d of %d ticks from %d to %d' % (x, j, n, p, q)
        if not min(p, q) - 1 <= x <= max(p, q): return 'is %d on the way from %d to %d' % (x, p, q)
    return None

def syms(t, seen=None):
    """symbols of a term"""
    out = []
    def go(t):
        if not isinstance(t, tuple) or not t: return
        if t[0] == 's' and len(t) == 3: out.append(t); return
        for x in t: go(x)
    go(t); return out

def grid(ks, st):
    vs = []
    for k in ks:
        lo, hi = st.rng(k)
        vs.append(sorted({lo, hi, max(lo, min(hi, 0)), max(lo, min(hi, 1)), lo + (hi - lo) * 3 // 4}))
    for k, c in enumerate(itertools.product(*vs)):
        if k > 400: break
        yield {y: v & 0xffffffff for y, v in zip(ks, c)}

def instrument(seqs, bound, hooks):
    """world with an instrument 'o' with these sequences (slot, kind, steps or length, so, sl) and a state 's' using it"""
    w = World(hooks=hooks); w.instr('o'); models = {}
    for slot, kind, shape, so, sl in seqs:
        n = shape if kind == 'sequence' else len(shape)
        w.raw('in%d' % slot, 8 * n); o = w.st.w('in%d' % slot)
        sz = 4 if kind == 'sequence' else 8
        for k in range(n):
            if kind == 'envelope': o.cells[8 * k] = (4, C(shape[k], 32))
            o.cells[sz * k + sz - 4] = (4, C(bound if k == 0 else -(k % 2) * bound, 32))
        w.call('BKInstrumentSet' + kind.title(), 'o', slot, 'in%d' % slot, n, so, sl)
        # now any values up to the bound
        p = w.get('o', 'sequences[%d]' % slot); S = w.p.struct('BKSequence')
        v = w.I.rd(w.st, p[2], C(w.st.const(p[3]) + w.p.offset(S, 'values'), 64), 8); q = w.st.w(v[2]); vals = []
        for k in range(n):
            y = w.I.nsym('v%d_%d' % (slot, k), 32, -bound, bound); q.cells[w.st.const(v[3]) + sz * k + sz - 4] = (4, y); vals.append(y if kind == 'sequence' else (shape[k], y))
        models[slot] = Model(kind, vals, so, sl)
    w.st.memo = {}
    w.new('s', 'BKInstrumentState'); w.call('BKInstrumentStateInit', 's')
    w.set('s', 'callback', w.fnptr if hasattr(w, 'fnptr') else ('fn', 64, 'BKObjectGetSize')) if 0 else None
    return w, models

def trace(rep, a):
    """one instrument, one of its users (a state of its own, or that of a track), a history of events"""
    seqs, script, bound, via = a
    hooks = Watch(); w, models = instrument(seqs, bound, hooks)
    p = w.p; at = where(p, 'BKInstrumentStateTick'); I = w.I
    inst = '; '.join('%s %d: %s, sustain %d+%d' % (k, s, sh, so, sl) for s, k, sh, so, sl in seqs) + (' (track)' if via == 'track' else '')
    if via == 'track':
        w.track('t', w.enum('BK_SQUARE')); S = P('t', w.off('BKTrack', 'instrState')); path = ('t', 'instrState.')
        duty = I.nsym('duty', 32, 1, 15); w.set('t', 'dutyCycle', duty); w.set('t', 'unit.dutyCycle', duty)
        w.st.memo = {}
        outs = w.run('BKSetPtr', 't', w.enum('BK_INSTRUMENT'), 'o', 8)
    else:
        S = P('s'); path = ('s', ''); duty = None
        outs = w.run('BKInstrumentStateSetInstrument', 's', 'o')
    def attack():
        if duty is not None and 3 in models: models[3].val = ('exact', duty)
        for m in models.values(): m.set('ATTACK')
    def mute():
        for m in models.values(): m.set('MUTE')
    for m in models.values(): m.set('ATTACK')
    phase, held = 'ATTACK', False
    if via == 'track':
        if 3 in models: models[3].val = ('exact', duty)
        mute(); phase = 'MUTE'
    states = [st for st, _ in outs]; done = 'setting it'
    def value(st, s): return I.run('BKInstrumentStateGetSequenceValueAtOffset', [S, C(s, 32), C(0, 32)], st.fork())
    def compare():
        for st in states:
            for s, m in models.items():
                for q, t in value(st, s):
                    msg = agrees(q, t, m.val)
                    rep.ob('steps', msg is None, '%s after %s' % (inst, done), at, 'the value of slot %d %s' % (s, msg), key='%s/%s' % (s, seqs[0][1] + (msg or '')[:30]))
            bad = hooks.bad
            rep.ob('inside', not bad, '%s after %s' % (inst, done), at, '; '.join('%s (%s)' % (m_, k[1]) for k, m_ in list(bad.items())[:2]))
            g = st.simp(I.getf(st, path[0], path[1] + 'phase'))
            rep.ob('ends', st.equal(g, C(w.enum('BK_SEQUENCE_PHASE_' + phase), 32)) is True, '%s after %s' % (inst, done), at, 'the instrument is in phase %s instead of %s' % (show(g), phase), key='%s/%s/%s' % (seqs, done.split()[-1], phase))
    compare()
    for act in script:
        done += ' ' + act; nxt = []
        # a slide which is left starts again from where it is
        if len(states) == 1:
            for s, m in models.items():
                if m.val[0] == 'between':
                    r = value(states[0], s)
                    if len(r) == 1: m.val = ('exact', r[0][1])
        if act.startswith('tick'):
            lv = int(act[4:]); fn, args = 'BKInstrumentStateTick', (S, C(lv, 32))
            prev = {s: m.val for s, m in models.items()}
            ended = [m.tick(lv) for m in models.values()]
            if any(ended) and all(m.done for m in models.values()): mute(); phase = 'MUTE'; held = False
        elif via == 'track':
            fn, args = 'BKSetAttr', (P('t'), C(w.enum('BK_NOTE'), 32), C(60 << 20, 32) if act == 'ATTACK' else C({'RELEASE': -1, 'MUTE': -2}[act], 32))
            if act == 'ATTACK':
                if not held: attack(); phase = 'ATTACK'
                held = True
            elif act == 'RELEASE':
                held = False
                if phase != 'RELEASE':
                    fin = [m.set(act) for m in models.values()]; phase = 'RELEASE'
                    if all(fin): mute(); phase = 'MUTE'
            else: mute(); held = False; phase = 'MUTE'
        else:
            fn, args = 'BKInstrumentStateSetPhase', (S, C(w.enum('BK_SEQUENCE_PHASE_' + act), 32))
            if not (act == 'RELEASE' and phase == 'RELEASE'):
                fin = [m.set(act) for m in models.values()]
                phase = 'MUTE' if all(fin) and act != 'ATTACK' else act
        for st in states: nxt += [q for q, _ in I.run(fn, list(args), st.fork())]
        rep.ob('returns', bool(nxt), '%s after %s' % (inst, done), where(p, fn), 'never returns')
        if not nxt: return
        states = nxt
        compare()
    rep.funcs |= I.visited_fn; rep.count('sequences of events')

def shapes(tier):
    out = []
    N = 3 if tier == 'quick' else 4
    for n in range(1, N + 1):
        for so in range(n + 1):
            for sl in range(n - so + 1): out.append(('sequence', n, so, sl))
    st = (0, 1, 3) if tier == 'quick' else (0, 1, 2, 3, 5)
    for n in range(1, 4):
        for steps in itertools.product(st, repeat=n):
            for so in range(n + 1):
                for sl in range(n - so + 1):
                    if so < n and sum(steps[so:so + sl]) == 0: continue
                    out.append(('envelope', steps, so, sl))
    return out

def scripts(n, mixed=False):
    out = []
    for tick in ('1', '01', '001') if mixed else ('1', '01'):
        c = itertools.cycle(tick); t = lambda k: ['tick' + next(c) for _ in range(k)]
        m = (2 * n + 2) * len(tick)
        out.append(t(m) + ['RELEASE'] + t(m) + ['ATTACK'] + t(2) + ['RELEASE'] + t(1) + ['RELEASE'] + t(2))
        out.append(['RELEASE'] + t(2) + ['ATTACK'] + t(1) + ['ATTACK'] + t(2) + ['MUTE'] + t(2) + ['ATTACK'] + t(2))
    return out

def part(a):
    r = Report('C27', a[0])
    for x in a[2]: {'trace': trace, 'step': step, 'created': created}[a[1]](r, x)
    return r

# ---- one step of a sequence of any length, from any position
class Steps(Watch):
    """an envelope's second phase entered in one step lasts: a phase without duration is a step of its own"""
    env, so8 = False, None
    def access(s, I, st, rid, off, size, write, ins):
        Watch.access(s, I, st, rid, off, size, write, ins)
        if rid != 'values' or write: return
        seen = [e[1] for e in st.events()[s.n0:] if e[0] == 'read']
        if s.env and off not in st.mem[rid].sc and size == C(4, 64):
            q = parts(st, st.simp(off))
            # one value for one cell, however often it is read
            at = q and q[0] % 8 == 0 and all(c % 8 == 0 for c in q[1].values())
            t = I.nsym('duration', 32, 1 if any(x != off for x in seen) or st.simp(off) == s.so8 else 0, (1 << 31) - 1) if at else I.nsym('value', 32, -(1 << 15), 1 << 15)
            st.w(rid).sc[off] = (4, t)
        st.ev(('read', off))

def anyseq(kind, hooks):
    """state 's' using a sequence of any length and sustain part; returns (world, so, se, n)"""
    w = World(hooks=hooks)
    w.raw('in', 64); w.instr('o')
    for k in range(2): w.st.w('in').cells[8 * k] = (4, C(2, 32)); w.st.w('in').cells[8 * k + 4] = (4, C(7, 32))
    w.call('BKInstrumentSet' + kind.title(), 'o', 0, 'in', 2, 1, 1)
    p = w.get('o', 'sequences[0]'); S = w.p.struct('BKSequence'); blk, base = p[2], w.st.const(p[3])
    so, se, n = (w.I.nsym(x, 32, 0, 1 << 26) for x in ('so', 'se', 'n'))
    for x, y in ((so, se), (se, n)): w.st.add_diff(x, y, 'S', 0); w.st.add_diff(x, y, 'U', 0)
    w.st.set_s(n, 1, 1 << 26); w.st.set_u(n, 1, 1 << 26)
    f = lambda x: base + w.p.offset(S, x)
    sz = 4 if kind == 'sequence' else 8
    o = w.st.w(blk)
    o.cells[f('length')] = (4, n); o.cells[f('sustainOffset')] = (4, so); o.cells[f('sustainLength')] = (4, sub(se, so))
    w.I.region(w.st, 'values', None, 'param', ext(mulc(n, sz), 64, False), ('sym', ''))
    o.cells[f('values')] = (8, P('values'))
    w.new('s', 'BKInstrumentState'); w.call('BKInstrumentStateInit', 's'); w.st.memo = {}
    outs = w.run('BKInstrumentStateSetInstrument', 's', 'o')
    return w, outs, so, se, n

def step(rep, a):
    kind, phase, pos, lv = a
    hooks = Steps(); hooks.n0 = 0; w, outs, so, se, n = anyseq(kind, hooks)
    at = where(w.p, 'BKInstrumentStateTick'); INF = C(0x7fffffff, 32)
    inst = '%s of any length, %s, %s' % (kind, phase.lower(), {'held': 'before the end of the sustain part', 'end': 'at the end of the sustain part', 'past': 'after it', 'done': 'finished'}[pos])
    bad = dict(hooks.bad); rep.ob('inside', not bad, '%s of any length: set' % kind, at, '; '.join('%s (%s)' % (m, k[1]) for k, m in list(bad.items())[:2]))
    for st0, _ in outs:
        # whatever happened so far: any position of any phase
        for split in ('so<n', 'so=n'):
            if split == 'so=n' and pos == 'end' or st0.le(n, so, 'S') is True and split == 'so<n' or st0.le(so, n, 'S', True) is True and split == 'so=n': continue
            st = st0.fork(); I = w.I; w.st = st
            sf = lambda f, v: I.setf(st, 's', 'states[0].' + f, v if isinstance(v, tuple) else C(v, 32))
            if split == 'so<n': st.add_diff(so, n, 'S', -1); st.add_diff(so, n, 'U', -1)
            else: st.add_diff(n, so, 'S', 0); st.add_diff(n, so, 'U', 0)
            o = I.nsym('o', 32, 0, 1 << 26)
            def lt(x, y, k=-1): st.add_diff(x, y, 'S', k); st.add_diff(x, y, 'U', k)
            if pos == 'held': lt(o, se)
            elif pos == 'end': lt(se, o, 0); lt(o, n)
            elif pos == 'past': lt(n, o, 0); lt(o, n, 0)
            else: o = INF
            sf('offset', o); ph = C(w.enum('BK_SEQUENCE_PHASE_' + phase), 32); sf('phase', ph); I.setf(st, 's', 'phase', ph)
            I.setf(st, 's', 'numActiveSequences', C(1, 32))
            for f in ('shiftedValue', 'endValue', 'delta', 'value'): sf(f, I.nsym(f, 32, -(1 << 29), 1 << 29))
            steps = [0] if kind == 'sequence' else [0, 1, None]
            for k in steps:
                q = st.fork()
                if kind == 'envelope':
                    if k is None and pos not in ('held', 'end'): continue
                    I.setf(q, 's', 'states[0].steps', C(k, 32) if k is not None else I.nsym('left', 32, 2, (1 << 31) - 1))
                    if k and pos not in ('held', 'end'): continue
                hooks.n0 = n0 = len(q.events()); hooks.bad.clear(); hooks.env = kind == 'envelope'; hooks.so8 = q.simp(mulc(ext(so, 64, False), 8)); I.FORCED = True; I.UNROLL = 4
                res = I.run('BKInstrumentStateTick', [P('s'), C(lv, 32)], q)
                rep.ob('returns', bool(res), inst, at, 'never returns')
                bad = dict(hooks.bad); rep.ob('inside', not bad, '%s, %s' % (inst, split), at, '; '.join('%s (%s)' % (m, k_[1]) for k_, m in list(bad.items())[:2]), key='%s/%s' % (kind, sorted(bad.values())[:1]))
                for q, _ in res: order(rep, w, q, n0, kind, phase, pos, lv, split, k, o, so, se, n, inst, at)
    rep.funcs |= w.I.visited_fn

def order(rep, w, q, n0, kind, phase, pos, lv, split, k, o, so, se, n, inst, at):
    I = w.I; sz = 4 if kind == 'sequence' else 8; INF = C(0x7fffffff, 32)
    off = q.simp(I.getf(q, 's', 'states[0].offset'))
    reads = [e[1] for e in q.events()[n0:] if e[0] == 'read']
    def is_(a, b): return q.equal(q.simp(a), q.simp(b)) is True
    def cell(a, i):
        x, y = parts(q, q.simp(a)), parts(q, q.simp(i))
        return x is not None and y is not None and x[0] - sz * y[0] in range(0, sz, 4) and x[1] == {t: sz * c for t, c in y[1].items()}
    legal = is_(off, INF) or (q.le(C(0, 32), off, 'S', False) is True and q.le(off, n, 'S', False) is True)
    rep.ob('position', legal, '%s, %s' % (inst, split), at, 'position becomes %s' % show(off), key='%s/%s/%s/%s' % (kind, phase, pos, split))
    first = reads[0] if reads else None
    skip = pos == 'done' or (kind == 'sequence' and lv < 1) or (kind == 'envelope' and k is None)
    if skip:
        ok = is_(off, o) and first is None; want = 'stays'
    else:
        at_ = add(o, C(1, 32)) if k == 1 and kind == 'envelope' else o
        if kind == 'envelope' and k == 1:
            # the phase reached its end: what comes next depends on where that was
            if phase == 'ATTACK' and q.le(se, at_, 'S', False) is not False and q.le(at_, se, 'S', True) is not True and q.le(se, at_, 'S', False) is not True:
                rep.ob('order', True, inst, at, ''); return
        wrap = phase == 'ATTACK' and q.le(se, at_, 'S', False) is True
        idx = so if wrap else at_
        if q.le(n, idx, 'S', False) is True: ok = (is_(off, INF) or is_(off, n)) and first is None; want = 'ends'
        else:
            fin = q.le(idx, n, 'S', True)
            ok = first is not None and (cell(first, idx) or q.le(first, mulc(ext(idx, 64, False), sz), 'S') is True and q.le(mulc(ext(idx, 64, False), sz), first, 'S') is True)
            want = 'reads value %s' % show(idx)
            if ok and kind == 'sequence': ok = is_(off, add(idx, C(1, 32)))
            if ok and kind == 'envelope' and len(reads) <= 2 and q.rng(I.getf(q, 's', 'states[0].steps'))[0] >= 1: ok = is_(off, idx)
    rep.ob('order', ok, '%s, %s, %s steps left' % (inst, split, k), at, 'the sequence %s, it should: %s' % ('reads value at byte %s and continues at %s' % (show(first), show(off)) if first else 'goes to %s' % show(off), want), key='%s/%s/%s/%s/%s' % (kind, phase, pos, split, k))

def created(rep, a):
    """the sustain part lies within the sequence, and the copy holds all of its values, whatever is given"""
    kind, case = a
    h = Watch(); w = World(hooks=h); w.instr('o'); sz = 4 if kind == 'sequence' else 8; I = w.I
    n = I.nsym('n', 32, 1, 1 << 26)
    if case == 'within': so = I.nsym('so', 32, 0, 1 << 26); sl = I.nsym('sl', 32, 0, 1 << 26); w.st.set_s(sub(sub(n, so), sl), 0, 1 << 26); w.st.add_diff(so, n, 'S', 0); w.st.add_diff(so, n, 'U', 0)
    elif case == 'longer': so = I.nsym('so', 32, 0, 1 << 26); w.st.add_diff(so, n, 'S', 0); w.st.add_diff(so, n, 'U', 0); sl = add(sub(n, so), I.nsym('more', 32, 1, 1 << 26))
    elif case == 'after': so = add(n, I.nsym('more', 32, 1, 1 << 26)); sl = I.nsym('sl', 32)
    elif case == 'negative offset': so = I.nsym('so', 32, -1 << 31, -1); sl = I.nsym('sl', 32)
    else: so = I.nsym('so', 32, 0, 1 << 26); w.st.add_diff(so, n, 'S', 0); w.st.add_diff(so, n, 'U', 0); sl = I.nsym('sl', 32, -1 << 31, -1)
    I.region(w.st, 'in', None, 'param', ext(mulc(n, sz), 64, False), ('sym', ''))
    fn = 'BKInstrumentSet' + kind.title(); at = where(w.p, fn); inst = '%s, sustain part %s' % (kind, case)
    outs = w.run(fn, 'o', 0, 'in', n, so, sl)
    rep.ob('created', bool(outs), inst, at, 'never returns')
    bad = h.bad; rep.ob('inside', not bad, inst, at, '; '.join('%s (%s)' % (m, k[1]) for k, m in list(bad.items())[:2]))
    for st, r in outs:
        p = st.simp(I.getf(st, 'o', 'sequences[0]'))
        if st.const(r) != 0:
            rep.ob('created', p == NULL, inst, at, 'failed but left a sequence'); continue
        S = w.p.struct('BKSequence'); g = lambda f, k=4: st.simp(I.rd(st, p[2], C(st.const(p[3]) + w.p.offset(S, f), 64), k))
        if p[0] != 'ptr': rep.ob('created', False, inst, at, 'no sequence'); continue
        L_, x, y, v = g('length'), g('sustainOffset'), g('sustainLength'), g('values', 8)
        z = C(0, 32)
        ok = st.equal(L_, n) is True
        rep.ob('created', ok, inst, at, 'the sequence has length %s instead of %s' % (show(L_), show(n)))
        ok = st.le(z, x, 'S') is True and st.le(x, n, 'S') is True and st.le(z, y, 'S') is True and st.le(y, sub(n, x), 'S') is True
        rep.ob('created', ok, inst, at, 'the sustain part %s+%s may not lie within the %s values' % (show(x), show(y), show(n)))
        if case == 'within': rep.ob('created', st.equal(x, so) is True and st.equal(y, sl) is True, inst, at, 'the sustain part becomes %s+%s' % (show(x), show(y)))
        o = st.mem.get(v[2]) if v[0] == 'ptr' else None
        rep.ob('created', o is not None and o.size is not None and inside(st, v[3], ext(mulc(n, sz), 64, False), o.size if isinstance(o.size, tuple) else C(o.size, 64)), inst, at, 'its values at %s do not fit' % show(v))
    rep.funcs |= I.visited_fn

EXPL = ('Abstract interpretation of the sequence code. created: for any length up to 2^26 and any given sustain part, the stored one lies within the '
        'values and the copy holds all of them. order/position/inside: from any position of any phase, with any sustain part and length, one tick reads '
        'exactly the value which is next, never outside of the block, and continues behind it, wraps to the sustain part while held, or ends. steps/ends: '
        'whole histories (attack, ticks of both levels, release, mute, restarts; one or two sequences; used alone or by a track) on symbolic values are '
        'compared with a reference model: each value, each slide within rounding, and the end of the instrument once all of its sequences ended.')
def played(n):
    t = ['tick1'] * (2 * n + 2)
    return [['ATTACK'] + t + ['ATTACK', 'tick1', 'RELEASE'] + t + ['ATTACK', 'tick1', 'MUTE', 'tick1', 'ATTACK', 'tick1', 'RELEASE', 'tick1', 'ATTACK'] + t]

def pairs(tier):
    """two sequences of one instrument"""
    A = [('sequence', 1, 0, 0), ('sequence', 2, 1, 1), ('sequence', 3, 1, 1), ('sequence', 2, 2, 0), ('envelope', (1, 2), 1, 1), ('envelope', (2, 0, 1), 0, 1), ('envelope', (0, 3), 2, 0), ('envelope', (2,), 0, 1)]
    out = []
    for x in A:
        for y in A:
            for s1, s2 in ((0, 1), (1, 2), (0, 3)) if tier == 'quick' else itertools.combinations(range(4), 2): out.append([(s1,) + x, (s2,) + y])
    return out
def size(s): return s[1] if s[0] == 'sequence' else sum(s[1]) + 1

def check(rep):
    one = [([(0,) + s], sc, b, 'state') for s in shapes(rep.tier) for b in ((32767,) if s[0] == 'sequence' else (32767, 1, 96 << 20)) for sc in scripts(size(s))]
    two = [(ss, sc, 32767, 'state') for ss in pairs(rep.tier) for sc in scripts(max(size(s[1:]) for s in ss), True)]
    three = [([(slot,) + s], sc, b, 'track') for s in shapes('quick') for slot, b in ((0, 255), (3, 15), (3, 1), (2, 96 << 20)) if slot != 0 or s[0] == 'envelope' for sc in played(size(s))]
    jobs = [(rep.tier, 'trace', (one + two + three)[k::96]) for k in range(96)]
    jobs += [(rep.tier, 'step', [(k, ph, pos, lv)]) for k in ('envelope', 'sequence') for ph in PH for pos in ('held', 'end', 'past', 'done') for lv in (0, 1) if (ph, pos) != ('MUTE', 'held')]
    jobs += [(rep.tier, 'created', [(k, c)]) for k in ('envelope', 'sequence') for c in ('within', 'longer', 'after', 'negative offset', 'negative length')]
    for r in presults(part, jobs): rep.merge(r)
    rep.need('steps', 300); rep.need('order', 40); rep.need('created', 20)
    return rep.finish('other', EXPL, program())
