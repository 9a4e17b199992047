"""C33: slides end on their target after the set number of steps, oscillations
run through their four phases, and an effect tick advances each enabled effect once."""
import random
from cbs import *
from report import Report
from val import syms, evalt, tos, ext, trunc
import c25
from c25 import where
from scen import context, player
from states import shifts

K = 1 << 20
CASES = (('panning', -32767, 32767), ('volume', 0, 32767), ('tremoloSteps', 0, 1 << 16), ('note', 0, 96 * K), ('vibratoDelta', -(1 << 28), 1 << 28))
INTER = (('tremolo', 0, 32767), ('vibrato', -(1 << 29), 1 << 29))
ROOM = 1 << 29

def samples(st, terms, n=16, seed=1):
    """assignments of the symbols of `terms` that the path `st` allows; each symbol is set in turn, so ranges and relations are respected"""
    r = random.Random(seed); names = sorted({x for t in terms for x in syms(t)}, key=str); out = []
    for k in range(n * 6):
        if len(out) >= n: break
        q = st.fork(); env = {}; order = names[:]; r.shuffle(order)
        for s in order:
            for _ in range(8):
                lo, hi = q.rng(s)
                big = min(hi, max(lo, lo + (1 << r.randrange(0, 31)))) if r.random() < .5 else max(lo, min(hi, hi - (1 << r.randrange(0, 31))))
                if env and r.random() < .3: v = min(max(tos(r.choice(sorted(env.values())), 32) + r.randint(-1, 1), lo), hi)
                else: v = r.choice((lo, hi, big, big, r.randint(lo, hi), min(max(r.randint(-9, 9), lo), hi)))
                t = q.fork()
                try: t.assume(cmp('eq', s, C(v, s[1])), True)
                except Infeasible: continue
                q = t; env[s] = v & ((1 << s[1]) - 1); break
            else: break
        if len(env) == len(names) and holds(st, env): out.append(env)
    return out

def holds(st, env):
    """no fact of the path contradicts the assignment"""
    for t, (lo, hi) in st.bnd.items():
        v = num(t, env)
        if v is not None and not lo <= v <= hi: return False
    for t, (lo, hi) in st.ubnd.items():
        v = evalt(t, env)
        if v is not None and not lo <= v <= hi: return False
    for (a, b), k in st.dbm.items():
        x, y = ((num if n[0] == 'S' else evalt)(n[1], env) for n in (a, b))
        if x is not None and y is not None and x > y + k: return False
    for e in st.ne:
        x, y = evalt(e[1], env), evalt(e[2], env)
        if x is not None and x == y: return False
    return True

def num(t, env):
    v = evalt(t, env)
    return None if v is None else tos(v, t[1])

def quot(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q

ASKED = [0, 0]     # comparisons, valuations compared
def agree(st, got, want, deps):
    """the term `got` has the value want(env) wherever the path allows; None or message (a path no valuation was found for is not compared)"""
    known = 0
    for env in samples(st, [got] + list(deps)):
        g, x = num(got, env), want(lambda t: num(t, env))
        if g is None or x is None: continue
        known += 1
        if tos(x & 0xffffffff, 32) != g: return '%s, expected %d, for %s' % (g, x, ', '.join('%s = %d' % (show(s), tos(v, s[1])) for s, v in sorted(env.items(), key=str)))
    ASKED[0] += 1; ASKED[1] += known
    return None

def run(rep, w, rule, inst, fn, args, judge):
    outs = w.run(fn, *args)
    rep.ob(rule, bool(outs), inst, where(w, fn), 'the call does not return')
    ASKED[:] = [0, 0]
    for st, ret in outs:
        try: m = judge(st, ret)
        except Infeasible: m = None
        rep.ob(rule, m is None, inst, where(w, fn), m or '')
    if ASKED[0]: rep.ob(rule, ASKED[1] > 0, inst + ' (compared)', where(w, fn), 'no path of the function could be compared')
    rep.funcs |= w.I.visited_fn; rep.count('valuations compared', ASKED[1])

def limit(w): return w.p.macro('BK_STATE_MAX_STEPS') if hasattr(w.p, 'macro') else (1 << 23)

def bias(w, rid, path, sh):
    """stored rounding: any amount below one unit"""
    b = w.I.nsym(rid + '.bias', 32, 0, (1 << sh) - 1); w.set(rid, path, b); return b

def slide(w, rid, sh, M, pre='', lo=None):
    """slide in mid run"""
    S = lambda f, v: w.set(rid, pre + f, v)
    n = pre or rid + '.'
    lo = -M if lo is None else lo
    v = w.I.nsym(n + 'value', 32, lo << sh, M << sh); e = w.I.nsym(n + 'end', 32, lo, M)
    k = w.I.nsym(n + 'step', 32, 0, (1 << 23) - 1); N = w.I.nsym(n + 'steps', 32, 0, (1 << 23) - 1); d = w.I.nsym(n + 'delta', 32, -ROOM, ROOM)
    b = w.I.nsym(n + 'bias', 32, 0, (1 << sh) - 1)
    w.st.add_diff(k, N, 'S', 0); w.st.add_diff(k, N, 'U', 0)
    for f, x in (('value', v), ('endValue', mulc(e, 1 << sh)), ('step', k), ('steps', N), ('stepDelta', d), ('roundBias', b)): S(f, x)
    S('valueShift', sh)
    return dict(value=v, end=e, step=k, steps=N, delta=d, bias=b)

def count(st, n):
    """[(state, number of steps taken over)] of a requested number"""
    out = []
    for t, (pos, big) in split(st, [cmp('sgt', n, C(0, 32)), cmp('sge', n, C((1 << 23) - 1, 32))]):
        out.append((t, None if not pos else n, big))
    return out

def rounding(w, st, rid, path, sh):
    b = field(w, st, rid, path)
    if b[0] == 's' and 'undef' in str(b[2]): return 'the rounding is not initialised'
    lo, hi = st.rng(b)
    if lo < 0 or hi >= 1 << sh:
        for env in samples(st, [b]):
            x = num(b, env)
            if x is not None and not 0 <= x < 1 << sh: return 'rounding by %d of %d makes the target read differently, for %s' % (x, 1 << sh, ', '.join('%s = %d' % (show(s), tos(v, s[1])) for s, v in sorted(env.items(), key=str)))
        return 'rounding by %s (%d to %d) may reach one unit (%d)' % (show(b), lo, hi, 1 << sh)
    return None

def set_to(w, st, rid, pre, sh, target, n, start):
    """slide `rid`.`pre` was just told to reach `target` (in units) in n steps from raw value `start`"""
    for t, N, big in count(st, n):
        g = lambda f: field(w, t, rid, pre + f)
        goal = mulc(target, 1 << sh)
        if not eq(t, g('endValue'), goal): return 'the target becomes %s instead of %s' % (show(g('endValue')), show(goal))
        if N is None:
            if not eq(t, g('value'), goal): return 'set without steps, the value is %s instead of the target' % show(g('value'))
            if t.rng(g('step'))[1] > 0: return 'set without steps, but %s steps remain' % show(g('step'))
            if t.const(g('steps')) != 0: return 'set without steps, but the number of steps is %s' % show(g('steps'))
            continue
        if not eq(t, g('value'), start): return 'the value jumps to %s' % show(g('value'))
        if not eq(t, g('step'), g('steps')): return '%s of %s steps remain' % (show(g('step')), show(g('steps')))
        if big:
            lo, hi = t.rng(g('steps'))
            if lo < (1 << 23) - 1 or hi > 1 << 23: return 'the number of steps becomes %s' % show(g('steps'))
        elif not eq(t, g('steps'), n): return 'the number of steps becomes %s instead of %s' % (show(g('steps')), show(n))
        m = agree(t, g('stepDelta'), lambda x: None if x(g('steps')) in (0, None) else quot(x(goal) - x(start), x(g('steps'))), [goal, start, g('steps')])
        if m: return 'one step changes the value by %s' % m
        m = rounding(w, t, rid, pre + 'roundBias', sh)
        if m: return m
    return None

def slides(rep):
    sh_ = shifts(program())
    for name, lo, M in CASES:
        sh = sh_[name]; inst = 'slide like %s' % name
        # setting a target
        w = World(); w.new('s', 'BKSlideState'); s = slide(w, 's', sh, M, lo=lo); t = w.I.nsym('target', 32, lo, M); n = w.I.nsym('n', 32)
        run(rep, w, 'slide-set', inst + ': BKSlideStateSetValueAndSteps', 'BKSlideStateSetValueAndSteps', ('s', t, n), lambda st, ret: set_to(w, st, 's', '', sh, t, n, s['value']))
        # one step
        w = World(); w.new('s', 'BKSlideState'); s = slide(w, 's', sh, M, lo=lo)
        w.st.set_s(add(s['value'], s['delta']), -(1 << 31), (1 << 31) - 1)
        run(rep, w, 'slide-step', inst + ': BKSlideStateStep', 'BKSlideStateStep', ('s',), lambda st, ret: stepped(w, st, 's', '', sh, s))
        # reading
        w = World(); w.new('s', 'BKSlideState'); s = slide(w, 's', sh, M, lo=lo); w.set('s', 'value', mulc(s['end'], 1 << sh))
        def judge(st, ret):
            if eq(st, ret, s['end']): return None
            m = agree(st, ret, lambda x: x(s['end']), [s['end'], s['bias']])
            return 'at its target, a slide reads %s' % m if m else None
        run(rep, w, 'slide-read', inst + ': BKSlideStateGetValue', 'BKSlideStateGetValue', ('s',), judge)
        # halting
        for end in (0, 1):
            w = World(); w.new('s', 'BKSlideState'); s = slide(w, 's', sh, M, lo=lo)
            def judge(st, ret):
                g = lambda f: field(w, st, 's', f)
                if st.rng(g('step'))[1] > 0: return '%s steps remain' % show(g('step'))
                if not eq(st, g('endValue'), mulc(s['end'], 1 << sh)): return 'the target changes'
                return None if eq(st, g('value'), mulc(s['end'], 1 << sh) if end else s['value']) else 'the value becomes %s' % show(g('value'))
            run(rep, w, 'slide-step', inst + ': BKSlideStateHalt %d' % end, 'BKSlideStateHalt', ('s', C(end, 32)), judge)
    # a new slide stands at 0
    for M in (0, 1, 32767, 1 << 16, 1 << 29):
        w = World(); w.new('s', 'BKSlideState')
        def judge(st, ret):
            for f in ('value', 'endValue', 'step', 'steps', 'stepDelta', 'roundBias'):
                if st.const(field(w, st, 's', f)) != 0: return '%s starts as %s' % (f, show(field(w, st, 's', f)))
            k = st.const(field(w, st, 's', 'valueShift'))
            return None if k is not None and 0 <= k and M << k < 1 << 31 else 'values up to %d are scaled by 2^%s' % (M, k)
        run(rep, w, 'slide-set', 'BKSlideStateInit %d' % M, 'BKSlideStateInit', ('s', C(M, 32)), judge)

def stepped(w, st, rid, pre, sh, s, on=True):
    """slide `rid`.`pre` that was in state s advanced by one step (or not at all)"""
    goal = mulc(s['end'], 1 << sh)
    for t, (moving, last) in split(st, [cmp('sgt', s['step'], C(0, 32)), cmp('eq', s['step'], C(1, 32))]):
        g = lambda f: field(w, t, rid, pre + f)
        for f, k in (('endValue', goal), ('steps', s['steps'])):
            if not eq(t, g(f), k): return '%s becomes %s' % (f, show(g(f)))
        if not (on and moving):
            for f, k in (('value', s['value']), ('step', s['step'])):
                if not eq(t, g(f), k): return '%s, but %s becomes %s' % ('the slide is over' if on else 'the slide is not due', f, show(g(f)))
            continue
        if not eq(t, g('step'), sub(s['step'], C(1, 32))): return 'after a step, %s steps remain of %s' % (show(g('step')), show(s['step']))
        if last:
            if not eq(t, g('value'), goal): return 'after the last step the value is %s, not the target' % show(g('value'))
        else:
            if not eq(t, g('value'), add(s['value'], s['delta'])): return 'a step leads to %s' % show(g('value'))
            if not eq(t, g('stepDelta'), s['delta']): return 'the change per step becomes %s' % show(g('stepDelta'))
    return None

UP = {0: 1, 1: -1, 2: -1, 3: 1}      # direction in each phase, for a positive depth
def interval(w, rid, sh, lo, hi, phase, N=None, pre=''):
    n = pre or rid + '.'
    D = w.I.nsym(n + 'depth', 32, lo, hi); k = w.I.nsym(n + 'step', 32, 0, (1 << 23) - 2); v = w.I.nsym(n + 'value', 32, -ROOM, ROOM); d = w.I.nsym(n + 'delta', 32, -ROOM, ROOM); b = w.I.nsym(n + 'bias', 32, 0, (1 << sh) - 1)
    if N is None:
        N = w.I.nsym(n + 'steps', 32, 1, (1 << 23) - 1); w.st.add_diff(k, N, 'S', -1); w.st.add_diff(k, N, 'U', -1)
    else: D = v = d = k = C(0, 32); N = C(N, 32)
    for f, x in (('delta', mulc(D, 1 << sh)), ('steps', N), ('value', v), ('stepDelta', d), ('roundBias', b), ('phase', C(phase, 32)), ('step', k), ('valueShift', C(sh, 32))): w.set(rid, pre + f, x)
    return dict(depth=D, step=k, steps=N, value=v, delta=d, bias=b)

def intervals(rep):
    sh_ = shifts(program())
    for name, lo, hi in INTER:
        sh = sh_[name]
        for phase in range(4):
            inst = 'oscillation like %s in phase %d' % (name, phase)
            # one step
            w = World(); w.new('s', 'BKIntervalState'); s = interval(w, 's', sh, lo, hi, phase)
            w.st.set_s(add(s['value'], s['delta']), -(1 << 31), (1 << 31) - 1)
            def judge(st, ret):
                peak = mulc(s['depth'], 1 << sh)
                for t, (last,) in split(st, [cmp('sge', s['step'], sub(s['steps'], C(1, 32)))]):
                    g = lambda f: field(w, t, 's', f)
                    for f, k in (('delta', peak), ('steps', s['steps']), ('roundBias', s['bias'])):
                        if not eq(t, g(f), k): return '%s becomes %s' % (f, show(g(f)))
                    ph = t.const(g('phase'))
                    if not last:
                        if ph != phase: return 'the phase changes to %s before it is over' % ph
                        if not eq(t, g('step'), add(s['step'], C(1, 32))): return 'step becomes %s' % show(g('step'))
                        if not eq(t, g('value'), add(s['value'], s['delta'])): return 'value becomes %s' % show(g('value'))
                        if not eq(t, g('stepDelta'), s['delta']): return 'the change per step becomes %s' % show(g('stepDelta'))
                        continue
                    nx = (phase + 1) & 3
                    if ph != nx: return 'phase %s follows' % ph
                    if t.const(g('step')) != 0: return 'the next phase begins at step %s' % show(g('step'))
                    want = (C(0, 32), peak, C(0, 32), neg(peak))[nx]
                    if not eq(t, g('value'), want): return 'the next phase begins at %s instead of %s' % (show(g('value')), show(want))
                    want = s['delta'] if UP[nx] == UP[phase] else neg(s['delta'])
                    if not eq(t, g('stepDelta'), want): return 'in the next phase a step changes the value by %s instead of %s' % (show(g('stepDelta')), show(want))
                return None
            run(rep, w, 'oscillation-step', inst + ': BKIntervalStateStep', 'BKIntervalStateStep', ('s',), judge)
            # changing depth or rate, with and without a running oscillation
            for idle in (False, True):
                if idle and phase: continue
                w = World(); w.new('s', 'BKIntervalState'); s = interval(w, 's', sh, lo, hi, phase, 0 if idle else None)
                D = w.I.nsym('depth', 32, lo, hi); n = w.I.nsym('n', 32)
                def judge(st, ret):
                    peak = mulc(D, 1 << sh)
                    for t, N, big in count(st, n):
                        g = lambda f: field(w, t, 's', f)
                        if N is None:
                            for f in ('delta', 'steps', 'value', 'stepDelta', 'phase', 'step'):
                                if t.const(g(f)) != 0: return 'switched off, %s is %s' % (f, show(g(f)))
                            continue
                        was = mulc(s['depth'], 1 << sh)
                        if not idle and all(eq(t, g(f), k) for f, k in (('value', s['value']), ('step', s['step']), ('stepDelta', s['delta']), ('delta', was), ('steps', s['steps']), ('phase', C(phase, 32)))) and \
                            all(a == b or t.rng(sub(a, b)) == (0, 0) or t.le(a, b, 'S') and t.le(b, a, 'S') or t.truth(cmp('eq', a, b)) is True for a, b in ((s['steps'], n), (was, peak))): continue
                        if not eq(t, g('delta'), peak): return 'the depth becomes %s instead of %s' % (show(g('delta')), show(peak))
                        if big and (t.rng(g('steps'))[0] < (1 << 23) - 1 or t.rng(g('steps'))[1] > 1 << 23) or not big and not eq(t, g('steps'), n): return 'the number of steps becomes %s' % show(g('steps'))
                        if t.const(g('phase')) != phase: return 'the phase changes to %s' % show(g('phase'))
                        deps = [peak, n, s['step'], s['steps'], s['value'], s['delta'], mulc(s['depth'], 1 << sh)]
                        def kept(x):
                            # the position within the phase
                            k, a, b, c = x(g('step')), x(s['step']), x(s['steps']), x(g('steps'))
                            if None in (k, a, b, c) or not c: return None
                            if not 0 <= k < c: return k + 1
                            if idle: return 0
                            return k if a * c - b * c / 256 - b <= k * b <= (a + 1) * c + b * c / 256 else k + 1
                        m = agree(t, g('step'), kept, deps + [g('step'), g('steps')])
                        if m: return 'the position within the phase is %s' % m
                        def per(x):
                            c, p = x(g('steps')), x(peak)
                            return None if not c or p is None else UP[phase] * quot(p, c)
                        m = agree(t, g('stepDelta'), per, [peak, g('steps')])
                        if m: return 'one step changes the value by %s' % m
                        def at(x):
                            c, p, k = x(g('steps')), x(peak), x(g('step'))
                            if not c or p is None or k is None: return None
                            q = quot(p, c); return (q * k, q * (c - k), -q * k, -q * (c - k))[phase]
                        m = agree(t, g('value'), at, [peak, g('steps'), g('step')])
                        if m: return 'the value becomes %s' % m
                        m = rounding(w, t, 's', 'roundBias', sh)
                        if m: return m
                    return None
                run(rep, w, 'oscillation-set', inst + (' (idle)' if idle else '') + ': BKIntervalStateSetDeltaAndSteps', 'BKIntervalStateSetDeltaAndSteps', ('s', D, n), judge)
        # without steps nothing moves
        w = World(); w.new('s', 'BKIntervalState'); s = interval(w, 's', sh, lo, hi, 0, 0); pre = w.st.fork()
        run(rep, w, 'oscillation-step', 'switched off oscillation like %s: BKIntervalStateStep' % name, 'BKIntervalStateStep', ('s',),
            lambda st, ret: next(('%s.%s changes' % c[:2] for c in diff_regions(w, pre, st)), None))
        # reading
        for peak in (1, 0, -1):
            w = World(); w.new('s', 'BKIntervalState'); s = interval(w, 's', sh, lo, hi, 0); x_ = mulc(s['depth'], peak); w.set('s', 'value', mulc(x_, 1 << sh))
            def judge(st, ret):
                if eq(st, ret, x_): return None
                m = agree(st, ret, lambda x: x(x_), [x_, s['depth'], s['bias']])
                return 'at %d times its depth, an oscillation reads %s' % (peak, m) if m else None
            run(rep, w, 'oscillation-read', 'oscillation like %s at %d times its depth: BKIntervalStateGetValue' % (name, peak), 'BKIntervalStateGetValue', ('s',), judge)

FX = (('BK_EFFECT_VOLUME_SLIDE', 'BKVolumeSlideFlag', 'volume'), ('BK_EFFECT_PANNING_SLIDE', 'BKPanningSlideFlag', 'panning'), ('BK_EFFECT_PORTAMENTO', 'BKPortamentoFlag', 'note'))
OSC = (('BK_EFFECT_TREMOLO', 'BKTremoloFlag', 'tremolo'), ('BK_EFFECT_VIBRATO', 'BKVibratoFlag', 'vibrato'))
LIM = {'volume': 32767, 'panning': 32767, 'note': 96 * K, 'tremoloDelta': 32767, 'tremoloSteps': 1 << 16, 'vibratoDelta': 1 << 28, 'vibratoSteps': 1 << 16}

def record(name):
    def fn(I, st, a, ins):
        st.ev((name,) + tuple(a))
        return [(st, None)]
    return fn

def fxtrack(flags, rec=True):
    w = World(hooks=Callbacks()); w.ctx('c', 2); w.track('o'); w.call('BKTrackAttach', 'o', 'c', one=False)
    sh = shifts(w.p); s = {}
    for n in LIM: s[n] = slide(w, 'o', sh[n], LIM[n], n + '.')
    for n in s:
        for f, lo in (('volume', 0), ('tremoloDelta', 0), ('tremoloSteps', 0), ('vibratoSteps', 0), ('note', 0)):
            if n == f: w.st.set_s(s[n]['value'], 0, LIM[n] << sh[n]); w.st.set_s(s[n]['end'], 0, LIM[n])
        if n in ('tremoloDelta', 'tremoloSteps', 'vibratoDelta', 'vibratoSteps', 'volume', 'panning', 'note'): w.st.set_s(s[n]['steps'], 0, 1 << 16)
    f = 0
    for x in flags: f |= w.enum(x)
    o = w.off('BKTrack', 'flags')
    w.set('o', 'flags', C(f, 32)); w.st.memo = {}
    if rec:
        for fn in ('BKIntervalStateStep', 'BKIntervalStateSetDeltaAndSteps'): w.p.fn(fn); w.I.summaries[fn] = record(fn)
    return w, sh, s

def combos():
    fs = [f for _, f, _ in FX + OSC]
    out = [tuple(f for i, f in enumerate(fs) if k >> i & 1) for k in range(1 << len(fs))]
    return out + [x + ('BKArpeggioFlag',) for x in out if len(x) in (0, 1, len(fs))]
def ticks(rep, part=0, of=1):
    """one tick of a track: what is enabled advances once when the effect divider is due, nothing else moves"""
    tick = None
    for flags in combos()[part::of]:
        for due in (True, False):
            w, sh, s = fxtrack(flags); tick = tick or c25.slot_tick(w.p)
            w.set('o', 'effectDivider.counter', 0 if due else 3); w.set('o', 'effectDivider.divider', 5)
            if len(flags) > 3:
                # (each oscillation keeps its depth and rate)
                for _, _, n in OSC:
                    for x in (n + 'Delta', n + 'Steps'): s[x]['steps'] = C(0, 32); w.set('o', x + '.steps', 0)
            if 'BKArpeggioFlag' in flags: w.set('o', 'arpeggio.count', C(3, 32))
            for fn in ('BKTonePeriodLookup', 'BKLog2PeriodLookup'): w.I.summaries[fn] = lambda I, st, a, ins: [(st, I.nsym('period', 32, 1 << 22, 1 << 26))]
            w.I.summaries['BKUnitSetAttr'] = lambda I, st, a, ins: [(st, C(0, 32))]
            inst = 'tick of a track with %s, effects %s' % (', '.join(f[2:-4] for f in flags) or 'no effect', 'due' if due else 'not due')
            def judge(st, ret):
                for _, f, n in FX:
                    m = stepped(w, st, 'o', n + '.', sh[n], s[n], due and f in flags)
                    if m: return '%s: %s' % (n, m)
                for _, f, n in OSC:
                    evs = [e for e in st.events() if e[0] in ('BKIntervalStateStep', 'BKIntervalStateSetDeltaAndSteps') and e[1] == P('o', w.off('BKTrack', n))]
                    on = due and f in flags
                    if not on:
                        if evs: return '%s is changed (%s) although it is %s' % (n, evs[0][0], 'not due' if f in flags else 'switched off')
                        for x in (n + 'Delta', n + 'Steps'):
                            m = stepped(w, st, 'o', x + '.', sh[x], s[x], False)
                            if m: return '%s: %s' % (x, m)
                        continue
                    if [e[0] for e in evs].count('BKIntervalStateStep') != 1 or evs[-1][0] != 'BKIntervalStateStep': return '%s advances %d times' % (n, [e[0] for e in evs].count('BKIntervalStateStep'))
                    for t, (a, b) in split(st, [cmp('sgt', s[n + 'Delta']['steps'], C(0, 32)), cmp('sgt', s[n + 'Steps']['steps'], C(0, 32))]):
                        for x, go in ((n + 'Delta', a), (n + 'Steps', b)):
                            m = stepped(w, t, 'o', x + '.', sh[x], s[x], True if go and a == b else None) if a == b else None
                            if m: return '%s: %s' % (x, m)
                        if not (a and b): continue
                        if len(evs) != 2: return 'the depth and rate of %s are not brought up to date' % n
                        for x, got in zip((n + 'Delta', n + 'Steps'), evs[0][2:]):
                            for u, v in w.I.run('BKSlideStateGetValue', [P('o', w.off('BKTrack', x))], t.fork()):
                                if not eq(u, got, v):
                                    m = agree(u, got, lambda y: y(v), [v])
                                    if m: return '%s takes over %s as %s' % (n, x, m)
                return None
            run(rep, w, 'effect-tick', inst, tick, (None, 'o'), judge)

def setting(rep):
    """what setting an effect or a slid value does to the slides of a track"""
    for e, f, n in FX:
        for before in ((), (f,)):
            w, sh, s = fxtrack(before); v = w.I.nsym('steps', 32); w.raw('e', 12); w.st.w('e').cells[0] = (4, v); w.st.memo = {}
            def judge(st, ret):
                if st.const(ret) != 0: return 'setting fails'
                for t, (pos, big, z) in split(st, [cmp('sgt', v, C(0, 32)), cmp('sgt', v, C(1 << 16, 32)), cmp('eq', v, C(0, 32))]):
                    m = set_to(w, t, 'o', n + '.', sh[n], s[n]['end'], C(1 << 16, 32) if big else v if pos else C(0, 32), s[n]['value'])
                    if m: return m
                    on = t.const(w.I.band(t, field(w, t, 'o', 'flags'), w.enum(f))) if hasattr(w.I, 'band') else flagbit(t, field(w, t, 'o', 'flags'), w.enum(f))
                    if on is None or pos and not on or z and on: return '%s steps set, but the effect is %s' % ('no' if z else 'a number of', 'unknown' if on is None else 'on' if on else 'off')
                    for _, _, x in FX:
                        if x == n: continue
                        m = stepped(w, t, 'o', x + '.', sh[x], s[x], False)
                        if m: return '%s: %s' % (x, m)
                return None
            run(rep, w, 'effect-set', 'BKTrackSetEffect %s, %s before' % (e, 'on' if before else 'off'), 'BKTrackSetEffect', ('o', C(w.enum(e), 32), 'e', C(12, 32)), judge)
    for e, f, n in OSC:
        w, sh, s = fxtrack(()); vs = [w.I.nsym('steps', 32, 0, 1 << 16), w.I.nsym('depth', 32, 0, 32767), w.I.nsym('slide', 32, 0, 1 << 16)]; w.raw('e', 12); w.st.w('e').cells.update({4 * i: (4, v) for i, v in enumerate(vs)}); w.st.memo = {}
        def judge(st, ret):
            if st.const(ret) != 0: return 'setting fails'
            evs = [x for x in st.events() if x[0] == 'BKIntervalStateSetDeltaAndSteps']
            for t, (z, off) in split(st, [cmp('eq', vs[2], C(0, 32)), cmp('eq', vs[0], C(0, 32))]):
                for x, v in ((n + 'Delta', vs[1]), (n + 'Steps', vs[0])):
                    m = set_to(w, t, 'o', x + '.', sh[x], v, vs[2], s[x]['value'])
                    if m: return '%s: %s' % (x, m)
                if z and not any(x[1] == P('o', w.off('BKTrack', n)) and eq(t, x[2], vs[1]) and eq(t, x[3], vs[0]) for x in evs): return 'depth and rate do not apply at once'
                if not z and evs: return 'depth and rate apply at once although they shall slide'
                on = flagbit(t, field(w, t, 'o', 'flags'), w.enum(f))
                if on is None or on == off: return 'the effect is %s' % ('unknown' if on is None else 'on' if on else 'off')
            return None
        run(rep, w, 'effect-set', 'BKTrackSetEffect %s' % e, 'BKTrackSetEffect', ('o', C(w.enum(e), 32), 'e', C(12, 32)), judge)
    for a, n, f in (('BK_VOLUME', 'volume', 'BKVolumeSlideFlag'), ('BK_PANNING', 'panning', 'BKPanningSlideFlag'), ('BK_NOTE', 'note', 'BKPortamentoFlag')):
        for playing in (True, False) if n == 'note' else (True,):
            w, sh, s = fxtrack((f,)); v = w.I.nsym('v', 32, -LIM[n] if n == 'panning' else 0, LIM[n])
            w.set('o', 'curNote', w.I.nsym('curNote', 32, 0, 96 * K) if playing else C(-1, 32))
            w.I.summaries['BKUnitSetAttr'] = lambda I, st, a, ins: [(st, C(0, 32))]
            def judge(st, ret):
                if st.const(ret) != 0: return 'setting fails'
                if playing: return set_to(w, st, 'o', n + '.', sh[n], v, s[n]['steps'], s[n]['value'])
                g = lambda x: field(w, st, 'o', n + '.' + x)
                if not eq(st, g('value'), mulc(v, 1 << sh[n])) or not eq(st, g('endValue'), mulc(v, 1 << sh[n])): return 'the first note does not sound at once'
                return '%s steps remain' % show(g('step')) if st.rng(g('step'))[1] > 0 else None
            run(rep, w, 'effect-set', 'BKSetAttr %s with %s%s' % (a, f[2:-4], '' if playing else ', silent before'), 'BKSetAttr', ('o', C(w.enum(a), 32), v), judge)

def flagbit(st, t, m):
    b = bits_of(st.simp(t))[m.bit_length() - 1]
    return bool(b) if b in (0, 1) else None

PARTS = [('slides', slides), ('intervals', intervals), ('setting', setting)] + [('ticks%d' % k, lambda r, k=k: ticks(r, k, 12)) for k in range(12)]
def part(i):
    r = Report('C33', i[1]); dict(PARTS)[i[0]](r); return r

EXPL = ('Abstract interpretation: a slide or oscillation in any state it can be in is set, stepped, halted and read once, with any target, number of steps and remaining steps; a step must '
        'take off exactly one of the remaining steps and the last one must end on the target, and setting must leave exactly the requested number to go, so the number of steps to the target '
        'follows by induction. The value of derived quantities (change per step, position, rounding) is compared with its definition on the summarised terms of each path. A tick and every '
        'setter of a track are run with each effect on and off: enabled effects advance once, others stay.')
def check(rep):
    for r in presults(part, [(n, rep.tier) for n, _ in PARTS]): rep.merge(r)
    for r, n in (('slide-set', 15), ('slide-step', 12), ('slide-read', 3), ('oscillation-step', 10), ('oscillation-set', 16), ('oscillation-read', 6), ('effect-tick', 30), ('effect-set', 12)): rep.need(r, n)
    return rep.finish('other', EXPL, program())
