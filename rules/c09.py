"""C09: stored settings never leave their documented range."""
from states import *
import ops as O

KINDS = ('unit', 'track')
def job(a):
    State.SETTLE = True
    kind, cfg, att, i, tier = a; rep = Report('C09', tier)
    op = getop(kind, i)
    if kind in KINDS: w = arbitrary(kind, cfg, att)
    else: w = anyobj(kind, cfg, op, None, tier)
    if op.label == 'tick': w.I.MAXRET = 6 if tier == 'quick' else 24; w.I.MAXSTATES = 4 if tier == 'quick' else 12
    pre, fn, outs = O.go(w, op); n = 0
    inst = '%s (%s%s) %s' % (kind, cfg, '' if kind not in KINDS or att else ', free', op.label)
    res = {}
    for st, v in outs:
        if fn == 'BKDispose': continue
        if kind == 'new' and (v is None or st.rng(v)[0] < 0): continue
        for rid, t, grp, label, ok, msg in checks(w, st, pre):
            if grp != 'range': continue
            k = (t, label); res.setdefault(k, None)
            if not ok: res[k] = (rid, msg)
    for (t, label), bad in res.items():
        rep.ob('range', bad is None, '%s: %s of %s' % (inst, label, t), fn, '%s: %s' % bad if bad else '', key='%s/%s/%s' % (op.label, t, label))
    rep.funcs |= w.I.visited_fn; rep.count('outcomes', len(outs))
    return rep

def jobs(tier):
    out = [(k, c, at, i, tier) for k in KINDS for c in CFGS for at in (True, False) if at or tier != 'quick' or c in ('square', 'sample') for i in range(len(O.ops(k)))]
    return out + [(k, v, None, i, tier) for k, v, i in allops(tier) if k not in KINDS]

EXPL = ('Abstract interpretation: every public operation with any arguments, and every clock tick, is run from an object in any state within the documented '
        'ranges (units and tracks with every waveform, attached and not; data, contexts, dividers, clocks, instruments and newly created objects); on every '
        'path the settings of every changed object are within their range again (range), so they stay there for any sequence of calls.')
def check(rep):
    for r in presults(job, jobs(rep.tier)): rep.merge(r)
    rep.need('range', 1000)
    return rep.finish('other', EXPL, program())
