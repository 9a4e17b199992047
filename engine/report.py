"""Obligation bookkeeping, evidence and verdicts of one check."""
import json, os, sys, time, traceback, hashlib
from ir import AnalysisBroken, VERIF

KNOWN = os.path.join(VERIF, 'known_findings.txt')

def known_for(pid):
    """(property, key) pairs of recorded, unrepaired defects"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('finding: property=%s key=' % pid):
                k, _, txt = l.split(' key=', 1)[1].partition(' | ')
                out[k.strip()] = txt
    return out

class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obl = {}            # rule -> [count, discharged]
        self.viol = {}           # key -> dict
        self.samples = []
        self.stats = {}
        self.funcs = set()
        self.notes = []
        self.assumptions = []
        self.minimum = {}
    def count(self, k, n=1): self.stats[k] = self.stats.get(k, 0) + n
    def ob(self, rule, ok, inst='', where='', msg='', path=None, key=None):
        """one obligation of `rule` at instance `inst`"""
        o = self.obl.setdefault(rule, [0, 0]); o[0] += 1
        if ok:
            o[1] += 1
            if len(self.samples) < 40 and o[0] in (1, 2, 3): self.samples.append({'rule': rule, 'instance': inst, 'where': where, 'verdict': 'holds'})
            return True
        k = key or '%s/%s' % (rule, inst)
        v = self.viol.get(k)
        if v is None:
            self.viol[k] = {'rule': rule, 'instance': inst, 'where': where, 'message': msg, 'path': path, 'count': 1}
        else: v['count'] += 1
        return False
    def need(self, rule, n):
        """rule must have at least n instances, else the analysis is broken"""
        self.minimum[rule] = n
    def merge(self, o):
        for r, (a, b) in o.obl.items():
            x = self.obl.setdefault(r, [0, 0]); x[0] += a; x[1] += b
        for k, v in o.viol.items():
            if k in self.viol: self.viol[k]['count'] += v['count']
            else: self.viol[k] = v
        if len(self.samples) < 60: self.samples += o.samples[:60 - len(self.samples)]
        for k, n in o.stats.items(): self.stats[k] = self.stats.get(k, 0) + n
        self.funcs |= o.funcs
        self.notes += [n for n in o.notes if n not in self.notes]
        for k, n in o.minimum.items(): self.minimum[k] = n
        return self
    def finish(self, level, explanation, prog=None, technique=''):
        for r, n in self.minimum.items():
            c = self.obl.get(r, [0, 0])[0]
            if c < n and not self.viol:
                raise AnalysisBroken('rule %s matched %d instances, expected at least %d' % (r, c, n))
        if not self.obl: raise AnalysisBroken('no obligations were generated')
        known = known_for(self.pid)
        kf = {k: v for k, v in self.viol.items() if k in known}
        nv = {k: v for k, v in self.viol.items() if k not in known}
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
              'coverage': {'explanation': explanation,
                           'obligations': sum(o[0] for o in self.obl.values()), 'discharged': sum(o[1] for o in self.obl.values()),
                           'rules': {r: {'instances': a, 'discharged': b} for r, (a, b) in sorted(self.obl.items())},
                           'functions_analysed': sorted(self.funcs), 'units': prog.units if prog else [],
                           'statistics': self.stats, 'samples': self.samples[:40], 'notes': self.notes[:60],
                           'checker_cmd': 'python3 check.py %s' % self.pid,
                           'trusted_base': ['clang 18 front end and mem2reg', 'engine/ (exporter, abstract interpreter)', 'rules/%s.py' % self.pid.lower()]},
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(nv)}
        d = os.environ.get('BK_EVIDENCE') or os.path.join(VERIF, 'evidence'); os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.pid + '.json'), 'w'), indent=1)
        print('%s: %d obligations, %d discharged, %d functions analysed, %.1f s' % (self.pid, ev['coverage']['obligations'], ev['coverage']['discharged'], len(self.funcs), ev['wall_s']))
        for r, (a, b) in sorted(self.obl.items()): print('  rule %-40s %5d instances, %5d hold' % (r, a, b))
        for k, v in kf.items():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, known[k] or k))
        if not nv: return 0
        for f in os.listdir(d):
            if f.startswith(self.pid + '-violation'): os.unlink(os.path.join(d, f))
        for i, (k, v) in enumerate(nv.items()):
            p = os.path.join(d, '%s-violation-%d.json' % (self.pid, i + 1))
            v = dict(v); v['key'] = k; v['property'] = self.pid
            json.dump(v, open(p, 'w'), indent=1, default=str)
            if i < 25:
                print('  %s: rule %s at %s: %s' % (v['where'], v['rule'], v['instance'], v['message']))
                if v.get('path'): print('     path: %s' % (v['path'],))
                print('VIOLATION property=%s replay=evidence/%s' % (self.pid, os.path.basename(p)))
        if len(nv) > 25: print('  ... and %d more' % (len(nv) - 25))
        return 1
