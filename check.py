#!/usr/bin/env python3
"""check.py ID  -- decide one property of the current /repo tree.
exit 0 holds, 1 violated (VIOLATION line), 3 analysis broken."""
import sys, os, importlib, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, 'engine'), os.path.join(V, 'rules'), V]
sys.dont_write_bytecode = True
def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    import ir
    from report import Report
    try:
        rule = importlib.import_module(pid.lower())
        rep = Report(pid, tier)
        rc = rule.check(rep)
    except ir.AnalysisBroken as e:
        print('%s: analysis broken: %s' % (pid, e)); 
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
        return 3
    except Exception:
        traceback.print_exc(); return 3
    return rc
if __name__ == '__main__':
    import threading
    threading.stack_size(512 << 20)
    r = []
    t = threading.Thread(target=lambda: r.append(main())); t.start(); t.join()
    sys.stdout.flush()
    os._exit(r[0] if r else 3)
