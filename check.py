#!/usr/bin/env python3
"""check.py <property id> : decide one property from the current sources of /repo"""
import os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'analyzer')); sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 * 1024 * 1024)
REG = {
    'C01': ('solve', 'C01'), 'C02': ('solve', 'C02'), 'C03': ('solve', 'C03'), 'C04': ('solve', 'C04'), 'C05': ('solve', 'C05'),
    'C11': ('mem', 'C11'), 'C12': ('mem', 'C12'), 'C13': ('mem', 'C13'), 'C15': ('amd', 'C15'), 'C16': ('mem', 'C16'),
    'C22': ('pyext', 'C22'), 'C23': ('pyext', 'C23'), 'C24': ('pyext', 'C24'), 'C25': ('pyext', 'C25'), 'C26': ('pyext', 'C26'), 'C27': ('pyext', 'C27'), 'C28': ('pyext', 'C28'),
    'C14': ('shared', 'C14'), 'C17': ('shared', 'C17'),
    'C20': ('amd', 'C20'), 'C21': ('amd', 'C21'),
    'C08': ('ldl', 'C08'), 'C09': ('ldl', 'C09'), 'C34': ('ldl', 'C34'),
    'C06': ('setup', 'C06'), 'C07': ('setup', 'C07'), 'C10': ('setup', 'C10'), 'C18': ('setup', 'C18'), 'C19': ('setup', 'C19'),
}
def main():
    import importlib, scen
    rc = 0
    for pid in sys.argv[1:]:
        mod, fn = REG[pid]
        rep = scen.Report(pid)
        f = getattr(importlib.import_module(mod), fn)
        try: f(rep)
        except scen.build_ir.BuildError as x:
            rep.add('sources compile', 'undecided', str(x)[:300])
        except Exception as x:
            if os.environ.get('VERIF_DEBUG'): raise
            rep.add('analysis completed', 'undecided', 'internal: %s: %s' % (type(x).__name__, str(x)[:200]))
            traceback.print_exc()
        rc |= scen.finish(rep, rep.level if hasattr(rep, 'level') else 'other', getattr(rep, 'expl', f.__doc__ or ''))
    RC[0] = rc

RC = [2]
t = threading.Thread(target=main); t.start(); t.join()
sys.stdout.flush(); sys.stderr.flush()
os._exit(RC[0])
