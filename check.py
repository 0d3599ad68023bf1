#!/usr/bin/env python3
"""check.py <property id> [--dump]: decide one property from /repo's current source."""
import sys, os, importlib, traceback, resource
if os.environ.get('PYTHONHASHSEED') != '0':          # the same order of work in every run
    os.environ['PYTHONHASHSEED'] = '0'; os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa import prog, report

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    m = importlib.import_module('sa.checks.' + pid.lower())
    R = report.Report(pid)
    try:
        P = prog.load(omp=getattr(m, 'OMP', False))
        R.count('translation_units', len(P.mods)); R.count('functions', len(P.fns))
        m.run(P, R, tier)
    except prog.AnalysisError as e:
        print('ANALYSIS-ERROR property=%s: %s' % (pid, e)); sys.exit(2)
    except Exception:
        traceback.print_exc(); print('ANALYSIS-ERROR property=%s' % pid); sys.exit(2)
    sys.exit(R.finish(tier, seed, (m.__doc__ or '').strip().rstrip('.')))
main()
