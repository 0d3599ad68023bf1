"""Rewrites sa/tables/absent.json from the current tree: what may be missing from which call."""
import sys, json; sys.path.insert(0, '/verif'); sys.setrecursionlimit(20000)
from sa import prog, mods
from sa.checks import c14
P = prog.load(); M = mods.compute(P); T = {}; log = open(sys.argv[1], 'w') if len(sys.argv) > 1 else None
J = [c for k, n in c14.entries(P) for c in c14.cases(P, k)]
for sh in range(len(c14.SHAPES)):
    left = []
    for (n, i, p, sh), s, bad, ex, nd, t in c14.measure(P, M, [j + (sh,) for j in J]):
        if log: print(n, i, p, sh, s, ex, nd, round(t, 1), bad, file=log)
        if s == 'ok' and t < 12:
            if not any(own for _, (_, own) in bad) and ex and nd: T.setdefault(n, []).append((i, p, round(t, 1), 'own' if bad else 'any', sh))
        else: left.append((n, i, p))
    J = left
for v in T.values(): v.sort()
json.dump(T, open('/verif/sa/tables/absent.json', 'w'), indent=0, sort_keys=True)
