"""Rewrites sa/tables/settings.json from the current tree (to be reviewed by hand against the documentation)."""
import sys,json; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from sa import prog, mods
from sa.checks import c13
P=prog.load(); M=mods.compute(P)
T={}
for g in c13.groups(P): T[g]=c13.measure(P,M,g)
for g in ('apop_arms','apop_loess','apop_fix_params'): print(g,T[g])
T={g:{k:[x for x in v if not c13.unknown(x)] or v for k,v in d.items()} for g,d in T.items()}
json.dump(T,open('/verif/sa/tables/settings.json','w'),indent=0,sort_keys=True)
W=c13.measure_pairs(P,M,T)
for g in W:
    for k in W[g]: print(g,k,W[g][k])
json.dump(W,open('/verif/sa/tables/settings_pairs.json','w'),indent=0,sort_keys=True)
