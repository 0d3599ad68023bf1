"""Rewrites sa/tables/defaults.json from the current tree (to be reviewed by hand against the documentation)."""
import sys,json; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from sa import prog, mods
from sa.checks import c12
P=prog.load(); M=mods.compute(P)
T={n:c12.measure(P,M,n) for n in c12.names(P)}
json.dump(T,open('/verif/sa/tables/defaults.json','w'),indent=0,sort_keys=True)
