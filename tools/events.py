"""python3 tools/events.py QUAL [PREDICATE on p] [INDEX] [--iter]: the events of a path (development)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.core import Ctx
from sa.flow import show
ctx=Ctx()
it = "--iter" in sys.argv
argv=[a for a in sys.argv if a!="--iter"]
q=argv[1]; pick=eval(argv[2]) if len(argv)>2 else (lambda p: True)
ps=[p for p in (ctx.iterations(q) if it else ctx.paths(q)) if pick(p)]
print(len(ps), [ (k, sum(1 for p in ps if p.kind==k)) for k in set(p.kind for p in ps)])
p=max(ps,key=lambda p:len(p.events)) if len(argv)<4 else ps[int(argv[3])]
for i,e in enumerate(p.events):
    print(i,str(e[0]), *[ (show(x) if isinstance(x,tuple) and x and isinstance(x[0],str) else ','.join(show(y) if isinstance(y,tuple) and y and isinstance(y[0],str) else str(y)[:40] for y in x) if isinstance(x,tuple) else str(x)[:60]) for x in e[1:-1]], sep=' | ')
print(p.kind, show(p.val) if isinstance(p.val,tuple) else p.val)
