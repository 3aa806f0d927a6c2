"""python3 -m sa.dbg QUAL [inline,...]: prints the abstract paths of a function."""
import sys, signal
signal.signal(signal.SIGPIPE, signal.SIG_DFL)
from .core import Ctx
from .flow import show

def fmt(p, limit=400):
    for l in p.trace(limit):
        print("   ", l)

if __name__ == "__main__":
    ctx = Ctx()
    inl = sys.argv[2].split(",") if len(sys.argv) > 2 and sys.argv[2] else []
    ps = ctx.paths(sys.argv[1], inline=inl)
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 20
    print(len(ps), "paths; inlined", sorted(ps[0].inlined))
    for i, p in enumerate(ps[:n]):
        print("--", i)
        fmt(p)
