"""python3-vt -m mirv.show <function> [crate]: print its MIR and its closures' (development aid)"""
import os, sys, re
os.environ.setdefault("VERIF_WORK", "/tmp/w/work")
from . import spec
e = spec.load_engine(None, sys.argv[2] if len(sys.argv) > 2 else "evm_minter")
b = e.find(sys.argv[1])
def show(b):
    b.parse()
    t = b.text if isinstance(b.text, str) else "\n".join(b.text)
    t = "\n".join(l for l in t.split("\n") if not re.match(r"\s*(scope|debug|Storage|\}|$)", l) and "StorageDead" not in l and "StorageLive" not in l)
    print(b.header[:300]); print(t)
show(b)
for n in e.prog.names() if hasattr(e.prog, "names") else e.prog.bodies:
    if n.startswith(b.name + "::{"):
        show(e.prog.get(n) or e.prog.bodies[n])
