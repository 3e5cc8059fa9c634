"""python3-vt -m mirv.dev c01 [filter]: run the contracts of one property and print a summary (development aid)"""
import importlib, os, sys, time
os.environ.setdefault("VERIF_WORK", "/tmp/w/work")
from . import spec
t0 = time.time()
eng = spec.load_engine()
print("load", round(time.time() - t0, 1))
m = importlib.import_module("specs." + sys.argv[1])
engs = {}
flt = sys.argv[2] if len(sys.argv) > 2 else ""
v = len(sys.argv) > 3
for u in m.units:
    if flt in u.name:
        r = spec.verify(eng if u.crate == 'evm_minter' else engs.setdefault(u.crate, None) or engs.__setitem__(u.crate, spec.load_engine(None, u.crate)) or engs[u.crate], u)
        ok = sum(o.result == "proved" for o in r.obligations)
        print(f"{r.status:9} {u.name} {ok}/{len(r.obligations)} paths={r.paths} traps={r.traps} {r.seconds:.1f}s {r.reason[:300]}")
        for o in r.obligations:
            if o.result != "proved":
                print("   ", o.result, o.name, o.detail[:int(os.environ.get("DET","300")) if v else 150].replace("\n", "; "))
        if v and r.status == "undecided" and hasattr(r, "trace"):
            print(r.trace[-900:])
        if v and r.unknown:
            print("   unknown:", r.unknown)
