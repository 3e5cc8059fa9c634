"""Executable oracle: the property's checks run against the real compiled code (a bounded stand-in for what
the contracts do not reach, and the search for a failing input when an obligation fails)."""
import glob, json, os, re, subprocess, sys
from . import build as B

HDIR = os.path.join(B.VERIF, "harness")


def files(prop):
    return sorted(glob.glob(os.path.join(HDIR, prop.lower() + "*.rs")))


def exists(prop):
    return bool(files(prop))


def make(prop):
    """-> path of the runner binary; raises on build failure"""
    ws = os.path.join(B.WORK, "orws_" + prop)
    tgt = os.path.join(B.WORK, "ortarget")
    harness, calls = {"src/lib.rs": [(m, os.path.join(HDIR, m + ".rs")) for m in ("vh", "vhb")]}, []
    for f in files(prop):
        head = open(f).readline()
        m = re.match(r"//@ in (\S+) as (\S+)", head)
        if not m:
            raise RuntimeError("harness header: " + f)
        rel, path = m.groups()
        mod = "vh_" + os.path.basename(f)[:-3]
        if not os.path.exists(os.path.join(B.REPO, "minter", rel)):
            raise RuntimeError("anchor lost: " + rel)
        harness.setdefault(rel, []).append((mod, f))
        calls.append(("crate" if path == "crate" else path) + "::" + mod)
    B.mkshadow.build(ws, B.REPO, harness=harness, host=True)
    B.mkshadow.write(os.path.join(ws, "minter/src/vhmain.rs"),
                     "pub fn main() {\n    ic0::host::setup();\n" + "".join(f"    crate::vh::section({c.split('::')[-1]!r}, {c}::run);\n".replace("'", '"') for c in calls) + "    crate::vh::finish();\n}\n")
    lib = os.path.join(ws, "minter/src/lib.rs")
    B.mkshadow.write(lib, open(lib).read() + "\npub mod vhmain;\n")
    B.mkshadow.write(os.path.join(ws, "minter/src/bin/vrun.rs"), "fn main() { evm_minter::vhmain::main() }\n")
    B.seed_target(tgt)
    e = B.env({"CARGO_TARGET_DIR": tgt, "CARGO_PROFILE_DEV_OPT_LEVEL": "0"})
    p = subprocess.run(["cargo", "rustc", "-q", "-p", "evm_minter", "--bin", "vrun", "--offline", "--", "-C", "relocation-model=static"], cwd=ws, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise RuntimeError("oracle build failed:\n" + "\n".join(l for l in p.stdout.splitlines() if "error" in l or "-->" in l)[:3000])
    return os.path.join(tgt, "debug/vrun")


def run(prop, seconds, seed, tier):
    """-> dict(ran, failures=[{name,input}], cases={section: n})"""
    try:
        exe = make(prop)
    except RuntimeError as ex:
        return {"ran": False, "why": str(ex)[:3000], "failures": [], "cases": {}}
    e = dict(os.environ, VERIF_SEED=str(seed), VH_SECONDS=str(seconds), VERIF_TIER=tier, RUST_BACKTRACE="0")
    try:
        p = subprocess.run([exe], env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=seconds * 3 + 60, cwd=B.WORK)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as ex:
        out, rc = (ex.stdout or b"").decode(errors="replace") if isinstance(ex.stdout, bytes) else (ex.stdout or ""), "timeout"
    res = {"ran": True, "failures": [], "cases": {}, "rc": rc}
    for l in out.splitlines():
        if l.startswith("FAIL "):
            n, _, i = l[5:].partition(" :: ")
            res["failures"].append({"name": n, "input": i})
        elif l.startswith("BROKEN "):
            res.setdefault("broken", []).append(l)
        elif l.startswith("CASES "):
            _, s, n, d = l.split()
            res["cases"][s] = {"cases": int(n), "distinct": int(d)}
    return res


if __name__ == "__main__":
    a = sys.argv[1:] + ["5", str(os.environ.get("VERIF_SEED", "1")), "quick"][len(sys.argv) - 2:]
    print(json.dumps(run(a[0], float(a[1]), int(a[2]), a[3]), indent=1))
