"""Shadow build: compile /repo's current sources (plus stand-ins) and dump rustc's MIR."""
import os, shutil, subprocess, sys, hashlib, json, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "shadow"))
import mkshadow  # noqa: E402
from .srcdefs import add_probes  # noqa: E402

WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
REPO = os.environ.get("VERIF_REPO", "/repo")


def env(extra=None):
    e = dict(os.environ)
    e.update({"HOME": "/root", "PATH": "/root/.cargo/bin:" + e.get("PATH", ""), "RUSTUP_TOOLCHAIN": "1.83.0",
              "CARGO_NET_OFFLINE": "true", "RUSTC_WRAPPER": "", "CARGO_TERM_COLOR": "never", "CARGO_INCREMENTAL": "0",
              "CARGO_PROFILE_DEV_DEBUG": "line-tables-only"})
    e.pop("RUSTFLAGS", None)
    e.update(extra or {})
    return e


def seed_target(tgt):
    """start from the baseline's compiled dependencies (copied, never linked)."""
    d = os.path.join(tgt, "debug")
    if os.path.isdir(os.path.join(d, "deps")):
        return
    os.makedirs(d, exist_ok=True)
    for s in ("deps", "build", ".fingerprint"):
        src = f"/opt/vp/ws/target/debug/{s}"
        if os.path.isdir(src):
            subprocess.run(["cp", "-a", src, d], check=False)


def mir(log=None):
    """-> dict(ws, all_mir, dump, rpc_mir, rpc_dump, files); rebuilt when the sources changed."""
    ws = os.path.join(WORK, "mirws")
    tgt = os.path.join(WORK, "mirtarget")
    os.makedirs(WORK, exist_ok=True)
    mkshadow.build(ws, REPO, transform=lambda pkg, rel, text: add_probes(text) if "/tests" not in rel else text)
    key = hashlib.sha256(open(os.path.abspath(__file__), "rb").read())
    for pkg in ("minter", "evm_rpc_client"):
        for root, dirs, files in sorted(os.walk(os.path.join(ws, pkg))):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                key.update(p.encode())
                key.update(open(p, "rb").read())
    key = key.hexdigest()
    out = os.path.join(WORK, "mir")
    stamp = os.path.join(out, "stamp")
    res = {"ws": ws}
    crates = [("evm_minter", "minter"), ("evm_rpc_client", "evm_rpc_client")]
    for c, _ in crates:
        res[c] = (os.path.join(out, c + ".mir"), os.path.join(out, c + ".dump"))
    if os.path.exists(stamp) and open(stamp).read() == key:
        return res
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    seed_target(tgt)
    for c, _ in crates:
        m, d = res[c]
        os.makedirs(d)
        e = env({"RUSTC_BOOTSTRAP": "1", "CARGO_TARGET_DIR": tgt})
        with open(m, "w") as f:
            p = subprocess.run(["cargo", "rustc", "-q", "-p", c, "--lib", "--offline", "--", "-Zunpretty=mir",
                                "-Zmir-opt-level=0", "-Zmir-enable-passes=-CheckAlignment", "-Zub-checks=no", "-Ztrim-diagnostic-paths=no", "-Cpanic=abort", "-Adead_code", "-Awarnings",
                                "-Zdump-mir=StateTransform", f"-Zdump-mir-dir={d}"], cwd=ws, env=e, stdout=f,
                               stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            raise RuntimeError("MIR build failed:\n" + p.stderr[-4000:])
        for f in os.listdir(d):
            if not (f.endswith("StateTransform.before.mir") and "{closure#0}" in f):
                os.unlink(os.path.join(d, f))
    with open(stamp, "w") as f:
        f.write(key)
    return res


def source_files(ws, pkg):
    """[(path relative to ws, module path)]"""
    out = []
    base = os.path.join(ws, pkg, "src")
    for root, _, files in os.walk(base):
        for f in files:
            if not f.endswith(".rs"):
                continue
            rel = os.path.relpath(os.path.join(root, f), base)
            parts = rel[:-3].split("/")
            if parts[-1] in ("mod", "lib"):
                parts = parts[:-1]
            out.append((os.path.join(pkg, "src", rel), "::".join(parts)))
    return out


if __name__ == "__main__":
    t = time.time()
    print(mir(), time.time() - t)
