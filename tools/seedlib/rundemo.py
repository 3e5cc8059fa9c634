"""build the repository's sources with stand-ins for the unavailable dependencies, attach demo.rs and run it"""
import os, re, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "shadow"))
import mkshadow
repo = sys.argv[1]
tmp = tempfile.mkdtemp(prefix="demo")
try:
    ws, tgt = tmp + "/ws", tmp + "/target"
    m = re.match(r"//@ in (\S+) as (\S+)", open(here + "/demo.rs").readline())
    host = "//@ host" in open(here + "/demo.rs").read()
    mods = [(x, here + f"/{x}.rs") for x in (("vh", "vhb") if host else ("vhb",))]
    mkshadow.build(ws, repo, harness={**{m.group(1): [("seeded_demo", here + "/demo.rs")]}, "src/lib.rs": mods + ([("seeded_demo", here + "/demo.rs")] if m.group(1) == "src/lib.rs" else [])}, host=host)
    lib = ws + "/minter/src/lib.rs"
    mkshadow.write(lib, open(lib).read() + f"\npub fn seeded_demo_main() {{ {"ic0::host::setup(); " if host else ""}{m.group(2)}::seeded_demo::run() }}\n")
    mkshadow.write(ws + "/minter/src/bin/demo.rs", "fn main() { evm_minter::seeded_demo_main() }\n")
    os.makedirs(tgt + "/debug")
    for s in ("deps", "build", ".fingerprint"):
        if os.path.isdir("/opt/vp/ws/target/debug/" + s):
            subprocess.run(["cp", "-a", "/opt/vp/ws/target/debug/" + s, tgt + "/debug"])
    e = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="1.83.0", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="")
    e["PATH"] = "/root/.cargo/bin:" + e["PATH"]
    e.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo", "rustc", "-q", "-p", "evm_minter", "--bin", "demo", "--offline", "--", "-C", "relocation-model=static"], cwd=ws, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print("\n".join(l for l in p.stdout.splitlines() if "warning" not in l)[-3000:])
        sys.exit(3)
    p = subprocess.run([tgt + "/debug/demo"], timeout=120, cwd=tmp)
    sys.exit(0 if p.returncode == 0 else 1)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
