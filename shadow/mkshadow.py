#!/usr/bin/env python3
"""Build a workspace in which ALL of /repo's minter (library and main.rs) compiles offline.

  mkshadow.py WS [--repo /repo]

The sources are /repo's current working-tree files. Dependencies that come from
github.com/dfinity/ic (not fetchable here) are replaced by the stand-ins next to this file.
Appended to some files (never changing existing text): `mod` declarations that give the
harness access to private items."""
import os, re, shutil, sys

HERE = os.path.dirname(os.path.abspath(__file__))
STANDIN = {"ic-crypto-sha2", "ic-management-canister-types", "ic-crypto-secp256k1", "ic-utils-ensure",
           "icrc-ledger-client-cdk", "icrc-ledger-types", "ic-ethereum-types", "phantom_newtype"}
DROP = {"pocket-ic", "ic-crypto-test-utils-reproducible-rng", "ic-icrc1-index-ng", "ic-icrc1-ledger"}
WASM = ["index_ng_canister_u256.wasm.gz", "ledger_canister_u256.wasm.gz",
        "index_ng_canister_u256.raw.wasm", "ledger_canister_u256.raw.wasm"]


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path):
        os.unlink(path)
    if os.path.exists(path):
        with open(path) as f:
            if f.read() == text:
                return
    with open(path, "w") as f:
        f.write(text)


def manifest(repo, drop_dev=True):
    out, section = [], ""
    for line in open(f"{repo}/minter/Cargo.toml"):
        if line.startswith("["):
            section = line.strip()
        m = re.match(r"\s*([\w-]+)\s*=", line)
        name = m.group(1) if m else None
        if name in DROP:
            continue
        if name in STANDIN:
            line = f'{name} = {{ path = "{HERE}/standins/{name}" }}\n'
        out.append(line)
    return "".join(out) + "\n"


def main_as_module(text):
    # main.rs becomes a module of the library; `evm_minter::` resolves through `extern crate self`.
    return text


def build(ws, repo="/repo", harness=None, transform=None, skip_tests=True, host=False):
    """harness: {rel source file: [(modname, path)]} of modules to append; host: system calls answered by the ic0 stand-in."""
    harness = harness or {}
    os.makedirs(f"{ws}/minter/src", exist_ok=True)
    write(f"{ws}/Cargo.toml", open(f"{repo}/Cargo.toml").read() +
          (f'\n[patch.crates-io]\nic0 = {{ path = "{HERE}/standins/ic0-0.23.0" }}\nic0_21 = {{ package = "ic0", path = "{HERE}/standins/ic0-0.21.1" }}\n' if host else '\n[patch.crates-io]\n'))
    lock = open(f"{repo}/Cargo.lock").read()
    if not os.path.exists(f"{ws}/Cargo.lock"):
        write(f"{ws}/Cargo.lock", lock)
    m = manifest(repo)
    if host:
        m = m.replace("[dependencies]", '[dependencies]\nic0 = "0.23.0"\n', 1)
    write(f"{ws}/minter/Cargo.toml", m)
    for w in WASM:
        write(f"{ws}/wasm/{w}", f"stand-in bytes for {w}\n")
    wanted = set()
    for pkg in ("evm_rpc_client", "minter"):
        for root, dirs, files in os.walk(f"{repo}/{pkg}"):
            dirs[:] = [d for d in dirs if d != "target"]
            for f in files:
                full = os.path.join(root, f)
                rel = os.path.relpath(full, f"{repo}/{pkg}")
                out = f"{ws}/{pkg}/{rel}"
                if rel == "Cargo.toml" and pkg == "minter":
                    continue
                if rel == "src/main.rs":
                    out = f"{ws}/{pkg}/src/canister_main.rs"
                wanted.add(out)
                if not f.endswith(".rs"):
                    os.makedirs(os.path.dirname(out), exist_ok=True)
                    shutil.copyfile(full, out)
                    continue
                text = open(full).read()
                if transform:
                    text = transform(pkg, rel, text)
                if pkg == "minter" and rel == "src/lib.rs":
                    text += "\nextern crate self as evm_minter;\n#[path = \"canister_main.rs\"]\npub mod canister_main;\n"
                if pkg == "minter":
                    for mod, path in harness.get(rel, []):
                        text += f'\n#[path = "{path}"]\npub mod {mod};\n'
                write(out, text)
    for pkg in ("evm_rpc_client", "minter"):
        for root, dirs, files in os.walk(f"{ws}/{pkg}"):
            dirs[:] = [d for d in dirs if d != "target"]
            for f in files:
                p = os.path.join(root, f)
                if p.endswith(".rs") and p not in wanted:
                    os.unlink(p)


if __name__ == "__main__":
    build(sys.argv[1])
