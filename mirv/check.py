"""python3-vt -m mirv.check <property> <quick|thorough>: decide one property on /repo's current tree."""
import importlib, json, multiprocessing, os, sys, time, traceback

T0 = time.time()
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(path, d):
    try:
        return json.load(open(path))
    except (OSError, ValueError):
        return d


ENG = {}


def _unit(job):
    mod, i, budget = job
    from . import spec
    u = importlib.import_module(mod).units[i]
    eng = ENG[getattr(u, "crate", "evm_minter")]
    try:
        r = spec.verify(eng, u, budget)
    except Exception as ex:   # a crash of the verifier is never an alarm
        return dict(unit=u.name, i=i, status="undecided", reason=f"verifier error {type(ex).__name__}: {ex}", obligations=[], functions=[], models=[], unknown=[], seconds=0, paths=0, traps=0, note=u.note)
    return dict(unit=u.name, i=i, status=r.status, reason=r.reason, seconds=round(r.seconds, 2), paths=r.paths, traps=r.traps, note=u.note,
                obligations=[(o.name, o.result, round(o.seconds, 3), o.detail if o.result != "proved" else "") for o in r.obligations],
                functions=sorted(r.functions), models=sorted(r.models), unknown=sorted(r.unknown))


def contracts(prop, budget, jobs=8, total=3000, cut=lambda: None):
    """-> list of unit results; the whole takes at most `total` seconds, and stops at cut() when that gives a time"""
    from . import spec, build
    mod = "specs." + prop.lower()
    m = importlib.import_module(mod)
    b = build.mir()
    for crate in sorted({getattr(u, "crate", "evm_minter") for u in m.units}):
        ENG[crate] = spec.load_engine(b, crate)
    return run_all([(mod, i, budget) for i in range(len(m.units))], [u.name for u in m.units], jobs, 2 * budget, time.time() + total, cut)


MEM = 2400      # MB per verifier process


def _child(job, conn):
    import resource, z3
    z3.set_param("memory_max_size", MEM)
    lim = (MEM + 1000) << 20
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    try:
        r = _unit(job)
    except BaseException as ex:     # a verifier that runs out of memory is never an alarm
        r = _none(job[1], "?", f"verifier stopped: {type(ex).__name__}")
    conn.send(r)
    conn.close()


def _none(i, name, why):
    return dict(unit=name, i=i, status="undecided", reason=why, obligations=[], functions=[], models=[], unknown=[], seconds=0, paths=0, traps=0, note="")


def run_all(jobs, names, width, limit, end, cut):
    """every unit in a process of its own; a process that dies or overruns leaves its unit undecided"""
    from multiprocessing.connection import wait
    ctx = multiprocessing.get_context("fork")
    todo, live, res = list(jobs), {}, {}
    while todo or live:
        while todo and len(live) < width:
            j = todo.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(j, b), daemon=True)
            p.start()
            b.close()
            live[a] = (p, j, time.time())
        ready = wait(list(live), timeout=5)
        for a in ready:
            p, j, _ = live.pop(a)
            try:
                res[j[1]] = a.recv()
            except EOFError:
                res[j[1]] = _none(j[1], names[j[1]], "verifier process died")
            res[j[1]]["unit"] = names[j[1]]
            p.join(5)
        stop = min(end, cut() or end)
        if time.time() > stop:
            res.update({j[1]: _none(j[1], names[j[1]], "time limit (deadline)") for j in todo})
            todo = []
        for a, (p, j, t) in list(live.items()):
            if time.time() > min(t + limit, stop):
                p.kill()
                live.pop(a)
                res[j[1]] = _none(j[1], names[j[1]], "time limit (deadline)")
    return [res[k] for k in sorted(res)]


def judge(units, base):
    """failed: obligations that fail (or that the solver gives up on) in code the verifier understands completely"""
    failed, undecided, proved = [], [], []
    for u in units:
        bad = [o for o in u["obligations"] if o[1] == "failed" or o[1] == "unknown" and "deadline" not in o[3]]
        known = set(base.get(u["unit"], []))
        new = [x for x in u["unknown"] if x not in known]
        if u["status"] == "ok":
            proved.append(u)
        elif bad and not new and (u["status"] == "failed" or u["reason"].startswith("solver gave up")):
            failed.append((u, bad))
        else:
            if new and u["status"] == "failed":
                u["reason"] = "fails only with calls the verifier does not know: " + ", ".join(new[:4])
            undecided.append(u)
    return failed, undecided, proved


def start_oracle(prop, seconds, seed, tier):
    import subprocess
    return subprocess.Popen([sys.executable, "-m", "mirv.oracle", prop, str(seconds), str(seed), tier], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


class Watch:
    """an oracle run read in the background"""
    def __init__(self, p):
        import threading
        self.res, self.hit = None, None
        self.t = threading.Thread(target=self._read, args=(p,), daemon=True)
        self.t.start()

    def _read(self, p):
        self.res = end_oracle(p)
        if self.res["failures"]:
            self.hit = time.time()

    def end(self):
        self.t.join()
        return self.res


def end_oracle(p):
    out, err = p.communicate()
    try:
        return json.loads(out)
    except ValueError:
        return {"ran": False, "why": "oracle driver failed: " + err[-1000:], "failures": [], "cases": {}}


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))}
    base = load(os.path.join(VERIF, "specs/baseline.json"), {}).get(prop, {})
    findings = [f for f in load(os.path.join(VERIF, "known_findings.json"), {"findings": []})["findings"] if f["property"] == prop]
    from . import build, oracle
    os.makedirs(build.WORK, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    broken, units = "", []
    # the oracle is built and run next to the proofs
    orc = Watch(start_oracle(prop, 10 if tier == "quick" else 120, seed, tier)) if oracle.exists(prop) else None
    # once a failing input is known, the obligations only add detail
    cut = lambda: orc.hit + (60 if tier == "quick" else 600) if orc and orc.hit and not findings_open else None
    findings_open = [f for f in findings if f.get("status") != "fixed"]
    try:
        units = contracts(prop, 240 if tier == "quick" else 600, total=560 if tier == "quick" else 3000, cut=cut)
    except Exception as ex:
        broken = f"{type(ex).__name__}: {ex}"
        traceback.print_exc()
    ores = orc.end() if orc else {"ran": False, "why": "no executable oracle for this property", "failures": [], "cases": {}}
    failed, undecided, proved = judge(units, base)
    if (failed or undecided) and ores["ran"] and not ores["failures"]:
        more = end_oracle(start_oracle(prop, 60 if tier == "quick" else 240, seed + 1, tier))     # look harder for a failing input
        ores["failures"] += more["failures"]
        for k, v in more["cases"].items():
            ores["cases"].setdefault(k, {"cases": 0, "distinct": 0})
            ores["cases"][k] = {x: ores["cases"][k][x] + v[x] for x in v}
    known, fresh = [], []
    for f in ores["failures"]:
        k = next((x for x in findings if x.get("status") != "fixed" and x["match"] in f["name"] + " :: " + f["input"]), None)
        (known if k else fresh).append((k, f))
    for x in findings:
        if x.get("status") != "fixed":
            print(f"KNOWN-FINDING: property={prop} {x['what']}")
    obl = [o for u in units for o in u["obligations"]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": len(obl), "discharged": sum(o[1] == "proved" for o in obl),
            "checker_cmd": f"cd /verif && bash check.sh {prop} {tier}",
            "back_end": "mirv (contracts over rustc 1.83 MIR) with z3 " + _z3(),
            "solver_seconds": round(sum(o[2] for o in obl), 1),
            "units_under_contract": [{"function": u["unit"], "status": u["status"], "obligations": len(u["obligations"]),
                                      "discharged": sum(o[1] == "proved" for o in u["obligations"]), "returning_paths": u["paths"], "trap_paths": u["traps"],
                                      "seconds": u["seconds"], "reason": u["reason"][:300], "note": u["note"]} for u in units],
            "functions_executed_symbolically": sorted({f for u in units for f in u["functions"]}),
            "trusted_base": sorted({"model: " + m for u in units for m in u["models"]} | {"arbitrary result: " + m for u in units for m in u["unknown"]}) + TRUST,
            "bounded_oracle": {"label": "bounded: sampled executions of the real code, not counted as proved", "ran": ores["ran"], "why_not": ores.get("why", ""), "cases": ores["cases"]},
            "undecided": [{"function": u["unit"], "why": u["reason"][:500]} for u in undecided] + ([{"function": "(all)", "why": broken[:2000]}] if broken else []),
            "failed_obligations": [{"function": u["unit"], "obligation": o[0], "result": o[1]} for u, b in failed for o in b][:50],
            "known_findings_seen": [k["what"] for k, _ in known],
        },
        "wall_s": round(time.time() - T0, 1),
        "assumptions": TRUST,
        "violations": len(fresh) + len(failed),
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop} {tier}: {len(proved)}/{len(units)} functions proved, {ev['coverage']['discharged']}/{len(obl)} obligations, oracle {ores['cases'] or ores.get('why', '')[:80]}, {ev['wall_s']} s")
    for u in undecided:
        print(f"  undecided: {u['unit']}: {u['reason'][:200]}")
    if broken:
        print("  undecided: " + broken[:1500])
    if not failed and not fresh:
        return 0 if proved or ores["ran"] else 2   # 2: nothing could be decided
    rp = os.path.join(build.WORK, "replay")
    os.makedirs(rp, exist_ok=True)
    rp = os.path.join(rp, prop + ".txt")
    with open(rp, "w") as f:
        f.write(f"property {prop}: {props.get(prop, {}).get('title', '')}\nreplay: cd /verif && VERIF_SEED={seed} bash check.sh {prop} {tier}\n")
        for _, x in fresh:
            f.write(f"\nfailing input against the real code\n  check: {x['name']}\n  input: {x['input']}\n")
        for u, b in failed:
            for o in b:
                f.write(f"\nfailed obligation\n  function: {u['unit']}\n  obligation: {o[0]}\n  verifier: {o[1]}\n  counterexample of the verifier:\n    " + o[3][:4000].replace("\n", "\n    ") + "\n")
    for _, x in fresh[:6]:
        print(f"  failing input: {x['name']} :: {x['input'][:300]}")
    for u, b in failed:
        print(f"  failed: {u['unit']}: " + "; ".join(f"{o[0]} ({o[1]})" for o in b[:6]))
    print(f"VIOLATION property={prop} replay={rp}" + ("" if fresh else " no-failing-input-found"))
    return 1


TRUST = [
    "rustc 1.83 front end and MIR construction; z3",
    "mirv's MIR semantics and its models of std / candid / num / dependency functions (listed as model: ...)",
    "stand-in crates for the dependencies that are not in the sandbox (shadow/standins)",
    "a panic rolls the canister message back (Internet Computer semantics): a trapping path changes no state",
    "memory exhaustion and instruction limits are not modelled; lengths of collections are mathematical integers below 2^64",
]


def _z3():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    sys.exit(main())
