#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--nobuild] [--only entry]

Decides one property by symbolic execution of the code in /repo: rebuilds the
LLVM IR of the library from /repo's working tree, runs the property's harness
entries through the llsym engine (path conditions and assertions discharged by
z3), replays every counterexample and a sample of the completed paths on the
natively compiled code, and writes evidence/<PROPERTY>.json.

exit 0: holds within the bounds; 1: VIOLATION; 2: could not be decided."""
import concurrent.futures as cf, fcntl, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from props import PROPS, BOUNDS_COMMON, ASSUMPTIONS_COMMON

LLSYM = f"{V}/engine/target/release/llsym"
PROG = f"{V}/work/prog.ll"
VH = f"{V}/work/vh"


def die(msg):
    print("ERROR:", msg)
    sys.exit(2)


def build():
    os.makedirs(f"{V}/work", exist_ok=True)
    with open(f"{V}/work/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run([f"{V}/build.sh"], capture_output=True, text=True)
        if r.returncode != 0:
            print(r.stdout[-4000:], r.stderr[-4000:])
            die("build of engine/harness against /repo failed")


def run_entry(prop, i, run, tier, outdir, tmul):
    entry, params, opt = run
    out = f"{outdir}/{i}.json"
    cmd = [LLSYM, PROG, entry, "--out", out, "--tests", str(opt.get("tests", 3)), "--max-viol", str(opt.get("max_viol", 12))]
    cmd += ["--timeout", str(int(opt.get("timeout", 240 if tier == "quick" else 3000) * tmul))]
    for k in ("max-paths", "max-steps", "query-timeout"):
        if k in opt:
            cmd += [f"--{k}", str(opt[k])]
    for k, v in params.items():
        cmd += ["--param", f"{k}={v}"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    try:
        j = json.load(open(out))
    except Exception:
        j = {"entry": entry, "status": "error", "err": (r.stdout + r.stderr)[-1500:]}
    j["_params"] = params
    j["_i"] = i
    return j


def native(entry, params, inp, workdir, keep=True, valgrind=False, timeout=60):
    """runs the native build on a concrete input; returns (rc, outs, text)"""
    f = tempfile.NamedTemporaryFile(dir=workdir, delete=False, suffix=".in")
    f.write(bytes.fromhex(inp))
    f.close()
    env = {k: v for k, v in os.environ.items() if not k.startswith("VF_")}
    env["VF_INPUT"] = f.name
    for k, v in params.items():
        env[f"VF_P_{k}"] = str(v)
    if keep:
        env["VF_KEEP_GOING"] = "1"
    cmd = [VH, entry]
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=9"] + cmd
    try:
        r = subprocess.run(cmd, capture_output=True, timeout=timeout, env=env)
        rc, o, e = r.returncode, r.stdout.decode("latin1"), r.stderr.decode("latin1")
    except subprocess.TimeoutExpired as x:
        rc, o, e = "timeout", (x.stdout or b"").decode("latin1"), ""
    outs = [int(m, 16) for m in re.findall(r"^VF_OUT ([0-9a-f]+)$", o, re.M)]
    return rc, outs, o + e


def confirm(v, j, wd):
    """does the counterexample reproduce on the natively compiled code?"""
    rc, _, text = native(j["entry"], j["_params"], v["input"], wd)
    k = v["kind"]
    if k == "assert":
        return f"VF_ASSERT_FAIL {v['msg']}\n" in text, text
    if rc == "timeout":
        return k in ("deadlock",), text
    if k == "panic" or k == "abort" or k == "arith":
        return "panicked at" in text or (isinstance(rc, int) and rc < 0), text
    if k == "alloc":
        return isinstance(rc, int) and (rc < 0 or rc == 101), text
    if k in ("memory", "unreachable"):
        if isinstance(rc, int) and rc < 0:
            return True, text
        rc, _, t2 = native(j["entry"], j["_params"], v["input"], wd, valgrind=True, timeout=240)
        return rc == 9 or (isinstance(rc, int) and rc < 0) or rc > 127, text + t2
    return False, text


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    only = a[a.index("--only") + 1] if "--only" in a else None
    if prop not in PROPS:
        die(f"no such property {prop}")
    P = PROPS[prop]
    t0 = time.time()
    if "--nobuild" not in a:
        build()
    tb = time.time() - t0
    runs = list(P["runs"])
    if tier == "thorough":
        runs += P.get("thorough", [])
    else:
        tier = "quick"
    if only:
        runs = [r for r in runs if r[0] == only]
    wd = tempfile.mkdtemp(prefix=f"chk-{prop}-", dir=f"{V}/work")
    known = []
    kf = f"{V}/known-findings.json"
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k["property"] == prop]
    res = []
    try:
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            order = sorted(range(len(runs)), key=lambda i: -runs[i][2].get("cost", 10))
            fs = [ex.submit(run_entry, prop, i, runs[i], tier, wd, 1.0) for i in order]
            res = [f.result() for f in fs]
        res.sort(key=lambda j: j["_i"])
        viols, errors, seen_known, validated, mism = [], [], set(), 0, []
        for j in res:
            st = j["status"]
            tag = j["entry"] + ("" if not j["_params"] else str(j["_params"]))
            if st == "error":
                errors.append(f"{tag}: engine failed: {j['err']}")
                continue
            print(f"  {tag}: {st} paths={j['paths']} queries={j['queries']} z3={j['z3_calls']} ({j['solver_s']:.1f}s) steps={j['steps']} wall={j['wall_s']}s")
            for v in j["violations"]:
                kfm = next((k for k in known if k["entry"] == j["entry"] and k["msg"] == v["msg"] and k.get("kind", "assert") == v["kind"]), None)
                ok, text = confirm(v, j, wd)
                if not ok:
                    errors.append(f"{tag}: counterexample for '{v['kind']}: {v['msg']}' does not reproduce natively: inputs {v['inputs']} stack {v['stack'][:6]}\n{text[-800:]}")
                elif kfm:
                    seen_known.add(kfm["id"])
                else:
                    viols.append((j, v, text))
            for k, n in j["incomplete"].items():
                errors.append(f"{tag}: incomplete: {k} x{n}")
            if j["missing_covers"] and not j["violations"]:
                errors.append(f"{tag}: vacuous, never reached: {j['missing_covers']}")
            if not j["violations"]:
                for t in j["tests"]:
                    if t["end"] != "done":
                        continue
                    rc, outs, text = native(j["entry"], j["_params"], t["input"], wd)
                    if outs == [int(x) for x in t["outs"]] and "VF_ASSERT_FAIL" not in text and rc == 0:
                        validated += 1
                    else:
                        mism.append(tag)
                        errors.append(f"{tag}: native run disagrees with the symbolic path on input {t['input'][:200]}: rc={rc} native={outs} engine={t['outs']}\n{text[-600:]}")
        good = [j for j in res if j["status"] != "error"]
        tot = lambda k: sum(j.get(k, 0) for j in good)
        funcs = sorted({f for j in good for f in j["functions"]})
        covers = {}
        for j in good:
            for k, n in j["covers"].items():
                covers[k] = covers.get(k, 0) + n
        samples = []
        for j in good:
            for t in j["tests"][:1]:
                samples.append({"entry": j["entry"], "params": j["_params"], "input": t["input"][:400], "outs": t["outs"][:20]})
        ev = {
            "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": P.get("level", "model_checking"),
            "coverage": {
                "states": tot("completed"), "transitions": tot("forks") + tot("completed"),
                "traces_validated_against_impl": validated,
                "samples": samples[:8],
                "paths": tot("paths"), "infeasible_paths": tot("infeasible"), "ir_steps": tot("steps"),
                "assertions_reached": tot("asserts"), "assertion_queries": tot("assert_queries"),
                "queries": tot("queries"), "z3_calls": tot("z3_calls"), "z3_unsat": tot("z3_unsat"), "z3_sat": tot("z3_sat"), "z3_unknown": tot("z3_unknown"),
                "solver_s": round(tot("solver_s"), 2), "max_query_s": max([j["max_query_s"] for j in good] or [0]),
                "solver": "z3 " + (good[0]["solver"] if good else "?"),
                "bounds": BOUNDS_COMMON + P["bounds"],
                "entries": [{"entry": j["entry"], "params": j["_params"], "status": j["status"], "paths": j["paths"], "z3_calls": j["z3_calls"], "wall_s": j["wall_s"]} for j in good],
                "covers": covers, "functions_encoded": funcs, "functions_encoded_count": len(funcs),
                "known_findings_seen": sorted(seen_known),
                "explanation": "states = completed symbolic paths; transitions = path forks + completed paths; each path stands for every input satisfying its path condition",
            },
            "assumptions": ASSUMPTIONS_COMMON + P.get("assumptions", []),
            "wall_s": round(time.time() - t0, 1), "violations": len(viols),
        }
        os.makedirs(f"{V}/evidence", exist_ok=True)
        json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
        for k in known:
            if k["id"] in seen_known:
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
            elif not only and k.get("tier", "quick") == tier:
                print(f"note: known finding {k['id']} was not observed in this run")
        if viols:
            rd = f"{V}/work/replay"
            os.makedirs(rd, exist_ok=True)
            for n, (j, v, text) in enumerate(viols):
                p = f"{rd}/{prop}-{n}.json"
                json.dump({"property": prop, "entry": j["entry"], "params": j["_params"], "kind": v["kind"], "msg": v["msg"], "input": v["input"], "inputs": v["inputs"], "stack": v["stack"], "native_output": text[-3000:],
                           "how": f"VF_INPUT=<file with the input bytes> {' '.join('VF_P_%s=%s' % kv for kv in j['_params'].items())} {VH} {j['entry']}"}, open(p, "w"), indent=1)
                print(f"  {v['kind']}: {v['msg']} in {j['entry']} {j['_params']} inputs {json.dumps(v['inputs'])[:600]}")
                print(f"VIOLATION property={prop} replay={p}")
            for e in errors[:5]:
                print("  (also)", e[:600])
            sys.exit(1)
        if errors:
            for e in errors[:20]:
                print("ERROR:", e[:1500])
            sys.exit(2)
        print(f"{prop}: holds within bounds; {tot('completed')} paths, {tot('queries')} queries, {tot('z3_calls')} solver calls, {tot('solver_s'):.1f}s solver, {validated} paths replayed, build {tb:.0f}s, total {time.time()-t0:.0f}s")
    finally:
        shutil.rmtree(wd, ignore_errors=True)


main()
