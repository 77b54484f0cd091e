#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   -- exit 0 held, 1 violation, 2 no answer."""
import json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, ".build")
sys.path.insert(0, V)
from checks_table import TABLE  # noqa: E402

ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTFLAGS="")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/bin:/bin")


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class NoAnswer(Exception):
    pass


def run(cmd, cwd=None, env=None, timeout=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return 124, out


def lockfile(crate_dir):
    """Cargo.lock files are committed beside each crate; keep them as committed."""
    p = os.path.join(crate_dir, "Cargo.lock")
    return open(p, "rb").read() if os.path.exists(p) else None


def cargo_build(crate, feats=(), sub=""):
    d = os.path.join(V, "engine", crate)
    tgt = os.path.join(B, crate + sub)
    before = lockfile(d)
    cmd = ["cargo", "build", "--offline", "-q"]
    if feats:
        cmd += ["--features", ",".join(feats)]
    t = time.time()
    rc, out = run(cmd, cwd=d, env=dict(ENV, CARGO_TARGET_DIR=tgt), timeout=800)
    if before is not None and lockfile(d) != before:
        open(os.path.join(d, "Cargo.lock"), "wb").write(before)
    if rc != 0:
        log(out[-4000:])
        raise NoAnswer(f"build of {crate} failed")
    log(f"built {crate}{sub} in {time.time()-t:.1f}s")
    return os.path.join(tgt, "debug", crate)


def suffix(feats):
    return "".join("-" + f for f in feats)


def known(prop):
    res = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) case=(\S+) label=\"([^\"]*)\" (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append(m.groups()[1:])
    return res


class Result:
    def __init__(self):
        self.violations = []      # (replay path, text)
        self.known = []
        self.inconclusive = []
        self.notes = []           # parts that could not be run; the others decide
        self.cov = {}             # accumulates coverage
        self.parts = []


def replay_native(prop, tier, feats, v, n, label="model"):
    os.makedirs(os.path.join(V, "replay"), exist_ok=True)
    path = os.path.join(V, "replay", f"{prop}-{n}.txt")
    with open(path, "w") as f:
        f.write(f"# {v['label']}: {v['detail'][:500]}\n")
        f.write(f"# rerun: (cd {V}/engine/natx && cargo run --offline {'--features ' + ','.join(feats) + ' ' if feats else ''}-- replay {path})\n")
        f.write(f"prop {prop}\ntier {tier}\ncase {v['case']}\nseed {v['seed']}\n")
        for k, x in v["assign"].items():
            f.write(f"var {k} {x}\n")
    natx = cargo_build("natx", feats, suffix(feats))
    rc, out = run([natx, "replay", path], timeout=300)
    log(out[-3000:])
    with open(path, "a") as f:
        for line in out.splitlines()[:20]:
            f.write("# " + line[:1000] + "\n")
    return rc, out, path


def crash(prop, tier, part, feats, rc, res):
    natx = cargo_build("natx", feats, suffix(feats))
    cmd = [natx, "all", part.get("prop", prop), "quick"]
    nrc, out = run(cmd, timeout=600)
    log(out[-3000:])
    if nrc in (0, 124, -9):
        raise NoAnswer(f"symbolic execution ended with {rc}, the real libraries with {nrc}")
    os.makedirs(os.path.join(V, "replay"), exist_ok=True)
    path = os.path.join(V, "replay", f"{prop}-crash.txt")
    with open(path, "w") as f:
        f.write(f"# symbolic execution ended with {rc}, the real libraries with {nrc}\n# rerun: " + " ".join(cmd) + "\n")
        f.write("".join("# " + x[:500] + "\n" for x in out.splitlines()[-40:]))
    last = [x for x in out.splitlines() if x.strip()][-1:] or [""]
    res.violations.append((path, f"the process ends with {nrc}: {last[0][:300]}"))


def symx_part(prop, tier, part, res):
    feats = part.get("features", [])
    sub = suffix(feats)
    exe = cargo_build("symx", feats, sub)
    out = os.path.join(B, f"{prop}{sub}.json")
    if os.path.exists(out):
        os.remove(out)
    t = time.time()
    args = [exe, part.get("prop", prop), tier, out]
    flt = part.get("filter") or (part.get("quick_filter") if tier == "quick" else None)
    if flt:
        args.append(flt)
    rc, txt = run(args, timeout=600 if tier == "quick" else 3400)
    log(txt[-6000:])
    if rc in (-11, -6, -7, -4, -8):
        # the code under test brought the process down: it must do so with plain values on the real libraries too
        crash(prop, tier, part, feats, rc, res)
        return
    if rc != 0 or not os.path.exists(out):
        raise NoAnswer(f"symbolic execution ended with {rc}")
    j = json.load(open(out))
    j["wall"] = time.time() - t
    res.parts.append((part, j))
    kn = known(prop)
    for v in j["violations"]:
        hit = [k for k in kn if k[0] == v["case"] and k[1] == v["label"]]
        if hit:
            res.known.append(hit[0][2])
            continue
        rc, txt, path = replay_native(part.get("prop", prop), tier, feats, v, len(res.violations) + 1)
        if rc == 1:
            res.violations.append((path, f"{v['case']}: {v['label']}: {v['detail'][:300]}"))
        else:
            res.inconclusive.append(f"{v['case']}: {v['label']}: model does not reproduce on the real code (exit {rc})")
    if j["inconclusive"] and not res.violations:
        # the solver gave no answer on some case: see whether the real code fails it outright
        seen = []
        for m in j["inconclusive"]:
            c = m.split(":")[0]
            if c in seen:
                continue
            seen.append(c)
            if len(seen) > 3:
                break
            v = {"case": c, "label": "inconclusive", "detail": m, "seed": 1, "assign": {}}
            rc, txt, path = replay_native(part.get("prop", prop), tier, feats, v, len(res.violations) + 1)
            if rc == 1:
                res.violations.append((path, f"{c}: {txt.splitlines()[0][:300]}"))
                break
        res.inconclusive += j["inconclusive"]
    if j["cases"] == 0 or (j["claims"] == 0 and not j["violations"]):
        raise NoAnswer("no case ran")


def evidence(prop, tier, res, t0):
    ent = TABLE[prop]
    q = dict(queries=0, unsat=0, sat=0, unknown=0, seconds=0.0)
    agg = {}
    samples, labels, explored, bins = [], {}, [], []
    for part, j in res.parts:
        if "solver" in j:
            for k in q:
                q[k] += j["solver"][k]
            bins.append(j["solver"].get("bin", ""))
        for k in ("cases", "paths", "nodes", "events", "flips_infeasible", "flips_skipped", "claims", "residuals_zero",
                  "raw_queries", "obligations", "obligations_distinct", "twins", "hashes"):
            if k in j:
                agg[k] = agg.get(k, 0) + j[k]
        samples += j.get("samples", [])
        for k, n in j.get("labels", {}).items():
            labels[k] = labels.get(k, 0) + n
        explored += [dict(case=e[0], paths=e[1], all_paths=e[2]) for e in j.get("explored", [])]
    full = sum(1 for e in explored if e["all_paths"])
    cov = {
        "explanation": ent["explanation"],
        "functions_encoded": ent["functions"],
        "bounds": ent["bounds"],
        "outside_bounds": ent["outside"],
        "queries": q["queries"], "unsat": q["unsat"], "sat": q["sat"], "unknown": q["unknown"],
        "solver_seconds": round(q["seconds"], 3), "solvers": sorted(set(bins)),
        "counts": agg, "claims_by_kind": labels,
        "cases_with_all_paths_explored": full, "cases_total": len(explored),
        "cases": explored[:80], "samples": samples[:10],
        "violations_found": [{"replay": os.path.relpath(p, V), "what": w} for p, w in res.violations],
        "no_answer": res.inconclusive[:20], "left_out": res.notes[:20],
    }
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other", "coverage": cov,
        "assumptions": ent["assumptions"], "wall_s": round(time.time() - t0, 1),
        "violations": len(res.violations),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        for c in (["z3", "--version"], ["cargo", "--version"]):
            rc, out = run(c)
            print(out.strip())
            if rc:
                return 2
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    res = Result()
    os.makedirs(B, exist_ok=True)
    err = None
    try:
        for part in TABLE[prop]["parts"]:
            if part["kind"] == "symx":
                symx_part(prop, tier, part, res)
            else:
                import kani_part
                kani_part.run_part(prop, tier, part, res, run, ENV, V, B, log, known(prop), NoAnswer, cargo_build)
            if res.violations:
                break
        if tier == "thorough" and not res.violations and any(p["kind"] == "symx" for p in TABLE[prop]["parts"]):
            validate(prop, res)
    except NoAnswer as e:
        err = str(e)
    evidence(prop, tier, res, t0)
    for k in res.known:
        print(f"KNOWN-FINDING: property={prop} {k}")
    if res.violations:
        for p, w in res.violations:
            print(f"VIOLATION property={prop} replay={p}")
            print("   " + w)
        return 1
    if err or res.inconclusive:
        for m in [err] if err else res.inconclusive[:20]:
            print("INCONCLUSIVE", m)
        return 2
    for m in res.notes:
        print("LEFT-OUT", m)
    if not res.parts:
        print("INCONCLUSIVE nothing ran")
        return 2
    n = sum(j.get("solver", {}).get("queries", 0) for _, j in res.parts)
    print(f"OK property={prop} tier={tier} queries={n} wall={time.time()-t0:.1f}s")
    return 0


def validate(prop, res):
    """Stand-in validation: the same cases on the real libraries with pseudo-random values."""
    for part in TABLE[prop]["parts"]:
        if part["kind"] != "symx":
            continue
        feats = part.get("features", [])
        natx = cargo_build("natx", feats, suffix(feats))
        rc, out = run([natx, "all", part.get("prop", prop), "quick"] + ([part["filter"]] if part.get("filter") else []), timeout=1500)
        log(out[-3000:])
        if rc != 0:
            raise NoAnswer("the real libraries disagree with a claim that holds on the stand-ins")


if __name__ == "__main__":
    sys.exit(main())
