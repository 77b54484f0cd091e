"""Kani parts: model-check harnesses over the repository's sources; counterexamples are replayed before they count."""
import os, re, sys, time
import battery
from concurrent.futures import ThreadPoolExecutor


def parse(out):
    """one harness per run"""
    failed = re.findall(r"Failed Checks: (.*)", out)
    m = re.search(r"Verification Time: ([\d.]+)s", out)
    n = re.search(r"\*\* (\d+) of (\d+) failed", out)
    vals = []
    pm = re.search(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\];", out, re.S)
    if pm:
        for v in re.findall(r"vec!\[([\d, ]*)\]", pm.group(1)):
            vals.append("".join("%02x" % int(x) for x in v.split(",") if x.strip()))
    stats = re.findall(r"(\d+) variables, (\d+) clauses", out)
    solver = sum(float(x) for x in re.findall(r"Runtime decision procedure: ([\d.e+-]+)s", out))
    ok = "VERIFICATION:- SUCCESSFUL" in out
    # a verdict: success, or named failing checks
    return dict(ok=ok, done=ok or bool(failed), failed=failed, seconds=float(m.group(1)) if m else 0.0,
                checks=int(n.group(2)) if n else 0, vals=vals, clauses=int(stats[-1][1]) if stats else 0, solver_s=solver,
                raw=out[-1500:])


UNWIND = "unwinding assertion"


class Kani:
    def __init__(self, part, crate_dir, tgt, run, env):
        self.part, self.dir, self.tgt, self._run = part, crate_dir, tgt, run
        self.env = {k: v for k, v in env.items() if k not in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN")}
        self.feats = part.get("features", [])

    def base(self):
        c = ["cargo", "kani", "--target-dir", self.tgt, "-Z", "unstable-options", "--output-format=regular"]
        if self.feats:
            c += ["--features", ",".join(self.feats)]
        return c + list(self.part.get("flags", []))

    def compile(self):
        return self._run(self.base() + ["--only-codegen"], cwd=self.dir, env=self.env, timeout=600)

    def check(self, h, timeout, extra=(), mem=1):
        cmd = self.base() + ["--harness", "proofs::" + h, "--exact"] + list(extra)
        if self.part.get("cbmc"):
            cmd += ["--cbmc-args"] + self.part["cbmc"]
        mem = self.part.get("mem_gb", 8) * mem * 1024 * 1024
        rc, out = self._run(["bash", "-c", f"ulimit -v {mem}; exec \"$@\"", "-"] + cmd, cwd=self.dir, env=self.env, timeout=timeout)
        return parse(out)

    def asan(self, path):
        """the harness, natively, under AddressSanitizer"""
        env = dict(self.env, CARGO_TARGET_DIR=self.tgt + "-asan", RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu", RUSTFLAGS="-Zsanitizer=address")
        cmd = ["cargo", "build", "--offline", "-q", "--target", "x86_64-unknown-linux-gnu", "--features", ",".join(self.feats)]
        rc, out = self._run(cmd, cwd=self.dir, env=env, timeout=600)
        if rc != 0:
            return False
        exe = os.path.join(self.tgt + "-asan", "x86_64-unknown-linux-gnu", "debug", self.part["crate"])
        rc, out = self._run([exe, path], env=dict(env, ASAN_OPTIONS="detect_leaks=0"), timeout=120)
        return "AddressSanitizer" in out

    def native(self):
        env = dict(self.env, CARGO_TARGET_DIR=self.tgt + "-native", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
        cmd = ["cargo", "build", "--offline", "-q"] + (["--features", ",".join(self.feats)] if self.feats else [])
        rc, out = self._run(cmd, cwd=self.dir, env=env, timeout=600)
        return os.path.join(self.tgt + "-native", "debug", self.part["crate"]) if rc == 0 else None


def run_part(prop, tier, part, res, run, ENV, V, B, log, known, NoAnswer, cargo_build):
    """Parts are optional: where the function a harness is written for is no longer there, or the model checker has no
    answer, the remaining parts decide the property and the evidence says what was left out."""
    t0 = time.time()
    crate = part["crate"]
    src = os.path.join(V, "engine", crate)
    name = crate + "-" + prop + part.get("sub", "")
    tgt = os.path.join(B, name)
    d, restore = src, None
    if os.path.exists(os.path.join(src, "generate.py")):
        import importlib.util
        sys.dont_write_bytecode = True
        spec = importlib.util.spec_from_file_location("generate_" + crate, os.path.join(src, "generate.py"))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        try:
            d = mod.generate(os.path.join(B, "src-" + name))
        except OSError as e:
            res.notes.append(f"{crate}: sources not where the harness expects them: {e}")
            return
    else:
        lock = os.path.join(d, "Cargo.lock")
        restore = (lock, open(lock, "rb").read()) if os.path.exists(lock) else None
    k = Kani(part, d, tgt, run, ENV)
    before = len(res.notes)
    try:
        rc, out = k.compile()
        if rc != 0:
            log(out[-3000:])
            res.notes.append(f"{crate} {part.get('features', '')}: the harness does not compile against this tree; not run")
            if part.get("battery"):
                whole(prop, part, res, V, log)
            return
        names = part["harnesses"]
        if isinstance(names, dict):
            names = names["quick"] + (names["thorough"] if tier == "thorough" else [])
        log(f"{crate}: compiled for Kani in {time.time()-t0:.1f}s, {len(names)} harnesses")
        per = part.get("timeout", 300) if tier == "quick" else 1500
        with ThreadPoolExecutor(part.get("jobs", 8)) as ex:
            results = dict(zip(names, ex.map(lambda h: k.check(h, per), names)))
        j = dict(cases=len(names), paths=len(names), claims=sum(p["checks"] for p in results.values()), wall=time.time() - t0,
                 solver=dict(bin="cbmc (Kani)", queries=len(names), unsat=sum(p["ok"] for p in results.values()),
                             sat=sum(1 for p in results.values() if p["done"] and not p["ok"]),
                             unknown=sum(1 for p in results.values() if not p["done"]), seconds=sum(p["seconds"] for p in results.values())),
                 explored=[[h, 1, p["ok"]] for h, p in results.items()],
                 samples=[f"{h}: {p['checks']} checks, {p['clauses']} clauses, {p['seconds']:.1f}s" for h, p in results.items()])
        res.parts.append((part, j))
        tried = 0
        for h, p in results.items():
            if p["ok"]:
                log(f"{h}: ok, {p['seconds']:.0f}s")
                continue
            if not p["done"]:
                log(h, p["raw"][-400:])
                res.notes.append(f"{h}: Kani gave no verdict within {per}s")
                continue
            log(f"{h}: {p['failed']}")
            hit = [x for x in known if x[0] == h]
            if hit:
                res.known.append(hit[0][2])
            elif all(UNWIND in f or "unsupported" in f.lower() for f in p["failed"]):
                res.notes.append(f"{h}: beyond the loop bounds: {p['failed'][:2]}")
            elif res.violations:
                continue
            elif part.get("battery") and tried == 0 and quick_look(prop, part, h, p, res, V, log):
                continue
            elif tried >= 2 or tier == "quick" and time.time() - t0 > 400:
                res.notes.append(f"{h}: fails {p['failed'][:2]}; not replayed, for time")
            else:
                tried += 1
                counterexample(prop, part, k, h, p, per, res, run, V, log, cargo_build)
        if part.get("battery") and not res.violations and (tier == "thorough" or len(res.notes) > before):
            # the real libraries must pass the battery a counterexample has to fail
            whole(prop, part, res, V, log)
    except battery.NoBattery as e:
        res.notes.append(str(e))
    finally:
        if restore and open(restore[0], "rb").read() != restore[1]:
            open(restore[0], "wb").write(restore[1])


def whole(prop, part, res, V, log, head=""):
    """the battery on its own, where the model checker has no answer"""
    rc, out, how = battery.run(part["battery"], [])
    log(out[-2000:])
    if rc == 0:
        res.parts.append((part, dict(cases=1, battery=part["battery"], samples=[f"{part['battery']} battery on the real library: no difference"])))
        return
    path = os.path.join(V, "replay", f"{prop}-{part['battery']}.txt")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(f"# rerun: {how}\n" + "".join("# " + x[:500] + "\n" for x in out.splitlines()[:40]))
    res.violations.append((path, head + f"{part['battery']}: " + next((x for x in out.splitlines() if "FAILED" in x), f"ended with {rc}")[:300]))


def quick_look(prop, part, h, p, res, V, log):
    """the battery without the counterexample's values, which take the model checker a second run"""
    before = len(res.violations)
    whole(prop, part, res, V, log, f"{h}: {p['failed'][:3]} ")
    return len(res.violations) > before


def counterexample(prop, part, k, h, p, per, res, run, V, log, cargo_build):
    q = k.check(h, 2 * per, ["-Z", "concrete-playback", "--concrete-playback=print"], mem=2)
    if not q["vals"]:
        log(q["raw"][-600:])
    os.makedirs(os.path.join(V, "replay"), exist_ok=True)
    path = os.path.join(V, "replay", f"{prop}-{h}.txt")
    head = f"# {prop} {h}: {p['failed'][:5]}\n"
    with open(path, "w") as f:
        f.write(head + f"harness {h}\n" + "".join(f"val {v}\n" for v in q["vals"]))
    exe = k.native()
    if exe is None:
        res.notes.append(f"{h}: counterexample, but the harness does not build natively")
        return
    rc, out = run([exe, path], timeout=120)
    log(out[-1500:])
    if part.get("battery"):
        memory = [x for x in p["failed"] if re.search(r"dereference|pointer|memory|out of bounds|free", x)]
        if memory and k.asan(path):
            with open(path, "a") as f:
                f.write("# AddressSanitizer reports the same run of the binding's code\n")
            res.violations.append((path, f"{h}: {memory[:3]}"))
            return
        values = [x.split()[2] for x in out.splitlines() if re.match(r"var [xyz]\d* ", x)]
        try:
            rc, out, how = battery.run(part["battery"], values)
        except battery.NoBattery as e:
            res.notes.append(f"{h}: counterexample, but: {e}")
            return
        log(out[-2000:])
        with open(path, "a") as f:
            f.write(f"# rerun: {how}\n" + "".join("# " + x[:500] + "\n" for x in out.splitlines()[:40]))
        if rc != 0:
            res.violations.append((path, f"{h}: {p['failed'][:3]} " + next((x for x in out.splitlines() if "FAILED" in x), f"ended with {rc}")[:300]))
        else:
            res.notes.append(f"{h}: counterexample without effect on the real library: {p['failed'][:3]}")
        return
    case = next((c for pre, c in part.get("replay", {}).items() if h.startswith(pre)), None)
    if case is None:
        with open(path, "a") as f:
            f.write("".join("# " + x[:500] + "\n" for x in out.splitlines()[:20]))
        if rc not in (0, 3):
            res.violations.append((path, f"{h}: {p['failed'][:3]}"))
        else:
            res.notes.append(f"{h}: counterexample does not reproduce natively: {p['failed'][:3]}")
        return
    # the same values through the public API of the real crates
    with open(path, "w") as f:
        f.write(head + f"# rerun: (cd {V}/engine/natx && cargo run --offline -- replay {path})\n")
        f.write(f"prop K\ntier quick\ncase {case}\nseed 1\n" + "".join(x + "\n" for x in out.splitlines() if x.startswith("var ")))
    natx = cargo_build("natx")
    rc, out = run([natx, "replay", path], timeout=300)
    log(out[-2000:])
    with open(path, "a") as f:
        f.write("".join("# " + x[:1000] + "\n" for x in out.splitlines()[:20]))
    if rc == 1:
        first = next((x for x in out.splitlines() if x.startswith("FAILED")), "")
        res.violations.append((path, f"{h}: {p['failed'][:3]} {first[:300]}"))
    else:
        res.notes.append(f"{h}: an internal contract differs ({p['failed'][:3]}) without effect on the public API")
