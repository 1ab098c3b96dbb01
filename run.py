#!/usr/bin/env python3
"""Decides one property by symbolic execution of the real code (see DESIGN.md).

usage: run.py <property> [--tier quick|thorough] [--only harness] [--keep]
       run.py --replay <file>           re-run a reported violation natively
       run.py --setup                   build the tools once
"""
import sys, os, json, subprocess, time, re, shutil, fcntl, tempfile, threading, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
REPO = os.environ.get("PQ2_REPO", "/repo")
B = os.environ.get("PQ2_BUILD", os.path.join(V, ".build"))
NCPU = int(os.environ.get("PQ2_JOBS", os.cpu_count() or 4))

ENV = dict(os.environ)
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
    ENV.pop(k, None)
ENV.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never",
           CARGO_INCREMENTAL="0")
if not shutil.which("cargo"):
    ENV["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + ENV.get("PATH", "")
HOOKS = "--cfg pq2_verif"  # guard of the hooks in /repo


class Fail(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=1500):
    r = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode != 0:
        raise Fail("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


class Lock:
    def __init__(self, name):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def build_symex():
    with Lock("symex"):
        sh(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(B, "symex")], cwd=os.path.join(V, "symex"))
    return os.path.join(B, "symex", "release", "symex")


def harness_dir():
    """the harness crate; for another checkout of the repository, a copy pointing at it"""
    src = os.path.join(V, "harness")
    if REPO == "/repo":
        return src
    d = os.path.join(B, "harness-src")
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(src, d)
    t = open(os.path.join(d, "Cargo.toml")).read().replace('"/repo"', json.dumps(REPO))
    open(os.path.join(d, "Cargo.toml"), "w").write(t)
    return d


def build_ir(feature, out, hdir):
    env = dict(ENV, RUSTFLAGS=HOOKS)
    td = os.path.join(B, "ir")
    with Lock("ir"):
        # always re-emit: the name of the output does not depend on the features
        rel = os.path.join(td, "release")
        for d in (os.path.join(rel, ".fingerprint"), os.path.join(rel, "deps")):
            if os.path.isdir(d):
                for n in os.listdir(d):
                    if n.startswith("pq2") or n.startswith("libpq2"):
                        p = os.path.join(d, n)
                        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        sh(["cargo", "rustc", "--release", "--offline", "--lib", "--crate-type", "cdylib", "--features", feature,
            "--target-dir", td, "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
           cwd=hdir, env=env)
        lls = [n for n in os.listdir(os.path.join(rel, "deps")) if n.startswith("pq2_harness") and n.endswith(".ll")]
        if len(lls) != 1:
            raise Fail("expected one .ll, got %s" % lls)
        shutil.copy(os.path.join(rel, "deps", lls[0]), out)


def build_native(feature, out, hdir):
    env = dict(ENV, RUSTFLAGS=HOOKS)
    td = os.path.join(B, "native")
    with Lock("native"):
        sh(["cargo", "build", "--offline", "--features", feature, "--bin", "replay", "--target-dir", td], cwd=hdir, env=env)
        shutil.copy(os.path.join(td, "debug", "replay"), out)


def native(binary, text, timeout):
    """returns (exit code or 'timeout', output)"""
    def lim():
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    try:
        r = subprocess.run([binary], input=text, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout, preexec_fn=lim)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return "timeout", ""


def case_text(harness, params, inputs, observed=None):
    t = "H %s\nP %s\nI %s\n" % (harness, ",".join(map(str, params)), ",".join(inputs))
    if observed is not None:
        t += "E %s\n" % ",".join(observed)
    return t + "GO\n"


def reproduces(rc, kind):
    if rc == "timeout":
        return kind == "steps"
    return rc in (101, 134, 139, -6, -11)


def demangle(names):
    out = []
    for n in names:
        # v0 mangling: keep the path components
        parts = re.findall(r"(?<=\d)[A-Za-z_][A-Za-z0-9_]*", n)
        comp = []
        s, i = n, 0
        for m in re.finditer(r"(\d+)_?([A-Za-z_][A-Za-z0-9_]*)", n):
            pass
        i = 0
        while i < len(s):
            if s[i].isdigit():
                j = i
                while j < len(s) and s[j].isdigit():
                    j += 1
                k = int(s[i:j])
                if j < len(s) and s[j] == "_":
                    j += 1
                if 0 < k <= len(s) - j and re.match(r"^[A-Za-z_]\w*$", s[j:j + k]):
                    comp.append(s[j:j + k])
                    i = j + k
                    continue
                i = j
            else:
                i += 1
        out.append("::".join(comp) if comp else n)
    return out


def run_job(job, symex, ll, tmp, idx, tier):
    h, params, cap = job["h"], job["params"], job["time"]
    out = os.path.join(tmp, "job%d.json" % idx)
    cmd = [symex, "--ll", ll, "--harness", h, "--params", ",".join(map(str, params)), "--out", out,
           "--time", str(cap), "--query-timeout", str(job.get("qt", 120000)), "--samples", str(job.get("samples", 6)),
           "--max-steps", str(job.get("max_steps", 50_000_000))]
    if job.get("plain"):
        cmd.append("--plain")
    if job.get("linear"):
        cmd.append("--linear")
    if job.get("select"):
        cmd += ["--select", str(job["select"])]
    dump = None
    if tier == "thorough" and job.get("cross", True):
        dump = os.path.join(tmp, "smt%d" % idx)
        os.makedirs(dump)
        cmd += ["--dump", dump, "--dump-every", str(job.get("dump_every", 97))]
    t0 = time.time()
    try:
        def lim():
            import resource
            m = job.get("mem", 24) << 30
            resource.setrlimit(resource.RLIMIT_AS, (m, m))
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=cap + 120, preexec_fn=lim)
        if os.path.exists(out):
            res = json.load(open(out))
        else:
            res = {"inconclusive": ["symex exit %s: %s" % (r.returncode, r.stdout[-500:])]}
    except subprocess.TimeoutExpired:
        res = {"inconclusive": ["symex did not stop"]}
    res["job"] = job
    res["wall"] = time.time() - t0
    res["dump_dir"] = dump
    return res


def cross_check(results, limit_s=120):
    """second solver on a sample of the dumped queries: any disagreement is an error"""
    n = dis = unk = 0
    t0 = time.time()
    for r in results:
        d = r.get("dump_dir")
        if not d:
            continue
        for f in sorted(os.listdir(d)):
            if time.time() - t0 > limit_s:
                return n, dis, unk
            p = os.path.join(d, f)
            exp = "unsat" if ".unsat." in f else "sat" if ".sat." in f else None
            try:
                o = subprocess.run(["cvc5", "--tlimit=10000", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=30).stdout
            except (subprocess.TimeoutExpired, FileNotFoundError):
                unk += 1
                continue
            ans = o.strip().splitlines()[0] if o.strip() else ""
            if ans not in ("sat", "unsat"):
                unk += 1
                continue
            n += 1
            if exp and ans != exp:
                dis += 1
                print("solver disagreement on", p)
    return n, dis, unk


def reach_labels(mod, harnesses):
    """labels that each harness must reach: every sx::reach("...") literal in its body"""
    src = open(os.path.join(V, "harness", "src", mod + ".rs")).read()
    out = {}
    parts = re.split(r"\n    fn (h_\w+)\(\) \{", src)
    for i in range(1, len(parts), 2):
        out[parts[i]] = set(re.findall(r'sx::reach\("([^"]+)"\)', parts[i + 1]))
    return {h: out.get(h, set()) for h in harnesses}


def known_findings(prop):
    f = os.path.join(V, "known_findings.jsonl")
    res = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d["property"] == prop and d.get("status") == "known":
                    res.append(d)
    return res


def check(prop, tier, only=None):
    from registry import CHECKS
    spec = CHECKS[prop]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(B, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=B)
    try:
        return check_in(prop, tier, only, spec, t0, seed, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check_in(prop, tier, only, spec, t0, seed, tmp):
    mod = spec.get("module", prop.lower())
    ll = os.path.join(tmp, "h.ll")
    nat = os.path.join(tmp, "replay")
    hdir = harness_dir()
    with cf.ThreadPoolExecutor(3) as ex:
        a = ex.submit(build_symex)
        b = ex.submit(build_ir, mod, ll, hdir)
        c = ex.submit(build_native, mod, nat, hdir)
        symex = a.result()
        b.result()
        c.result()
    t_build = time.time() - t0

    jobs = []
    budget = {"quick": 420, "thorough": 3000}[tier]
    for j in spec["jobs"]:
        if only and j["h"] != only:
            continue
        plist = list(j.get("quick", [[]]))
        if tier == "thorough":
            plist += [p for p in j.get("thorough", []) if p not in plist]
        for p in plist:
            jobs.append(dict(j, params=list(p), time=j.get("time", budget)))
    # longest first when known
    jobs.sort(key=lambda j: -j.get("cost", 1))
    results = [None] * len(jobs)
    violations, stop = [], threading.Event()

    def work(i):
        if stop.is_set():
            return None
        r = run_job(jobs[i], symex, ll, tmp, i, tier)
        for v in r.get("violations", []):
            txt = case_text(jobs[i]["h"], jobs[i]["params"], v["inputs"])
            rc, o = native(nat, txt, 10)
            v["native"] = {"exit": rc, "output": o[-2000:]}
            v["reproduced"] = reproduces(rc, v["kind"])
            if v["reproduced"]:
                stop.set()
        return r

    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = {ex.submit(work, i): i for i in range(len(jobs))}
        for f in cf.as_completed(futs):
            results[futs[f]] = f.result()
    done = [r for r in results if r]
    errors = []
    nviol = 0
    for r in done:
        for v in r.get("violations", []):
            rec = {"property": prop, "module": mod, "harness": r["job"]["h"], "params": r["job"]["params"], **v}
            if v["reproduced"]:
                rd = os.path.join(V, "evidence", "replay")
                os.makedirs(rd, exist_ok=True)
                path = os.path.join(rd, "%s-%s-%d.json" % (prop, r["job"]["h"], nviol))
                json.dump(rec, open(path, "w"), indent=1)
                print("  %s %s: %s: %s" % (rec["harness"], rec["params"], v["kind"], v["msg"]))
                print("  " + v["native"]["output"].strip().replace("\n", "\n  ")[:1500])
                print("VIOLATION property=%s replay=%s" % (prop, path))
                nviol += 1
            else:
                errors.append("counterexample does not reproduce natively: %s %s %s: %s (native exit %s: %s) inputs %s" % (
                    rec["harness"], rec["params"], v["kind"], v["msg"], v["native"]["exit"], v["native"]["output"][-300:], v["inputs"]))
    if not nviol:
        for r in done:
            for m in r.get("inconclusive", []):
                errors.append("inconclusive: %s %s: %s" % (r["job"]["h"], r["job"]["params"], str(m)[:400]))
            if not r.get("inconclusive") and r.get("paths", 0) == 0:
                errors.append("no path: %s %s" % (r["job"]["h"], r["job"]["params"]))
            if r.get("pending", 0):
                errors.append("unexplored paths: %s %s" % (r["job"]["h"], r["job"]["params"]))
        # vacuity
        hs = {j["h"] for j in jobs}
        want = reach_labels(mod, hs)
        for h in sorted(hs):
            got = {}
            for r in done:
                if r["job"]["h"] == h:
                    for k, n in r.get("reached", {}).items():
                        got[k] = got.get(k, 0) + n
            miss = [l for l in want[h] if not got.get(l)]
            if miss:
                errors.append("vacuous: %s never reaches %s" % (h, miss))
        for r in done:
            if not r.get("inconclusive") and not r.get("checks") and not r["job"].get("nocheck"):
                errors.append("no assertion evaluated: %s %s" % (r["job"]["h"], r["job"]["params"]))
    # validation of the encoding: sampled paths run natively with the predicted observations
    validated, samples = 0, []
    if not nviol:
        def val(r):
            ss = r.get("samples", [])
            if not ss:
                return 0, None
            txt = "".join(case_text(r["job"]["h"], r["job"]["params"], s["inputs"], s["observed"]) for s in ss)
            rc, o = native(nat, txt, 120)
            if rc != 0:
                return 0, "sampled path differs natively: %s %s exit %s: %s" % (r["job"]["h"], r["job"]["params"], rc, o[-600:])
            return len(ss), None
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for r, (n, e) in zip(done, ex.map(val, done)):
                validated += n
                if e:
                    errors.append(e)
                for s in r.get("samples", [])[-1:]:
                    if len(samples) < 12:
                        samples.append({"harness": r["job"]["h"], "params": r["job"]["params"],
                                        "inputs": s["inputs"][:40], "observed": s["observed"][:40]})
    # known findings: each has a witness that still fails
    known = 0
    for k in known_findings(prop):
        rc, o = native(nat, case_text(k["harness"], k["params"], k["inputs"]), 10)
        if reproduces(rc, k.get("kind", "panic")):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            known += 1
    n_x = dis = unk = 0
    if tier == "thorough" and not nviol:
        n_x, dis, unk = cross_check(done)
        if dis:
            errors.append("%d queries on which the second solver disagrees" % dis)
    tot = lambda k: sum(r.get(k, 0) for r in done)
    fns = sorted({f for r in done for f in r.get("functions", [])})
    checks = {}
    for r in done:
        for k, n in r.get("checks", {}).items():
            checks[r["job"]["h"] + ": " + k] = checks.get(r["job"]["h"] + ": " + k, 0) + n
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("branches"),
            "traces_validated_against_impl": validated, "samples": samples,
            "rule": "states: complete symbolic paths explored (each stands for all inputs satisfying its path condition); "
                    "transitions: branch/check decisions taken on them; every assertion on a path is decided for all inputs of the path",
            "exhaustive": not errors and not nviol,
            "forks": tot("forks"), "instructions_executed": tot("steps"),
            "paths_pruned_infeasible": tot("infeasible"), "paths_cut_large_alloc": tot("alloc_cut"),
            "solver": next((r.get("solver") for r in done if r.get("solver")), ""),
            "queries": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"),
            "solver_s": round(tot("solver_s"), 3),
            "max_query_s": max([r.get("max_query_s", 0) for r in done] or [0]),
            "second_solver": {"queries": n_x, "disagreements": dis, "unknown": unk} if tier == "thorough" else None,
            "bounds": spec["bounds"], "outside_the_claim": spec.get("outside", ""),
            "harnesses": [{"harness": r["job"]["h"], "params": r["job"]["params"], "paths": r.get("paths"), "rewriting": not r["job"].get("plain", False),
                           "queries": r.get("queries"), "wall_s": round(r["wall"], 2)} for r in done],
            "assertions": checks,
            "functions_encoded": sorted(set(x for x in demangle(fns) if "parquet" in x)),
            "functions_encoded_other": len([x for x in demangle(fns) if "parquet" not in x]),
            "build_s": round(t_build, 1), "known_findings_seen": known, "errors": errors,
        },
        "assumptions": spec.get("assumptions", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": nviol,
    }
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d jobs, %d paths, %d queries (%.1f s solver), %d traces validated, build %.0f s, total %.0f s" % (
        prop, tier, len(done), tot("paths"), tot("queries"), tot("solver_s"), validated, t_build, time.time() - t0))
    if os.environ.get("PQ2_VERBOSE"):
        for r in sorted(done, key=lambda r: -r["wall"])[:25]:
            print("   %7.2fs %s %s paths=%s queries=%s solver=%s maxq=%s steps=%s alloc_cut=%s" % (r["wall"], r["job"]["h"], r["job"]["params"], r.get("paths"), r.get("queries"), r.get("solver_s"), r.get("max_query_s"), r.get("steps"), r.get("alloc_cut")))
    for e in errors[:20]:
        print("ERROR", e)
    if nviol:
        return 1
    return 2 if errors else 0


COMMON_ASSUMPTIONS = [
    "the LLVM IR emitted by rustc (opt-level 2, fat LTO, overflow checks on, x86_64) for the harness and the crate is what is executed; rustc/LLVM's lowering is trusted",
    "the executor in /verif/symex and Z3 are trusted; sampled paths are replayed natively and must observe the same values",
    "memory allocation succeeds up to 1 MiB per allocation; message formatting (core::fmt::write) is a no-op; HashMap keys are fixed",
]

if __name__ == "__main__":
    a = sys.argv[1:]
    try:
        if a[0] == "--setup":
            build_symex()
            sys.exit(0)
        if a[0] == "--replay":
            rec = json.load(open(a[1]))
            os.makedirs(B, exist_ok=True)
            out = os.path.join(B, "replay-" + rec["module"])
            build_native(rec["module"], out, harness_dir())
            rc, o = native(out, case_text(rec["harness"], rec["params"], rec["inputs"]), 10)
            print(o)
            print("native exit:", rc)
            sys.exit(1 if reproduces(rc, rec["kind"]) else 0)
        tier = os.environ.get("VERIF_TIER", "quick")
        only = None
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        if "--only" in a:
            only = a[a.index("--only") + 1]
        sys.exit(check(a[0], tier, only))
    except Fail as e:
        print("ERROR", e)
        sys.exit(2)
