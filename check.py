#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]

Decides one property of flory on /repo's current working tree:
 1. proof: pyvc parses the sources, generates the obligations of the property's contracts
    from them and discharges them (ring normal forms + z3/cvc5);
 2. replay / cross-check: the same contracts evaluated on the real code (interpreted and
    numba-compiled), steered by refuted obligations, to obtain failing inputs, and the
    bounded stand-in wherever a function is outside the verifier's reach.
Exit 0: held on everything explored; exit 1: VIOLATION line printed.
"""
import argparse, json, os, subprocess, sys, tempfile, time, shutil, signal, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
PYVT = sys.executable
ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--no-proof", action="store_true")
ap.add_argument("--no-runtime", action="store_true")
a = ap.parse_args()
if a.tier not in ("quick", "thorough"):
    a.tier = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
QUICK = a.tier == "quick"
T0 = time.time()
TMP = tempfile.mkdtemp(prefix=f"verif_{a.prop}_")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
REPLAYS = os.environ.get("VERIF_REPLAYS", os.path.join(HERE, "replays"))
# (interpreted cases per worker, interpreted seconds, compiled cases, compiled seconds)
BUDGET = dict(quick=(2500, 45, 60, 75), thorough=(60000, 600, 1200, 900))[a.tier]
HANG = 300

ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg",
           NUMBA_CACHE_DIR=os.path.join(TMP, "numba"), NUMBA_NUM_THREADS="1", MPLCONFIGDIR=TMP)
ENV.pop("NUMBA_DISABLE_JIT", None)


class Job:
    """one runner subprocess with crash and hang detection"""

    def __init__(self, name, args, jit, env=None):
        self.name, self.jit, self.args = name, jit, args
        self.out = os.path.join(TMP, name + ".json")
        self.prog = os.path.join(TMP, name + ".prog")
        self.err = os.path.join(TMP, name + ".err")
        cmd = [PY, os.path.join(HERE, "runtime", "runner.py"), a.prop, "--out", self.out, "--progress", self.prog] + args + (["--jit"] if jit else [])
        self.t = time.time()
        self.p = subprocess.Popen(cmd, env=dict(ENV, **(env or {})), stdout=open(self.err, "w"), stderr=subprocess.STDOUT, cwd=TMP, start_new_session=True)
        self.result = None

    def poll(self):
        """None while running, else the result"""
        rc = self.p.poll()
        if rc is None:
            try:
                c, s, t = json.load(open(self.prog))
            except (OSError, ValueError):
                c, s, t = None, None, self.t
            if time.time() - t > HANG:
                self.kill()
                self.p.wait()
                if c is None:
                    return dict(counts={}, fails=[], errors=[dict(harness_error="no progress")], skips=0, samples=[])
                return dict(counts={}, fails=[dict(case=c, seed=s, msg=f"did not terminate within {HANG} s", data={})], errors=[], skips=0, samples=[])
            return None
        try:
            return json.load(open(self.out))
        except (OSError, ValueError):
            pass
        txt = open(self.err).read()[-3000:]
        try:
            c, s, t = json.load(open(self.prog))
        except (OSError, ValueError):
            c = None
        if c is not None and rc < 0 and rc not in (-signal.SIGKILL, -signal.SIGTERM):
            return dict(counts={}, fails=[dict(case=c, seed=s, msg=f"the interpreter crashed with signal {-rc}", data={"output": txt})], errors=[], skips=0, samples=[])
        if c is None and "ImportError" in txt or "SyntaxError" in txt or "import flory" in txt:
            return dict(counts={}, fails=[dict(case="import", seed=0, msg="flory cannot be imported", data={"output": txt})], errors=[], skips=0, samples=[])
        return dict(counts={}, fails=[], errors=[dict(harness_error=f"runner ended with {rc}: {txt}")], skips=0, samples=[])

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass


def wait(jobs, stop_on_fail=False):
    pend = list(jobs)
    while pend:
        for j in list(pend):
            r = j.poll()
            if r is not None:
                j.result = r
                pend.remove(j)
        if pend:
            time.sleep(0.2)
    return [j.result for j in jobs]


def confirm(fail, src):
    """re-run a failing case on the code as users run it (numba compiled); returns the fail or None"""
    if fail["case"] == "import":
        return fail
    base = ["--only", fail["case"], "--case-seed", str(fail["seed"])] + src.get("hintargs", [])
    if not src["jit"]:
        jobs = [Job(f"conf{time.time_ns()}", base + ["--nojit-data"], True),
                Job(f"confb{time.time_ns()}", base + ["--nojit-data"], True, {"NUMBA_BOUNDSCHECK": "1"})]
    else:
        jobs = [Job(f"conf{time.time_ns()}", base, True)]
    for r in wait(jobs):
        if r["fails"]:
            return dict(r["fails"][0], nojit_data=not src["jit"], hintargs=src.get("hintargs", []))
    return None


def write_replay(kind, payload):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{a.prop}-{a.tier}.json")
    json.dump(dict(property=a.prop, kind=kind, repo=REPO, **payload), open(path, "w"), indent=1, default=str)
    return path


def replay_cmd(f):
    h = f.get("hintargs") or []
    return f"{PY} {HERE}/runtime/runner.py {a.prop} --only {f['case']} --case-seed {f['seed']} --jit --replay" + (" --nojit-data" if f.get("nojit_data") else "") + "".join(" " + x for x in h)


def runtime_round(tag, seeds_nojit, seeds_jit, budget, hints=None):
    n, sec, nj, secj = budget
    ha = ["--hints", hints] if hints else []
    jobs = []
    for s in seeds_jit:
        jobs.append(Job(f"{tag}j{s}", ["--n", str(nj), "--seconds", str(secj), "--seed", str(s)] + ha, True))
    for s in seeds_nojit:
        jobs.append(Job(f"{tag}n{s}", ["--n", str(n), "--seconds", str(sec), "--seed", str(s)] + ha, False))
    return jobs, ha


def collect(jobs, ha):
    """-> (violation or None, stats)"""
    res = wait(jobs)
    broken_cases = {e.get("case") for r, j in zip(res, jobs) if not j.jit for e in r["errors"]}
    viol, unconf = None, []
    for r, j in sorted(zip(res, jobs), key=lambda x: x[1].jit):
        for f in r["fails"]:
            if j.jit and f["case"] in broken_cases:
                continue
            c = confirm(f, dict(jit=j.jit, hintargs=ha)) if viol is None else None
            if c:
                viol = c
            elif viol is None:
                unconf.append(f)
    return viol, res, unconf


def metatheory():
    """thorough tier: the verifier's own foundations (see DESIGN.md) are checked, too"""
    r = {}
    try:
        x = subprocess.run([PYVT, os.path.join(HERE, "pyvc", "selfcheck.py"), str(SEED), "20"], env=ENV, cwd=TMP, capture_output=True, text=True, timeout=900)
        r["symbolic_execution_against_numpy"] = x.stdout.strip().splitlines()[:6] or [x.stderr[-500:]]
    except (OSError, subprocess.SubprocessError) as e:
        r["symbolic_execution_against_numpy"] = [f"not run: {e}"]
    try:
        src = os.path.join(HERE, "lemmas", "Sums.lean")
        x = subprocess.run(["lean", src], cwd=TMP, capture_output=True, text=True, timeout=900)
        txt = open(src).read()
        ok = x.returncode == 0 and "sorry" not in txt
        r["rewriting_and_loop_rules_in_lean"] = f"{txt.count(chr(10) + 'theorem ')} theorems {'checked' if ok else 'NOT checked: ' + x.stdout[:500]}"
    except (OSError, subprocess.SubprocessError) as e:
        r["rewriting_and_loop_rules_in_lean"] = f"not run: {e}"
    return r


def main():
    nw = 3 if QUICK else 4
    jw = 2 if QUICK else 3
    proof = None
    pj = None
    pout = os.path.join(TMP, "proof.json")
    if not a.no_proof and os.path.exists(os.path.join(HERE, "pyvc", "main.py")):
        pj = subprocess.Popen([PYVT, os.path.join(HERE, "pyvc", "main.py"), a.prop, "--out", pout, "--tier", a.tier, "--seconds", "240" if QUICK else "3000"],
                              env=ENV, stdout=open(os.path.join(TMP, "proof.log"), "w"), stderr=subprocess.STDOUT, cwd=TMP, start_new_session=True)
    viol, res, unconf, ha = None, [], [], []
    if not a.no_runtime:
        jobs, ha = runtime_round("a", [SEED * 1000 + i for i in range(nw)], [SEED * 1000 + i for i in range(jw)], BUDGET)
        viol, res, unconf = collect(jobs, ha)
    if pj:
        try:
            pj.wait(timeout=(330 if QUICK else 3600))
        except subprocess.TimeoutExpired:
            os.killpg(pj.pid, signal.SIGKILL)
            pj.wait()
        try:
            proof = json.load(open(pout))
        except (OSError, ValueError):
            proof = dict(obligations=[], error=open(os.path.join(TMP, "proof.log")).read()[-3000:])
    obl = (proof or {}).get("obligations", [])
    refuted = [o for o in obl if o["status"] == "refuted"]
    undecided = [o for o in obl if o["status"] not in ("proved", "refuted")]
    directed = None
    if viol is None and not a.no_runtime and (refuted or undecided or (proof or {}).get("error")):
        hints = dict(dims={}, values=[])
        for o in refuted + undecided:
            for m in o.get("models", []):
                for k, v in m.get("dims", {}).items():
                    hints["dims"].setdefault(k, []).append(v)
                    hints["dims"].setdefault("*", []).append(v)
                hints["values"] += m.get("values", [])
        hp = os.path.join(REPLAYS, f"{a.prop}-hints.json")
        os.makedirs(REPLAYS, exist_ok=True)
        json.dump(hints, open(hp, "w"))
        b = (BUDGET[0], 60 if refuted else 40, BUDGET[2], 75 if refuted else 50) if QUICK else BUDGET
        jobs, ha2 = runtime_round("d", [SEED * 1000 + 500 + i for i in range(4)], [SEED * 1000 + 500 + i for i in range(2)], b, hp)
        v2, res2, un2 = collect(jobs, ha2)
        viol, directed = v2, res2
        unconf += un2
    # ------------------------------------------------------------------ verdict
    code, line = 0, None
    if viol:
        path = write_replay("failing-input", dict(case=viol["case"], seed=viol["seed"], message=viol["msg"], data=viol.get("data"), command=replay_cmd(viol),
                                                  failed_obligations=refuted[:20]))
        line = f"VIOLATION property={a.prop} replay={path}"
        code = 1
    elif refuted:
        path = write_replay("failed-obligation", dict(failed_obligations=refuted[:20], note="obligation refuted on the verification conditions; no failing input was found by replay"))
        line = f"VIOLATION property={a.prop} replay={path} no-failing-input-found"
        code = 1
    for kf in open(os.path.join(HERE, "known-findings.txt")):
        if kf.startswith("finding:") and f"property={a.prop} " in kf:
            print("KNOWN-FINDING: " + kf[len("finding:"):].strip())
    # ----------------------------------------------------------------- evidence
    counts = {}
    allres = res + (directed or [])
    for r in allres:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
    errs = [e for r in allres for e in r["errors"]]
    ev = sum(counts.values())
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    level = next((c["level"] for c in man["checks"] if c["property"] == a.prop), "other")
    cov = dict(evaluations=ev, distinct_nontrivial=ev, samples=[s for r in allres for s in r["samples"]][:6],
               rule="every evaluation draws a fresh seeded random model/state (dimensions and values also mined from the sources and from refuted obligations) and compares the real code with the executable contract; skipped draws are not counted",
               contract_evaluations_by_case=counts, skipped=sum(r["skips"] for r in allres), harness_errors=len(errs), harness_error_sample=(errs[0].get("harness_error", "")[:1500] if errs else ""),
               unconfirmed=[dict(case=u["case"], msg=u["msg"]) for u in unconf][:5])
    if proof is not None:
        cov.update(obligations=len(obl), discharged=sum(o["status"] == "proved" for o in obl),
                   checker_cmd=f"{PYVT} {HERE}/pyvc/main.py {a.prop} --out proof.json",
                   trusted_base=proof.get("trusted", []),
                   functions_under_contract=proof.get("functions", []),
                   backends=proof.get("backends", {}), solver_seconds=proof.get("solver_seconds", 0.0),
                   second_solver=proof.get("second_solver"), proof_wall_s=proof.get("wall", 0), source_digest=proof.get("digest"),
                   obligations_detail=[dict(name=o["name"], status=o["status"], by=o.get("by"), t=o.get("t"), note=o.get("note", "")[:300]) for o in obl],
                   bounded_stand_in=[o["name"] for o in undecided], proof_error=proof.get("error"), vacuity=proof.get("vacuity", {}))
    if not QUICK:
        cov["metatheory"] = metatheory()
    cov["explanation"] = "contracts discharged for all inputs by pyvc where 'proved'; entries of bounded_stand_in were only checked on the evaluations counted here"
    os.makedirs(EVID, exist_ok=True)
    json.dump(dict(property=a.prop, tier=a.tier, seed=SEED, level=level, coverage=cov,
                   assumptions=(proof or {}).get("assumptions", ["real arithmetic: rounding is not modelled"]),
                   wall_s=round(time.time() - T0, 2), violations=code), open(os.path.join(EVID, f"{a.prop}.json"), "w"), indent=1, default=str)
    print(f"{a.prop}: proof {cov.get('discharged', 0)}/{cov.get('obligations', 0)} discharged, {len(refuted)} refuted, {len(undecided)} undecided; "
          f"{ev} contract evaluations on the real code; {len(errs)} harness errors; {time.time() - T0:.0f} s")
    if line:
        if viol:
            print(f"  {viol['case']}: {viol['msg']}")
        for o in refuted[:5]:
            print(f"  failed obligation: {o['name']}: {o.get('note', '')[:300]}")
        print(line)
    return code


try:
    rc = main()
finally:
    shutil.rmtree(TMP, ignore_errors=True)
sys.exit(rc)
