"""Run the concrete contract checks of one property on the real code.

  runner.py PROP --n N --seed S [--hints H.json] --out OUT.json [--only name] [--progress P]
"""
import argparse
import re, json, os, sys, time, traceback, signal, warnings

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--n", type=int, default=200)
ap.add_argument("--seconds", type=float, default=60)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--hints")
ap.add_argument("--out")
ap.add_argument("--progress")
ap.add_argument("--only")
ap.add_argument("--case-seed", type=int)
ap.add_argument("--jit", action="store_true")
ap.add_argument("--replay", action="store_true")
ap.add_argument("--nojit-data", action="store_true", help="generate the inputs exactly as the run without compilation did")
a = ap.parse_args()
if not a.jit:
    os.environ["NUMBA_DISABLE_JIT"] = "1"
REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.realpath(__file__))
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter("ignore")
import logging
logging.disable(logging.CRITICAL)
import numpy as np
np.seterr(all="ignore")
import flory
assert os.path.realpath(flory.__file__).startswith(os.path.realpath(REPO)), flory.__file__
import gen
MODS = {"C01": "c_thermo", "C02": "c_thermo", "C03": "c_thermo", "C04": "c_param", "C05": "c_param", "C06": "c_solver", "C07": "c_solver", "C08": "c_solver",
        "C09": "c_finder", "C10": "c_solver", "C11": "c_solver", "C12": "c_solver", "C13": "c_phases", "C14": "c_finder", "C15": "c_finder", "C16": "c_phases",
        "C17": "c_finder", "C18": "c_finder"}
__import__(MODS[a.prop])
hints = json.load(open(a.hints)) if a.hints else {}
mined = gen.mine_constants()
cases = [c for c in gen.CASES[a.prop] if not a.only or c["name"] == a.only]


def js(x):
    if isinstance(x, np.ndarray):
        return x.tolist() if x.size <= 400 else {"shape": x.shape, "head": x.ravel()[:50].tolist()}
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, dict):
        return {str(k): js(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [js(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:300]


class Hang(Exception):
    pass


def on_alarm(*_):
    raise Hang()


signal.signal(signal.SIGALRM, on_alarm)


def run_one(c, seed):
    g = gen.G(seed, hints, mined, a.jit and not a.nojit_data)
    if not a.jit:
        signal.alarm(60 if c["slow"] else 30)
    try:
        c["f"](g)
        return None
    except gen.Skip:
        return "skip"
    except gen.Fail as e:
        return dict(msg=e.msg, data=js(e.data))
    except gen.Protocol:
        return dict(harness_error=traceback.format_exc())
    except Hang:
        return dict(msg="did not terminate", data={})
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f"{os.path.relpath(t.filename, REPO)}:{t.lineno}" for t in tb if os.path.realpath(t.filename).startswith(os.path.realpath(REPO))]
        lib = any("/numba/" in t.filename for t in tb)
        # an error in a stand-in of the harness that the package called is the harness's own
        where = ["repo" if os.path.realpath(t.filename).startswith(os.path.realpath(REPO)) else "own" if os.path.realpath(t.filename).startswith(HERE) else "lib" for t in tb]
        back = "repo" in where and "own" in where[len(where) - where[::-1].index("repo"):]
        if not inrepo and isinstance(e, TypeError) and re.search(r"missing .*argument|too many .*arguments|unexpected keyword|not enough arguments|positional argument", str(e)):
            back = True  # an internal function is called differently now
        if (inrepo or lib) and not back:
            return dict(msg=f"valid use raised {type(e).__name__}: {str(e)[:300]}", data={"at": inrepo})
        return dict(harness_error=traceback.format_exc())
    finally:
        signal.alarm(0)


def main():
    t0 = time.time()
    counts, fails, errors, skips, samples = {}, [], [], 0, []
    w = np.array([c["jit_weight"] if a.jit else c["weight"] for c in cases], float)
    if a.case_seed is not None:
        plan = [(c, a.case_seed) for c in cases]
    else:
        root = np.random.default_rng([a.seed, 7 if a.jit else 0])
        quota = np.maximum(1, np.round(a.n * w / w.sum())).astype(int)
        plan = [(c, int(root.integers(1 << 60))) for c, q in zip(cases, quota) for _ in range(q)]
        # interleave, every kind first
        idx = sorted(range(len(plan)), key=lambda i: (sum(1 for j in range(i) if plan[j][0] is plan[i][0]) / max(1, quota[cases.index(plan[i][0])])) if len(plan) < 400 else root.random())
        if len(plan) >= 400:
            first = {}
            for i, (c, s) in enumerate(plan):
                first.setdefault(c["name"], i)
            fs = set(first.values())
            idx = sorted(fs) + [i for i in idx if i not in fs]
        plan = [plan[i] for i in idx]
    for c, seed in plan:
        if time.time() - t0 > a.seconds and counts.get(c["name"]):
            continue
        if a.progress:
            with open(a.progress, "w") as f:
                f.write(json.dumps([c["name"], seed, time.time()]))
        r = run_one(c, seed)
        if r == "skip":
            skips += 1
            continue
        counts[c["name"]] = counts.get(c["name"], 0) + 1
        if len(samples) < 3:
            samples.append({"case": c["name"], "seed": seed})
        if r is None:
            continue
        r.update(case=c["name"], seed=seed)
        if "harness_error" in r:
            errors.append(r)
        else:
            fails.append(r)
            if len(fails) >= 3:
                break
    out = dict(prop=a.prop, jit=a.jit, counts=counts, skips=skips, fails=fails, errors=errors, samples=samples, wall=time.time() - t0)
    if a.out:
        json.dump(out, open(a.out, "w"))
    else:
        print(json.dumps(out, indent=1)[:6000])
    if a.replay:
        sys.exit(1 if fails else 0)


main()
