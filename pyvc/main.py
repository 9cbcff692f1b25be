#!/usr/bin/env python3
"""main.py PROP --out proof.json [--tier quick|thorough] [--seconds N]

Generates the obligations of one property from the current sources in $VERIF_REPO and discharges them."""
import argparse, hashlib, json, multiprocessing as mp, os, sys, time, traceback, resource

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--out")
ap.add_argument("--tier", default="quick")
ap.add_argument("--seconds", type=float, default=240)
ap.add_argument("--only", default=None)
ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "4")))
ap.add_argument("-v", action="store_true")
a = ap.parse_args()
T0 = time.time()
import cross, interp, prove, vc
from interp import Machine, Heap, Unsupported, PyRaise
import contracts  # registers tasks and stubs

cross.ON = cross.ON or a.tier == "thorough"
REPO = os.environ.get("VERIF_REPO", "/repo")


def digest():
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "flory"))):
        for f in sorted(fs):
            if f.endswith(".py"):
                h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()[:16]


def child(conn, t, stubs, seconds):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    m = MACHINE
    res = dict(obls=[], error=None, functions=[], trusted=[], stats={}, stubs=[])
    v = vc.V(m, t["name"], a.tier, seconds)
    used = set()

    def wrap(q, f):
        def g(mm, args, kw):
            used.add(q)
            return f(mm, args, kw)
        return g
    m.stubs = {q: wrap(q, f) for q, f in vc.STUBS.items() if q in stubs and q != t["internal"]}
    m.functions = set()
    m.trusted = set()
    z0 = {**prove.STATS, **cross.STATS}
    try:
        t["fn"](v)
    except vc.Vacuous:
        pass
    except (Unsupported, vc.Missing) as e:
        res["error"] = f"outside the verified subset: {e} (at {m.where()})"
    except PyRaise as e:
        res["error"] = f"setup raises {e} (at {m.where()})"
    except MemoryError:
        res["error"] = "memory limit"
    except RecursionError:
        res["error"] = "recursion limit"
    except Exception:
        res["error"] = "engine: " + traceback.format_exc()[-1500:]
    if v.engine_errors:
        print("engine error in the refuter:", v.engine_errors[0], file=sys.stderr)
    res.update(obls=v.obls, functions=sorted(m.functions | v.functions), trusted=sorted(m.trusted), paths=v.paths,
               stats={k: {**prove.STATS, **cross.STATS}[k] - z0[k] for k in z0}, stubs=sorted(used))
    try:
        conn.send(res)
    except Exception as e:
        conn.send(dict(obls=[], error="cannot send: %r" % e, functions=[], trusted=[], stats={}, stubs=[]))
    conn.close()


def run_tasks(tasks, stubs):
    """-> {name: result}"""
    out, pend, live = {}, list(tasks), []
    while pend or live:
        while pend and len(live) < a.jobs:
            t = pend.pop(0)
            sec = t["seconds"] * (1 if a.tier == "quick" else 5)
            sec = min(sec, max(5, a.seconds - (time.time() - T0)))
            r, w = mp.Pipe(False)
            p = mp.Process(target=child, args=(w, t, stubs, sec))
            p.start()
            w.close()
            live.append((t, p, r, time.time() + sec + 20))
        for x in list(live):
            t, p, r, end = x
            done = None
            if r.poll(0.02):
                try:
                    done = r.recv()
                except EOFError:
                    done = dict(obls=[], error="prover process died", functions=[], trusted=[], stats={}, stubs=[])
            elif time.time() > end:
                p.kill()
                done = dict(obls=[], error="time limit", functions=[], trusted=[], stats={}, stubs=[])
            elif not p.is_alive() and not r.poll(0.2):
                done = dict(obls=[], error="prover process died", functions=[], trusted=[], stats={}, stubs=[])
            if done is not None:
                p.join(1)
                if p.is_alive():
                    p.kill()
                out[t["name"]] = done
                live.remove(x)
    return out


def good(r):
    return r["error"] is None and r["obls"] and all(o["status"] == "proved" for o in r["obls"])


def main():
    global MACHINE
    error = None
    try:
        MACHINE = Machine()
        MACHINE.load("flory")
        MACHINE.base_heap = len(Heap.objs)
    except Unsupported as e:
        error = f"package cannot be loaded symbolically: {e} (at {MACHINE.where()})"
    except PyRaise as e:
        error = f"importing the package raises {e} (at {MACHINE.where()})"
    except Exception:
        error = "engine: " + traceback.format_exc()[-1500:]
    obls, functions, trusted, stats, notes = [], set(), set(), {}, []
    by_task = {}
    if error is None:
        sel = [t for t in vc.TASKS if a.prop in t["props"] and (not a.only or a.only in t["name"])]
        internal = [t for t in sel if t["internal"]]
        public = [t for t in sel if not t["internal"]]
        r1 = run_tasks(internal, set(vc.STUBS))
        bad = {t["internal"] for t in internal if not good(r1[t["name"]])}
        proved = {t["internal"] for t in internal} - bad
        r2 = run_tasks(public, proved)
        redo = [t for t in public if not good(r2[t["name"]]) and r2[t["name"]]["stubs"]]
        if redo and a.seconds - (time.time() - T0) > 10:
            r3 = run_tasks(redo, set())
            for t in redo:
                x, y = r3[t["name"]], r2[t["name"]]
                nb = lambda r: (r["error"] is not None, sum(o["status"] != "proved" for o in r["obls"]))
                # without contracts of callees the verdict concerns the code alone
                if good(x) or x["error"] is None:
                    r2[t["name"]] = x
                else:
                    for o in y["obls"]:
                        if o["status"] == "refuted":
                            o["status"], o["note"] = "other", "failed against the contracts of its callees; " + o["note"]
        allgood_public = all(good(r2[t["name"]]) for t in public) if public else False
        for t in internal + public:
            r = r1.get(t["name"]) or r2.get(t["name"])
            if r["error"]:
                obls.append(dict(name=t["name"] + ": contract is within reach", status="other", by="", t=0, note=r["error"], models=[]))
            elif not r["obls"]:
                obls.append(dict(name=t["name"] + ": generates obligations", status="other", by="", t=0, note="no obligation generated", models=[]))
            for o in r["obls"]:
                o = dict(o)
                if t["internal"] and o["status"] == "refuted" and public:
                    # a changed internal function is no violation unless a public contract fails too
                    if allgood_public or not any(p["status"] == "refuted" for q in public for p in r2[q["name"]]["obls"]):
                        o["status"] = "other"
                        o["note"] = "internal contract fails, no public contract is refuted; " + o["note"]
                obls.append(o)
            by_task[t["name"]] = dict(obligations=len(r["obls"]), paths=r.get("paths", 0), stubs=r["stubs"], error=r["error"])
            functions |= set(r["functions"])
            trusted |= set(r["trusted"])
            for k, x in r["stats"].items():
                stats[k] = stats.get(k, 0) + x
    by = {}
    for o in obls:
        if o["status"] == "proved":
            by[o["by"]] = by.get(o["by"], 0) + 1
    out = dict(property=a.prop, obligations=obls, error=error, trusted=sorted(trusted), functions=sorted(functions), backends=by,
               solver_seconds=round(stats.get("z3_time", 0) + stats.get("cvc5_time", 0), 3), wall=round(time.time() - T0, 2), digest=digest(), tasks=by_task,
               second_solver={k: round(x, 2) for k, x in stats.items() if k.startswith("cvc5")} if cross.ON else None,
               assumptions=contracts.ASSUMPTIONS, vacuity=dict(z3_calls=stats.get("z3_calls", 0), preconditions_checked_satisfiable=True))
    if a.out:
        json.dump(out, open(a.out, "w"), indent=1, default=str)
    n = sum(o["status"] == "proved" for o in obls)
    print(f"{a.prop}: {n}/{len(obls)} proved, {sum(o['status'] == 'refuted' for o in obls)} refuted, {out['wall']} s, z3 {out['solver_seconds']} s", error or "")
    if a.v:
        for k, x in by_task.items():
            print("  ", k, x)
    for o in obls:
        if o["status"] != "proved":
            print("  ", o["status"], o["name"], "|", o["note"][:600], "|", str(o["models"])[:400])


main()
