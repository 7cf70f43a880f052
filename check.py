#!/usr/bin/env python3
"""Decide one property: python3-vt check.py C01 [--tier quick|thorough] | --replay FILE

Exit 0: every obligation generated from /repo's current source was discharged, or what the
verifier could not decide was at least explored by the labelled bounded checks without a
violation.  Exit 1 with a VIOLATION line: an obligation is refuted, or a contract was seen to
fail on the real code.
"""
from __future__ import annotations

import argparse
import faulthandler
import importlib
import json
import multiprocessing as mp
import os
import pickle
import base64
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
# the dependencies the repository's own tests run with
DEPS = "/opt/venv/lib/python3.12/site-packages"
sys.path[:0] = [ROOT, REPO_SRC] + ([DEPS] if os.path.isdir(DEPS) else [])
sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang("time limit")


def job(spec):
    kind, pid, arg, tier, seed, budget = spec
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, budget + 25)
    t0 = time.time()
    try:
        from pyvc import runner
        if kind == "native-module":
            m = importlib.import_module(f"native.{pid.lower()}")
            from native.common import Ctx
            ctx = Ctx(pid, arg, tier, seed, budget)
            m.PARTS[arg](ctx)
            return dict(kind=kind, part=arg, runs=ctx.runs, distinct=len(ctx.distinct),
                        samples=ctx.samples, violations=ctx.violations, notes=ctx.notes,
                        known=ctx.known, wall_s=time.time() - t0)
        lem = runner.load(pid).LEMMAS[arg]
        if kind == "native":
            r = runner.native_lemma(lem, seed, budget, lem.samples * (10 if tier == "thorough" else 1))
        elif kind == "deep":
            r = runner.native_lemma(lem, f"{seed}-deep", budget, lem.samples * 100, deep=True)
        elif kind == "prove":
            r = runner.prove_lemma(lem, budget, cross=tier == "thorough")
        elif kind == "unroll":
            r = runner.prove_lemma(lem, budget, unroll=lem.unroll or 3)
        r["kind"] = kind
        return r
    except Hang:
        name = arg if kind == "native-module" else runner.load(pid).LEMMAS[arg].name
        return dict(kind=kind, lemma=name, part=name, status="undecided", why="time limit", hang=True,
                    violations=[], runs=0, failures=[], samples=[], notes=[], known=[], distinct=0,
                    stats=None, wall_s=time.time() - t0)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _child(conn, spec):
    try:
        import resource
        lim = 10 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    try:
        conn.send(job(spec))
    except BaseException as e:
        try:
            conn.send(dict(kind=spec[0], lemma=str(spec[2]), part=str(spec[2]), status="undecided",
                           why=f"checker error: {type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:],
                           violations=[], runs=0, failures=[], samples=[], notes=[], known=[],
                           distinct=0, stats=None, wall_s=0, error=True))
        except Exception:
            pass
    conn.close()


def run_jobs(specs, workers, hard):
    """Fork one process per job (isolation from hangs and crashes of the code under test)."""
    ctx = mp.get_context("fork")
    pending = list(enumerate(specs))
    running, out = {}, [None] * len(specs)
    end = time.time() + hard
    while pending or running:
        while pending and len(running) < workers:
            i, sp = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, sp))
            p.start()
            b.close()
            running[i] = (p, a, time.time(), sp)
        for i, (p, a, t, sp) in list(running.items()):
            done = False
            if a.poll(0.01):
                try:
                    out[i] = a.recv()
                except EOFError:
                    pass
                done = True
            elif not p.is_alive():
                done = True
            elif time.time() - t > sp[5] + 60 or time.time() > end:
                p.kill()
                done = True
            if done:
                p.join(5)
                if p.is_alive():
                    p.kill()
                    p.join()
                if out[i] is None:
                    out[i] = dict(kind=sp[0], lemma=str(sp[2]), part=str(sp[2]), status="undecided",
                                  why="checker process ended", violations=[], runs=0, failures=[],
                                  samples=[], notes=[], known=[], distinct=0, stats=None, wall_s=0,
                                  error=True)
                del running[i]
    return out


def dual_show(x):
    from pyvc.dual import show
    return show(x, 4000)


def dump(x):
    try:
        return base64.b64encode(pickle.dumps(x)).decode()
    except Exception:
        return None


def write_replay(pid, n, data):
    d = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{pid}-{n}.json")
    data["property"] = pid
    data["how_to_replay"] = f"cd /verif && python3-vt check.py --replay {p}"
    with open(p, "w") as f:
        json.dump(data, f, indent=1, default=repr)
    return p


def known_findings(pid):
    out = []
    p = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d["property"] == pid and d["status"] == "known":
                    out.append(d)
    return out


def replay(path):
    d = json.load(open(path))
    if d["kind"] == "lemma":
        from pyvc import runner
        lem = next(l for l in runner.load(d["property"]).LEMMAS if l.name == d["lemma"])
        args = pickle.loads(base64.b64decode(d["pickle"]))
        r = lem.run_native(args)
        print("lemma:", lem.name, "\nargs:", dual_show(args), "\nresult:", r)
        sys.exit(1 if r not in (None, "skip") else 0)
    if d["kind"] == "native-module":
        m = importlib.import_module(f"native.{d['property'].lower()}")
        from native.common import Ctx
        ctx = Ctx(d["property"], d["part"], "quick", d.get("seed", 1), 60)
        m.PARTS[d["part"]](ctx)
        print("violations:", json.dumps(ctx.violations, indent=1, default=repr))
        sys.exit(1 if ctx.violations else 0)
    print(json.dumps(d, indent=1)[:4000])
    sys.exit(1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        replay(a.replay)
    pid, tier = a.property, a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    workers = a.jobs or min(8, os.cpu_count() or 2)
    hard = 420 if tier == "quick" else 3000
    mult = 1 if tier == "quick" else 5

    specs = []
    load_errors = []
    lemmas = []
    if os.path.exists(os.path.join(ROOT, "specs", pid.lower() + ".py")):
        try:
            from pyvc import runner
            lemmas = runner.load(pid).LEMMAS
        except Exception as e:
            load_errors.append(f"specs: {type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:])
    parts = []
    if os.path.exists(os.path.join(ROOT, "native", pid.lower() + ".py")):
        try:
            m = importlib.import_module(f"native.{pid.lower()}")
            parts = list(m.PARTS)
        except Exception as e:
            load_errors.append(f"native: {type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:])
    if not lemmas and not parts:
        print("\n".join(load_errors))
        # the code under test cannot even be imported or lost the functions under contract
        path = write_replay(pid, 0, dict(kind="load", errors=load_errors))
        print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
        sys.exit(1)
    for p in parts:
        specs.append(("native-module", pid, p, tier, seed, 40 * mult))
    for i, l in enumerate(lemmas):
        if l.symbolic:
            specs.append(("prove", pid, i, tier, seed, l.budget_s * mult))
    for i, l in enumerate(lemmas):
        if l.native:
            specs.append(("native", pid, i, tier, seed, 15 * mult))
    results = run_jobs(specs, workers, hard)

    by = {}
    for sp, r in zip(specs, results):
        by[(sp[0], sp[2])] = r
    # bounded fallback for lemmas the verifier did not decide
    retry = [i for i, l in enumerate(lemmas) if l.symbolic and by[("prove", i)]["status"] != "proved"]
    if retry:
        sp2 = [("unroll", pid, i, tier, seed, 40 * mult) for i in retry]
        for sp, r in zip(sp2, run_jobs(sp2, workers, 200 if tier == "quick" else 1500)):
            by[("unroll", sp[2])] = r

    # an obligation failed: search harder for a concrete input on which the lemma fails
    search = [i for i in retry if lemmas[i].native]
    if search:
        sp3 = [("deep", pid, i, tier, seed, 60 * mult) for i in search]
        for sp, r in zip(sp3, run_jobs(sp3, workers, 150 if tier == "quick" else 1500)):
            by[("deep", sp[2])] = r

    violations = []      # (concrete?, replay dict)
    known = known_findings(pid)
    known_seen = {}
    for key, r in by.items():
        if key[0] == "native-module":
            for v in r["violations"]:
                violations.append((True, dict(kind="native-module", part=r["part"], seed=seed, **v)))
            for kf in r.get("known", []):
                known_seen[kf] = True
            if r.get("hang"):
                r["why"] = "time limit"
        elif key[0] in ("native", "deep"):
            for v in r["violations"]:
                violations.append((True, dict(kind="lemma", lemma=v["lemma"], obligation=v["label"],
                                              info=v["info"], args=dual_show(v["args"]),
                                              pickle=dump(v["args"]))))
    refuted = []
    for i in retry:
        l = lemmas[i]
        p, u = by[("prove", i)], by.get(("unroll", i))
        for src in (p, u):
            for f in (src or {}).get("failures", []):
                conc = None
                if l.native and f["model"] is not None:
                    try:
                        args = tuple(d.from_model(f["model"][n]) if n in f["model"] else None
                                     for n, d in l.doms.items())
                        if all(x is not None or f["model"].get(n, 0) is None
                               for x, n in zip(args, l.doms)):
                            conc = (args, l.run_native(args))
                    except Exception:
                        conc = None
                if conc and conc[1] not in (None, "skip"):
                    violations.append((True, dict(kind="lemma", lemma=l.name, obligation=f["obligation"],
                                                  info=conc[1], args=dual_show(conc[0]),
                                                  pickle=dump(conc[0]), solver_model=f["model"])))
                else:
                    if conc:
                        f["note"] = "the solver's model does not reproduce on the real code"
                    # definite only when the exploration was complete, or exact (unrolled)
                    if f["solver_answer"] == "sat" and not src["approx"] and (src is u or src["status"] == "failed"):
                        refuted.append((l, f, src))
    if not any(c for c, _ in violations):
        for l, f, src in refuted:
            violations.append((False, dict(kind="obligation", lemma=l.name, statement=l.statement, **f)))

    # ---- evidence ---------------------------------------------------------
    tot = dict(obligations=0, discharged=0, trivial=0, solver_s=0.0, queries=0, paths=0)
    backends, functions, trusted, labels, loops, lem_out = {}, {}, {}, {}, {}, []
    undecided = []
    for i, l in enumerate(lemmas):
        if not l.symbolic:
            continue
        r = by[("prove", i)]
        s = r.get("stats")
        if s:
            for k in tot:
                tot[k] += s[k]
            for d, o in ((backends, s["by_backend"]), (trusted, s["trusted"]), (labels, s["labels"])):
                for k, v in o.items():
                    d[k] = d.get(k, 0) + v
            for k, v in s["functions"].items():
                if functions.get(k) != "contract":
                    functions[k] = v
            loops.update(s["loops"])
        missing = [c for c in l.covers if not (s and s["covers"].get(c))]
        if r["status"] == "proved" and (missing or not s["obligations"]):
            r["status"] = "undecided"
            r["why"] = f"vacuous: {missing or 'no obligations'}"
        if r["status"] != "proved":
            undecided.append(f"{l.name}: {r['status']} ({r.get('why')})")
        u = by.get(("unroll", i))
        lem_out.append(dict(lemma=l.name, statement=l.statement, status=r["status"], why=r.get("why"),
                            obligations=s["obligations"] if s else 0,
                            discharged=s["discharged"] if s else 0, paths=s["paths"] if s else 0,
                            wall_s=round(r["wall_s"], 2),
                            failed=[f["obligation"] for f in r.get("failures", [])],
                            bounded_fallback=None if not u else dict(
                                unrolled=l.unroll or 3, status=u["status"], why=u.get("why"))))
    meta = {}
    try:
        from specs import meta as M
        meta = M.META.get(pid, {})
    except Exception:
        pass
    bounded_runs = sum(r["runs"] for k, r in by.items() if k[0] in ("native", "deep", "native-module"))
    distinct = sum(r.get("distinct", 0) for k, r in by.items() if k[0] == "native-module")
    samples = []
    for k, r in by.items():
        if k[0] == "native-module":
            samples += r["samples"][:2]
    level = meta.get("level", "proof" if any(l.symbolic for l in lemmas) else "exploration")
    cov = dict(obligations=tot["obligations"], discharged=tot["discharged"],
               checker_cmd=f"cd /verif && python3-vt check.py {pid} --tier {tier}",
               trusted_base=TRUSTED + [f"engine model of {k} (used {v} times)" for k, v in sorted(trusted.items())],
               functions_under_contract=dict(sorted(functions.items())),
               by_backend=backends, solver_s=round(tot["solver_s"], 2), solver_queries=tot["queries"],
               discharged_by_simplification=tot["trivial"], paths=tot["paths"],
               loop_invariants=loops, lemmas=lem_out, obligation_labels=labels,
               undecided=undecided,
               bounded=dict(
                   note="run-time contract checks on the real code under CPython; not counted as proved",
                   executions=bounded_runs, distinct_in_modules=distinct,
                   parts=[dict(part=r["part"], runs=r["runs"], distinct=r["distinct"], notes=r["notes"],
                               wall_s=round(r["wall_s"], 2), why=r.get("why"))
                          for k, r in by.items() if k[0] == "native-module"],
                   lemmas={r["lemma"]: r["runs"] for k, r in by.items() if k[0] == "native"}),
               samples=samples[:8], explanation=meta.get("explanation", ""))
    cov["evaluations"] = bounded_runs
    cov["distinct_nontrivial"] = distinct
    cov["rule"] = RULE
    if load_errors:
        cov["load_errors"] = load_errors
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=ASSUME + meta.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)

    # ---- report -----------------------------------------------------------
    print(f"{pid} [{tier}] obligations {tot['obligations']} discharged {tot['discharged']} "
          f"({len(lem_out)} lemmas, {tot['paths']} paths, solver {tot['solver_s']:.1f}s); "
          f"bounded runs {bounded_runs}; wall {time.time() - t0:.1f}s")
    for e in load_errors:
        print("  checker:", e[-800:])
    for u in undecided:
        print("  not decided deductively:", str(u)[:400])
    for k, r in by.items():
        if r.get("error") or r.get("hang"):
            print("  checker:", k[0], r.get("lemma") or r.get("part"), str(r.get("why"))[-600:])
    if a.v:
        for l in lem_out:
            print(f"   {l['status']:10} {l['obligations']:4} {l['wall_s']:6.1f}s  {l['lemma']}")
    for kf in known:
        if kf["id"] in known_seen:
            print(f"KNOWN-FINDING: property={pid} {kf['what']}")
    if violations:
        seen = 0
        for conc, d in violations[:5]:
            path = write_replay(pid, seen, d)
            seen += 1
            what = d.get("obligation") or d.get("label") or d.get("lemma")
            print(f"  violated: {what}: {str(d.get('info') or d.get('detail') or d.get('model'))[:600]}")
            print(f"VIOLATION property={pid} replay={path}" + ("" if conc else " no-failing-input-found"))
        sys.exit(1)
    sys.exit(0)


RULE = ("bounded part: cases come from the edge lists and seeded generators of native/<property>.py and of the lemmas' "
        "parameter domains; distinct ones are counted by their printed form, each calls into the code under test")
TRUSTED = [
    "pyvc: the symbolic interpreter for the Python subset used by /repo (parses /repo's source with ast on every run)",
    "z3 4.x (verdicts of 'unknown' go to cvc5; the thorough tier re-checks every obligation with cvc5)",
    "CPython's ast module and import system (functions are located by file, name and line)",
]
ASSUME = [
    "sequential execution; no other thread mutates the streams or values",
    "memory and recursion limits are not modelled",
    "lengths of strings and buffers are below 2**30",
]

if __name__ == "__main__":
    main()
