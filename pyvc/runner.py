"""Runs the lemmas of one property: symbolically (proof) and natively (replay/cross-check)."""
from __future__ import annotations

import importlib
import itertools
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def prove_lemma(lem, deadline_s, unroll=None, cross=False):
    from .core import Engine, Unsupported, Budget
    from .interp import Interp
    from . import models  # noqa: F401
    t0 = time.time()
    E = Engine(lem.name, timeout_ms=lem.timeout_ms, deadline=t0 + deadline_s,
               unroll=unroll, max_paths=lem.max_paths,
               backends=("z3", "cvc5") if cross else ("z3",))
    E.approx = False
    I = Interp(E)
    res = dict(lemma=lem.name, status="proved", why=None, failures=[])

    def body():
        I.reset()
        lem.body(I)

    try:
        ok = E.explore(body)
        if not ok:
            res["status"] = "failed"
    except (Unsupported, Budget) as e:
        res["status"] = "undecided"
        res["why"] = f"{type(e).__name__}: {e} (at {E.where})"
        if os.environ.get("PYVC_TRACE"):
            print("".join(traceback.format_exc().splitlines(True)[-8:]))
    except RecursionError:
        res["status"] = "undecided"
        res["why"] = "recursion limit of the engine"
    except Exception as e:
        res["status"] = "undecided"
        res["why"] = f"engine error {type(e).__name__}: {e} (at {E.where})"
        if os.environ.get("PYVC_TRACE"):
            print("".join(traceback.format_exc().splitlines(True)[-12:]))
    res["failures"] = [f.as_json() for f in E.failures]
    res["approx"] = bool(getattr(E, "approx", False)) or not lem.exact
    res["wall_s"] = time.time() - t0
    res["bounded"] = E.bounded_used
    s = E.stats
    res["stats"] = dict(paths=s.paths, obligations=s.obligations, discharged=s.discharged,
                        trivial=s.trivial, by_backend=s.by_backend, solver_s=s.solver_s,
                        queries=s.queries, functions=s.functions, trusted=s.trusted,
                        labels=s.labels, loops=s.loops, covers=s.covers)
    return res


def native_lemma(lem, seed, budget_s, samples, deep=False):
    """Concrete search for a violation of one lemma (deep: after its proof failed)."""
    r = random.Random(f"{seed}:{lem.name}")
    t0 = time.time()
    n = skipped = 0
    doms = list(lem.doms.values())
    edges = [d.edges() for d in doms]
    size = 1
    for e in edges:
        size *= max(1, len(e))
    found = []

    def tryone(args):
        nonlocal n, skipped
        res = lem.run_native(args)
        n += 1
        if res == "skip":
            skipped += 1
        elif res is not None:
            found.append(dict(lemma=lem.name, args=args, label=res[0], info=res[1]))

    if not doms:
        tryone(())
    elif size <= max(4000, samples):
        for args in itertools.product(*edges):
            tryone(args)
            if found or time.time() - t0 > budget_s:
                break
    far = [d.deep() for d in doms]
    for k, f in enumerate(far):
        t1 = time.time()
        for v in f if deep else r.sample(f, min(len(f), 12)):
            if found or time.time() - t1 > (budget_s if deep else budget_s / 5):
                break
            for _ in range(4 if deep else 1):
                tryone(tuple(v if j == k else (r.choice(e) if e else d.rand(r))
                             for j, (d, e) in enumerate(zip(doms, edges))))
    if doms:
        for i in range(samples):
            if found or time.time() - t0 > budget_s:
                break
            args = tuple(r.choice(g) if g and deep and r.random() < 0.1 else
                         r.choice(e) if e and r.random() < 0.4 else d.rand(r)
                         for d, e, g in zip(doms, edges, far))
            tryone(args)
    return dict(lemma=lem.name, runs=n, skipped=skipped, violations=found[:3],
                wall_s=time.time() - t0)


def load(pid):
    return importlib.import_module(f"specs.{pid.lower()}")
