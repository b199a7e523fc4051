"""Driver:  run.py PROPERTY [--tier quick|thorough] [--harness NAME] [--shard N] [--jobs N]

Exit 0: every path explored satisfied the property.  Exit 1 with a VIOLATION line: a counterexample was found
and reproduced on the un-instrumented code.  Exit 2: the check itself is in trouble (see stderr).
"""

import argparse
import hashlib
import importlib
import itertools
import json
import multiprocessing
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "databind", "src")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def setup_paths():
    own = os.path.join(HERE, "symex")
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != own]
    for p in (SRC, HERE):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    if VT not in sys.path:
        sys.path.append(VT)


def load_symbolic(prop):
    setup_paths()
    from symex import instrument, schedule

    instrument.STEPS = prop in schedule.SWITCHING
    if instrument.STEPS:
        schedule.install_locks()
    instrument.install(["databind", "props", "nr.stream", "nr.date.format_sets"])
    from symex import opaque

    opaque.install()
    importlib.import_module(f"props.{prop.lower()}")
    check_origin()


def check_origin():
    import databind.json

    f = os.path.realpath(databind.json.__file__)
    if not f.startswith(os.path.realpath(SRC) + os.sep):
        raise SystemExit(f"databind was imported from {f}, not from {SRC}")


MAX_VIOLATIONS = 6
FAILFAST = bool(os.environ.get("VERIF_FAILFAST"))  # (for the mutation tests)
CRASH = "the scenario crashed"
STRICT = os.environ.get("VERIF_STRICT") == "1"
SAMPLE_LIMIT = {"quick": 60, "thorough": 200}


def run_task(task):
    """Explore one shard of one harness (in a worker process)."""
    prop, hname, idx, tier, seed, budget, end = task
    from symex import ctx as C
    from symex import harness as H
    from symex import witness as W
    from symex.engine import BudgetExceeded, Control, Engine, EngineError
    import z3

    h = H.find(prop, hname)
    params = h.shard_list(tier)[idx]
    t0 = time.monotonic()
    E = Engine(seed=seed, max_paths=h.max_paths, deadline=max(t0 + 2, min(t0 + budget, end)))
    out = {
        "harness": hname, "shard": idx, "params": _show(params), "violations": [], "traces": [], "error": None,
        "unwitnessed": 0,
    }
    cover = {}
    limit = SAMPLE_LIMIT[tier]
    counters = {"n": 0, "next": 1}

    def witness_for(e_extra):
        """(witness, model) for the current path plus constraints, honouring the opaque stubs."""
        hints = W.opaque_hints(E)
        r = E._check(*(list(e_extra) + hints))
        import z3

        if r != z3.sat:
            return None, None
        m = E.solver.model()
        return W.build(E, m), m

    def record_violation(ctx, msg, e, model):
        if any(v["msg"] == msg for v in out["violations"]) and len(out["violations"]) >= 3:
            return
        if len(out["violations"]) >= MAX_VIOLATIONS:
            return
        import z3

        w, m = witness_for([z3.Not(e)])
        v = {"msg": msg, "witness": w, "harness": hname, "shard": idx, "params": params_key(params)}
        pools = {n: x[1].base for n, (kind, x) in E.inputs.items() if kind == "opaque"}
        if w is None and pools and E._check(z3.Not(e)) == z3.sat:
            v["weak"] = W.build(E, E.solver.model())  # (the samples of the opaque functions do not fit it)
        if pools:
            v["pools"] = pools
        out["violations"].append(v)

    E.record_violation = record_violation

    def run_path(engine):
        engine.path_cover = set()
        ctx = C.SymCtx(engine)
        try:
            h.fn(ctx, **params)
        except Exception as exc:  # the scenario itself crashed: a violation if the real code does the same
            import z3

            if os.environ.get("VERIF_TRACE"):
                traceback.print_exc()
            record_violation(ctx, f"{CRASH}: {type(exc).__name__}", z3.BoolVal(False), None)
            counters["crash"] = counters.get("crash", 0) + 1
            return
        for c in engine.path_cover:
            cover[c] = cover.get(c, 0) + 1
        counters["n"] += 1
        if counters["n"] >= counters["next"] and len(out["traces"]) < limit:
            # thin out: 1, 2, 3 ... then every 1.1x
            counters["next"] = max(counters["n"] + 1, int(counters["n"] * 1.08))
            w, m = witness_for([])
            if w is None:
                out["unwitnessed"] += 1
            else:
                conc = W.Concretizer(m)
                out["traces"].append(
                    {"witness": w, "obs": [C.describe(o, conc) for o in engine.observations],
                     "cover": sorted(engine.path_cover)}
                )

    try:
        out["complete"] = E.explore(run_path)
    except EngineError as exc:
        out["complete"] = False
        out["error"] = f"engine: {exc}"
        out["trace"] = traceback.format_exc()
    except z3.Z3Exception as exc:
        out["complete"] = False
        out["error"] = f"solver: {exc}"
        out["trace"] = traceback.format_exc()
    except Exception as exc:  # an exception that escapes the harness is a harness/engine problem
        out["complete"] = False
        out["error"] = f"{type(exc).__name__}: {exc}"
        out["trace"] = traceback.format_exc()
    out["stats"] = E.stats.as_dict()
    out["cover"] = cover
    out["cuts"] = E.cuts
    out["inconclusive"] = E.inconclusive
    out["functions"] = sorted(E.functions)
    out["wall"] = time.monotonic() - t0
    return out


def _show(params):
    return {k: repr(v)[:120] for k, v in params.items()}


def params_key(params):
    return {k: repr(v) for k, v in params.items()}


def replay_batch(prop, items, tier, timeout=600):
    """Run witnesses on the un-instrumented code in a fresh process."""
    inp = json.dumps({"property": prop, "tier": tier, "items": items})
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run(
        [sys.executable, os.path.join(HERE, "symex", "replay.py"), "--batch"], input=inp, capture_output=True, text=True,
        timeout=timeout, env=env,
    )
    if p.returncode != 0:
        raise RuntimeError(f"replay process failed: {p.stderr[-3000:]}")
    return json.loads(p.stdout.splitlines()[-1])


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=None, choices=["quick", "thorough"])
    ap.add_argument("--harness")
    ap.add_argument("--shard", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("-v", "--verbose", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = a.property.upper()
    t0 = time.monotonic()
    if os.environ.get("PYTHONHASHSEED") != "0":
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        os.execve(sys.executable, [sys.executable, os.path.abspath(__file__)] + (argv or sys.argv[1:]), env)
    try:
        load_symbolic(prop)
    except Exception:
        # The scenarios of this property cannot even be set up (types declared, settings attached): if the real code
        # without the rewriting fails in the same way, that is a violation.
        traceback.print_exc()
        path = write_import_replay(prop, tier)
        p = subprocess.run([sys.executable, os.path.join(HERE, "symex", "replay.py"), path], capture_output=True, text=True)
        if p.returncode == 1:
            print(p.stdout.strip())
            print(f"VIOLATION property={prop} replay={path}", flush=True)
            return 1
        print(f"INCONCLUSIVE: the scenarios of {prop} could not be set up symbolically", file=sys.stderr)
        return 2 if STRICT else 0
    from symex import harness as H

    budget = a.budget or (400 if tier == "quick" else 3000)
    tasks = []
    for h in H.REGISTRY[prop]:
        if a.harness and h.name != a.harness:
            continue
        for i in range(len(h.shard_list(tier))):
            if a.shard is None or a.shard == i:
                tasks.append((prop, h.name, i, tier, seed, budget, t0 + budget))
    results = []
    if a.jobs == 1 or len(tasks) == 1:
        for task in tasks:
            results.append(run_task(task))
            if a.verbose:
                progress(results[-1])
    else:
        mp = multiprocessing.get_context("fork")
        with mp.Pool(min(a.jobs, len(tasks)), maxtasksperchild=8) as pool:
            for r in pool.imap_unordered(run_task, tasks, chunksize=1):
                results.append(r)
                if a.verbose:
                    progress(r)
                if FAILFAST and any(v["witness"] is not None for v in r["violations"]):
                    break
    order = {(p, n, i): k for k, (p, n, i, *_x) in enumerate(tasks)}
    results.sort(key=lambda r: order[(prop, r["harness"], r["shard"])])
    return conclude(prop, tier, seed, results, t0, a)


def progress(r):
    s = r["stats"]
    print(
        f"  {r['harness']}#{r['shard']} {r['params']} paths={s['paths']} cut={s['cut_paths']} q={s['queries']} "
        f"obl={s['obligations']} viol={len(r['violations'])} {r['wall']:.1f}s"
        f"{'' if r['complete'] else ' INCOMPLETE'} {r['error'] or ''} {r['cuts'] or ''}",
        flush=True,
    )
    if r["error"]:
        print(r.get("trace"), flush=True)


def pool_variants(pools):
    names = sorted(pools)
    top = max(pools.values())
    seen = set()
    for c in [[i % pools[n] for n in names] for i in range(top)] + list(
        itertools.islice(itertools.product(*[range(pools[n]) for n in names]), 0, 24)
    ):
        if tuple(c) not in seen:
            seen.add(tuple(c))
            yield dict(zip(names, c))


def conclude(prop, tier, seed, results, t0, a):
    from symex import harness as H

    problems = []
    for r in results:
        if r["error"]:
            problems.append(f"{r['harness']}#{r['shard']} {r['params']}: {r['error']}\n{r.get('trace', '')}")
    # 1. replay violations
    viols = []
    for r in results:
        for v in r["violations"]:
            viols.append(v)
    witnessed = [v for v in viols if v["witness"] is not None]
    confirmed, spurious = [], []
    if witnessed:
        rep = replay_batch(prop, [dict(v, kind="violation") for v in witnessed], tier)
        for v, x in zip(witnessed, rep):
            if x["violation"]:
                confirmed.append(dict(v, detail=x["violation"]))
            elif x["error"]:
                confirmed.append(dict(v, detail=f"{CRASH}: {x['error'].strip().splitlines()[-1]}"))
            else:
                spurious.append((v, x))
    unwit = [v for v in viols if v["witness"] is None]
    # Values of opaque types are arbitrary for the solver: other samples may be the ones that fail.
    tries = []
    for v in ([x for x, _ in spurious] + unwit)[:60]:
        w = v["witness"] or v.get("weak")
        if w is not None and v.get("pools"):
            from symex.ctx import encode

            for change in pool_variants(v["pools"]):
                tries.append((v, dict(w, **{n: encode(i) for n, i in change.items()})))
    if tries:
        rep = replay_batch(prop, [dict(v, witness=w, kind="violation") for v, w in tries], tier)
        done = []
        for (v, w), x in zip(tries, rep):
            if any(v is d for d in done):
                continue
            if x["violation"]:
                confirmed.append(dict(v, witness=w, detail=x["violation"]))
                done.append(v)
            elif x["error"]:
                confirmed.append(dict(v, witness=w, detail=f"{CRASH}: {x['error'].strip().splitlines()[-1]}"))
                done.append(v)
        spurious = [(v, x) for v, x in spurious if not any(v is d for d in done)]
        unwit = [v for v in unwit if not any(v is d for d in done)]
    # 2. validate traces
    validated = 0
    mismatches = []
    items = []
    for r in results:
        for tr in r["traces"]:
            items.append({"kind": "trace", "harness": r["harness"], "shard": r["shard"], **tr})
    samples = []
    if items:
        rep = replay_batch(prop, items, tier)
        for it, x in zip(items, rep):
            if x["discard"]:
                mismatches.append((it, "discarded: " + x["discard"]))
            elif x["violation"]:
                # the concrete run violates the property although the symbolic one does not: report it
                confirmed.append({"harness": it["harness"], "shard": it["shard"], "witness": it["witness"],
                                  "msg": x["violation"], "detail": x["violation"], "via": "trace validation"})
                validated += 1
            elif x["error"]:
                confirmed.append({"harness": it["harness"], "shard": it["shard"], "witness": it["witness"], "msg": CRASH,
                                  "detail": f"{CRASH}: {x['error'].strip().splitlines()[-1]}", "via": "trace validation"})
            elif x["obs"] != it["obs"]:
                mismatches.append((it, f"symbolic {it['obs']} concrete {x['obs']}"))
            else:
                validated += 1
        for it in items[:: max(1, len(items) // 4)][:5]:
            samples.append({"harness": it["harness"], "inputs": {k: v for k, v in list(it["witness"].items())[:14]},
                            "observed": json.dumps(it["obs"])[:300]})
    # 3. vacuity
    missing = []
    if a.harness is None and a.shard is None:
        for h in H.REGISTRY[prop]:
            got = set()
            for r in results:
                if r["harness"] == h.name:
                    got |= set(r["cover"])
            for c in sorted(h.cover - got):
                missing.append(f"{h.name}: {c}")
    known = load_known(prop)
    stats = {}
    for r in results:
        for k, v in r["stats"].items():
            stats[k] = round(stats.get(k, 0) + v, 3)
    cuts, inconclusive, functions = {}, [], set()
    for r in results:
        for k, v in r["cuts"].items():
            cuts[k] = cuts.get(k, 0) + v
        inconclusive += r["inconclusive"]
        functions |= {f for f in r["functions"] if f.startswith("databind")}
    incomplete = [f"{r['harness']}#{r['shard']}" for r in results if not r["complete"]]
    per = {}
    for r in results:
        d = per.setdefault(r["harness"], {"shards": 0, "paths": 0, "cut_paths": 0, "queries": 0, "obligations": 0,
                                          "solver_s": 0.0, "complete": True, "reached": {}})
        d["shards"] += 1
        for k in ("paths", "cut_paths", "queries", "obligations", "solver_s"):
            d[k] = round(d[k] + r["stats"][k], 3)
        d["complete"] = d["complete"] and r["complete"]
        for c, n in r["cover"].items():
            d["reached"][c] = d["reached"].get(c, 0) + n
    for h in H.REGISTRY[prop]:
        if h.name in per:
            per[h.name]["bounds"] = h.bounds
    wall = time.monotonic() - t0
    real_viol, listed = [], {}
    for v in confirmed:
        k = next((k for k in known if matches_known(k, v, tier, prop)), None)
        if k is None:
            real_viol.append(v)
        else:
            listed.setdefault(k["what"], v)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 2),
        "violations": len(real_viol),
        "coverage": {
            "states": int(stats.get("decisions", 0)) + int(stats.get("paths", 0)),
            "transitions": int(stats.get("decisions", 0)) + int(stats.get("queries", 0)),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "states_are": "nodes of the symbolic execution tree: decision nodes plus completed paths",
            "transitions_are": "decisions taken plus solver queries discharged",
            "paths": int(stats.get("paths", 0)),
            "obligations": int(stats.get("obligations", 0)),
            "obligations_discharged_by_solver": int(stats.get("discharged_by_solver", 0)),
            "obligations_decided_without_query": int(stats.get("discharged_concretely", 0)),
            "solver_queries": int(stats.get("queries", 0)),
            "solver_answers": {k: int(stats.get(k, 0)) for k in ("sat", "unsat", "unknown")},
            "solver_s": stats.get("solver_s", 0),
            "exhausted": not incomplete,
            "not_exhausted": incomplete[:40],
            "inconclusive": inconclusive[:40],
            "cuts_outside_the_claim": cuts,
            "realizations": int(stats.get("realizations", 0)),
            "functions_encoded": sorted(functions),
            "harnesses": per,
            "trace_mismatches": len(mismatches),
            "unwitnessed_counterexamples": len(unwit),
            "spurious_counterexamples": len(spurious),
            "not_encodable": [x.splitlines()[0][:300] for x in problems][:20],
            "known_findings_seen": sorted(listed),
        },
        "assumptions": ASSUMPTIONS,
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as fp:
            json.dump(ev, fp, indent=1)
    print(
        f"{prop} {tier}: {int(stats.get('paths', 0))} paths, {int(stats.get('decisions', 0))} decisions, "
        f"{int(stats.get('obligations', 0))} obligations, {int(stats.get('queries', 0))} queries "
        f"({stats.get('solver_s', 0):.1f} s solver), {validated} traces validated, {len(functions)} functions, {wall:.1f} s"
    )
    for c, n in cuts.items():
        print(f"  cut ({n} paths): {c}")
    if incomplete:
        print(f"  NOT EXHAUSTED within the budget: {', '.join(incomplete[:20])}")
    if inconclusive:
        print(f"  INCONCLUSIVE queries: {len(inconclusive)} e.g. {inconclusive[0]}")
    for k in known:
        if k["what"] in listed:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if real_viol:
        seen = set()
        first = None
        for v in real_viol:
            key = (v["harness"], v["msg"].split(":")[0])
            if key in seen:
                continue
            seen.add(key)
            path = write_replay(prop, tier, v)
            print(f"  {v['harness']}#{v['shard']}: {v['detail']}")
            print(f"VIOLATION property={prop} replay={path}", flush=True)
            if len(seen) >= 8:
                break
        return 1
    trouble = []
    if spurious:
        v, x = spurious[0]
        trouble.append(f"{len(spurious)} counterexample(s) did not reproduce on the real code; first: "
                       f"{json.dumps(v)[:2000]} -> {x}")
    if mismatches:
        it, why = mismatches[0]
        trouble.append(f"{len(mismatches)} trace(s) disagree with the real code; first: {json.dumps(it)[:2000]} -> {why}")
    trouble += problems
    if unwit:
        trouble.append(f"{len(unwit)} counterexample(s) without concrete witness; first: {unwit[0]}")
    for x in trouble:
        # The encoding does not fit this tree in these places: no claim is made about them (see the evidence).
        print("INCONCLUSIVE: " + x, file=sys.stderr)
    if trouble and STRICT:
        return 2
    if missing and not incomplete and not trouble:
        print("ERROR: vacuous, never reached: " + "; ".join(missing), file=sys.stderr)
        return 2
    print(f"OK property={prop}")
    return 0


ASSUMPTIONS = [
    "CPython 3.12 semantics outside the rewritten modules (typeapi, dataclasses, enum, abc) run as they are",
    "finite symbolic floats are multiples of 1/8 below 2**49; nan, infinities, -0.0, 0.1, 1e300 and 3 - 2**-51 are explicit alternatives",
    "text produced by !r of a symbolic value is a placeholder (message texts are not part of the claim unless stated)",
    "library codecs (decimal, uuid, base64, pathlib, nr.date) are deterministic partial functions, inverse to their formatter",
]


def load_known(prop):
    """Open findings of the property: lines "finding: {json}" with property, harness, params (of the shard), msg, what."""
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding:"):
                d = json.loads(line[len("finding:"):])
                if d["property"] == prop:
                    out.append(d)
    return out


def matches_known(k, v, tier, prop):
    from symex import harness as H

    if k["harness"] != v["harness"] or not (v["msg"] == k["msg"] or v["detail"].split(": ")[0] == k["msg"]):
        return False
    params = H.find(prop, v["harness"]).shard_list(tier)[v["shard"]]
    if any(repr(params.get(n)) != r for n, r in k.get("params", {}).items()):
        return False
    w = v["witness"]
    return all(w.get(n) == x for n, x in k.get("witness", {}).items())


def write_import_replay(prop, tier):
    d = os.path.join(HERE, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-setup.json")
    with open(path, "w") as fp:
        json.dump({"property": prop, "tier": tier, "kind": "setup"}, fp)
    return path


def write_replay(prop, tier, v):
    d = os.path.join(HERE, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop, "tier": tier, "harness": v["harness"], "shard": v["shard"], "witness": v["witness"],
            "msg": v["msg"], "detail": v["detail"], "kind": "violation"}
    h = hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{prop}-{v['harness']}-{h}.json")
    with open(path, "w") as fp:
        json.dump(body, fp, indent=1)
    return path


if __name__ == "__main__":
    setup_paths()
    from symex import run as _run

    sys.exit(_run.main(sys.argv[1:]))
