"""
check.sh <ID> [quick|thorough]   decide one property
check.sh replay <file>           re-run a reported counterexample
"""
import glob
import importlib.util
import json
import multiprocessing as mp
import os
import re
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.path.insert(0, os.environ.get("VP_REPO_SRC", "/repo/src"))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(100000)

import numpy  # noqa: E402  (the repository's numpy first)
import z3  # noqa: E402
from symx import harness, core  # noqa: E402

WORKERS = int(os.environ.get("VP_WORKERS", "8"))
TOTAL_BUDGET = {"quick": 820, "thorough": 3 * 3600}
HANG = {"quick": 300, "thorough": 5400}  # seconds before a case is restarted
QUERY = {"quick": 100, "thorough": 1800}  # for one query (they have timeouts)
WITNESS = {"quick": 100, "thorough": 900}  # for the witness runs of a case
PATIENCE = {"quick": 150, "thorough": 1800}  # for the rest after a violation


def load_property(pid):
    hits = glob.glob(os.path.join(ROOT, "props", pid.lower() + "_*.py"))
    if len(hits) != 1:
        raise SystemExit(f"no such property module: {pid}")
    name = "props_" + os.path.basename(hits[0])[:-3]
    spec = importlib.util.spec_from_file_location(name, hits[0])
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    sys.path.insert(0, os.path.join(ROOT, "props"))
    spec.loader.exec_module(mod)
    return mod


def known_findings(pid):
    out = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if not os.path.exists(path):
        return out
    with open(path, encoding="utf-8") as f:
        for line in f:
            m = re.match(
                r"known: property=(\S+) claim=(\S+) :: (.*)", line.strip()
            )
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def packed(rep):
    out = dict(vars(rep))
    out["functions"] = sorted(out["functions"])
    return out


def worker(case, tier, seed, deadline, conn, beat):
    core.BEAT = beat
    threading.stack_size(512 * 1024 * 1024)
    box = {}

    def go():
        try:
            box["rep"] = harness.run_case(
                case, tier, seed, deadline,
                decided=lambda rep: conn.send(("decided", packed(rep))),
            )
        except BaseException:  # pylint: disable=broad-except
            box["err"] = traceback.format_exc()[-4000:]

    t = threading.Thread(target=go)
    t.start()
    t.join()
    if "rep" in box:
        conn.send(packed(box["rep"]))
    else:
        conn.send({"case": case.name, "crash": box.get("err", "?")})
    conn.close()


def run_cases(cases, tier, seed, deadline, known=()):
    """One process per case; a process whose solver hangs or dies is replaced
    by one with another seed"""
    ctx = mp.get_context("fork")
    pending = [(c, 0) for c in sorted(cases, key=lambda c: -c.budget)]
    running = []
    results = []
    found = None
    while pending or running:
        while pending and len(running) < WORKERS:
            case, tries = pending.pop(0)
            a, b = ctx.Pipe(False)
            beat = ctx.Value("d", 0.0, lock=False)
            p = ctx.Process(
                target=worker,
                args=(case, tier, seed + tries, deadline, b, beat)
            )
            p.start()
            b.close()
            running.append([case, tries, p, a, time.time(), beat, None, 0])
        time.sleep(0.02)
        now = time.time()
        for item in list(running):
            case, tries, p, a, start, beat, decided, since = item
            got = None
            if a.poll():
                try:
                    got = a.recv()
                except EOFError:
                    got = "worker died"
                if isinstance(got, tuple):
                    # decided; only its witness runs are left
                    item[6], item[7] = got[1], now
                    continue
            elif decided and now > since + WITNESS[tier]:
                got = decided
                p.kill()
            elif not p.is_alive():
                got = "worker died"
            elif now > deadline + 40:
                got, tries = "out of time", 9
            elif decided is None and tries < 2 and (
                now - start > HANG[tier] * (1 + tries)
                or 0 < beat.value < now - QUERY[tier]
            ):
                got = "no end"
            elif found and now > found + PATIENCE[tier]:
                got, tries = "not finished, others have violations", 9
            if got is None:
                continue
            if isinstance(got, str) and decided is not None:
                p.kill()
                got = decided
            if isinstance(got, str):
                p.kill()
                if tries < 2 and now < deadline:
                    pending.insert(0, (case, tries + 1))
                else:
                    results.append({"case": case.name, "crash": got})
            else:
                results.append(got)
                if found is None and any(
                    claim_key(case.name, v) not in known
                    for v in got.get("violations", ())
                ):
                    found = now
            if os.environ.get("VP_VERBOSE"):
                print(f"[{now % 10000:.0f}] done {case.name} "
                      f"{now - start:.1f}s {got if isinstance(got, str) else ''}",
                      flush=True)
            p.join(5)
            if p.is_alive():
                p.kill()
            running.remove(item)
        if found and time.time() > found + PATIENCE[tier]:
            for case, _ in pending:
                results.append({
                    "case": case.name,
                    "crash": "not started, others have violations",
                })
            pending = []
    return sorted(results, key=lambda r: r["case"])


def claim_key(name, v):
    return re.sub(r"\s+", "_", f"{name}/{v['claim']}")


def main(argv):
    if argv[0] == "replay":
        return do_replay(argv[1])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = argv[2] if len(argv) > 2 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    deadline = t0 + TOTAL_BUDGET[tier]
    mod = load_property(pid)
    cases = [
        c for c in mod.cases(tier)
        if (c.tiers is None or tier in c.tiers)
        and (only is None or re.search(only, c.name))
    ]
    known = known_findings(pid)
    results = run_cases(cases, tier, seed, deadline, known)
    violations, errors, knowns = [], [], []
    for r in results:
        name = r["case"]
        if "crash" in r:
            errors.append(f"{name}: {r['crash']}")
            continue
        for v in r["violations"]:
            key = v["key"] = claim_key(name, v)
            if key in known:
                knowns.append((key, v))
            else:
                violations.append((name, v))
        if r["error"]:
            errors.append(f"{name}: {r['error']}")
        for claim, why in r["inconclusive"]:
            errors.append(f"{name}/{claim}: {why}")
        for claim, why, cand in r["unreproduced"]:
            errors.append(
                f"{name}/{claim}: counterexample not reproduced ({why}) "
                f"{str(cand)[:600]}"
            )
        if not (r["witness"] or r["violations"] or r["undecided"]):
            errors.append(f"{name}: no witness reached the claims")
        if r["mismatch"] and not r["validated"]:
            errors.append(f"{name}: encoding mismatch {r['mismatch'][:2]}")
    for key, v in knowns:
        print(f"KNOWN-FINDING: property={pid} {key}: {known[key]}")
    rdir = os.path.join(ROOT, "replays")
    for i, (name, v) in enumerate(violations):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{pid}-{i}.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump(dict(
                property=pid, case=name, tier=tier, claim=v["claim"],
                inputs={k: harness.plain(x) for k, x in v["inputs"].items()},
                observed=str(v["observed"]), info=harness.plain(v["info"]),
            ), f, indent=1, ensure_ascii=False)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  case {name}, claim {v['claim']}: {v['observed']}")
    for e in errors:
        print(f"ERROR {e}"[:3000])
    if os.environ.get("VP_VERBOSE"):
        for r in results:
            if "crash" in r:
                continue
            print(
                f"{r['case']}: paths {r['stats']['paths']} claims "
                f"{sum(r['claims'].values())} queries {r['stats']['queries']}"
                f" solver {r['stats']['solver_s']:.1f}s wall {r['wall']:.1f}s"
                f" witnesses {len(r['witness'])} validated {r['validated']}"
                f" mismatch {r['mismatch'][:2]}"
            )
    write_evidence(
        mod, pid, tier, seed, results, violations, errors, knowns,
        time.time() - t0, only
    )
    if violations:
        return 1
    if errors:
        return 2
    print(f"OK property={pid} tier={tier} cases={len(results)} "
          f"wall={time.time() - t0:.0f}s")
    return 0


def shortened(witness):
    """A witness's first values"""
    out = {
        (k if len(k) < 60 else k[:57] + "..."): v
        for k, v in list(witness.items())[:40]
    }
    if len(witness) > 40:
        out["and more"] = len(witness) - 40
    return out


def write_evidence(mod, pid, tier, seed, results, violations, errors, knowns,
                   wall, only):
    if only is not None:
        return
    good = [r for r in results if "crash" not in r]

    def total(k):
        return sum(r["stats"].get(k, 0) for r in good)

    functions = sorted({f for r in good for f in r["functions"]})
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=total("paths"),
            transitions=total("branches") + total("paths"),
            traces_validated_against_impl=total("validated"),
            samples=[
                dict(case=r["case"], witness=shortened(s))
                for r in good for s in r["samples"][:1]
            ][:8],
            meaning=(
                "states: feasible symbolic paths of the real functions; "
                "transitions: paths plus solver-decided forks; traces "
                "validated: solver models of paths re-run on the untouched "
                "code with equal claim terms"
            ),
            exhaustive=not errors,
            functions_encoded=functions,
            bounds=getattr(mod, "BOUNDS", ""),
            outside_bounds=getattr(mod, "OUTSIDE", ""),
            stubs=getattr(mod, "STUBS", []),
            cases=[
                dict(
                    case=r["case"], paths=r["stats"]["paths"],
                    claims=sum(r["claims"].values()),
                    distinct_claims=len(r["claims"]),
                    queries=r["stats"]["queries"],
                    solver_s=round(r["stats"]["solver_s"], 2),
                    reachability_witnesses=len(r["witness"]),
                    paths_without_witness_in_time=r["undecided"],
                    wall_s=round(r["wall"], 2),
                ) for r in good
            ],
            claims_decided=total("claims"),
            queries=total("queries"), queries_sat=total("sat"),
            queries_unsat=total("unsat"), queries_unknown=total("unknown"),
            solver_s=round(total("solver_s"), 2),
            solver="z3 " + z3.get_version_string(),
            errors=[e[:500] for e in errors],
            known_findings=[k for k, _ in knowns],
            encoding_mismatches=[
                m[:300] for r in good for m in r["mismatch"][:2]
            ],
        ),
        assumptions=[
            "Python floats are modelled as exact rationals/reals; a float "
            "constant stands for the simplest rational that rounds to it",
            "every divisor met on a path is non-zero",
        ] + list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2), violations=len(violations),
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(
        os.path.join(ROOT, "evidence", pid + ".json"), "w", encoding="utf-8"
    ) as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=str)


def do_replay(path):
    with open(path, encoding="utf-8") as f:
        d = json.load(f)
    mod = load_property(d["property"])
    case = [c for c in mod.cases(d["tier"]) if c.name == d["case"]][0]
    failed, exc, _ = harness.replay(case, d["tier"], d["inputs"])
    print("inputs:", json.dumps(d["inputs"], ensure_ascii=False))
    print("failed claims:", failed)
    print("exception:", repr(exc))
    return 1 if failed or (
        exc is not None and not isinstance(exc, harness.NotReproduced)
    ) else 0


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
