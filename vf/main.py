"""Runs one check: forks workers, merges what they observed, decides, writes the evidence."""
from __future__ import annotations

import faulthandler
import importlib
import json
import os
import pickle
import signal
import sys
import time
import traceback
import warnings
from pathlib import Path

from .core import (
    VERIF,
    Case,
    Inconclusive,
    Stats,
    Violation,
    in_repo_traceback,
    innermost_repo_frame,
    short,
)

CASE_LIMIT_S = 400
SOFT_DEADLINE = {"quick": 700, "thorough": 3000}


def jsonable(x):
    try:
        return json.loads(json.dumps(x, default=lambda o: short(o, 200)))
    except Exception:
        return short(x)


class _CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise _CaseTimeout()


def run_case(mod, sc, index, seed, tier, stats):
    c = Case(mod.prop, sc.name, index, seed, tier, stats)
    t0 = time.time()
    try:
        signal.alarm(CASE_LIMIT_S)
        sc.fn(c)
        return None
    except Violation as v:
        return {"kind": "violation", "mechanism": v.mechanism, "message": v.message[:4000], "note": jsonable(c.note)}
    except Inconclusive as e:
        return {"kind": "error", "mechanism": "inconclusive", "message": str(e)}
    except _CaseTimeout:
        return {"kind": "error", "mechanism": "case-timeout", "message": f"case ran over {CASE_LIMIT_S}s"}
    except Exception as e:  # noqa: BLE001
        tb = traceback.format_exc()
        if in_repo_traceback(e):
            # a legal workload that the unchanged tree completes: the code under test raised
            return {
                "kind": "violation",
                "mechanism": f"unexpected-{type(e).__name__}@{sc.name}",
                "message": f"{innermost_repo_frame(e)}: {type(e).__name__}: {e}\n{tb[-3000:]}",
                "note": jsonable(c.note),
            }
        return {"kind": "error", "mechanism": "harness", "message": tb[-4000:]}
    finally:
        signal.alarm(0)
        stats.evaluations += 1
        stats.counts["case_seconds_x100"] = stats.counts.get("case_seconds_x100", 0) + int((time.time() - t0) * 100)
        ts = stats.counts
        k = f"t:{sc.name}"
        ts[k] = ts.get(k, 0) + int((time.time() - t0) * 1000)
        c.cleanup()


def worker(mod, jobs, seed, tier, outfile, deadline):
    signal.signal(signal.SIGALRM, _alarm)
    warnings.simplefilter("ignore")
    stats = Stats()
    findings = []
    notrun = 0
    nviol = 0
    for name_i, index in jobs:
        if time.time() > deadline:
            notrun += 1
            continue
        sc = mod.scenarios[name_i]
        r = run_case(mod, sc, index, seed, tier, stats)
        if r is not None:
            r.update(scenario=sc.name, index=index)
            findings.append(r)
            nviol += r["kind"] == "violation"
            if len(findings) >= 40:
                break
    with open(outfile, "wb") as f:
        pickle.dump((stats, findings, notrun), f)


def load_known(prop):
    p = Path(VERIF) / "known_findings.txt"
    out = {}
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if not line or not line.startswith("{"):
                continue
            d = json.loads(line)
            if d.get("status") == "known" and d.get("property") == prop:
                out[d["mechanism"]] = d
    return out


def main(argv):
    prop = argv[0]
    replay = None
    only = None
    if "--replay" in argv:
        replay = json.loads(Path(argv[argv.index("--replay") + 1]).read_text())
    if "--only" in argv:
        only = argv[argv.index("--only") + 1]
    tier = os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    faulthandler.enable()
    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    try:
        import modssc

        src_ok = str(modssc.__file__).startswith("/repo/src/")
        if not src_ok:
            print(f"ERROR: modssc imported from {modssc.__file__}", flush=True)
            return 2
    except Exception:
        traceback.print_exc()
        return 2
    try:
        mod = importlib.import_module(f"checks.{prop}").M
        for name in mod.preload:
            importlib.import_module(name)
        if "torch" in sys.modules:
            sys.modules["torch"].set_num_threads(1)
    except Exception:
        traceback.print_exc()
        return 2

    if replay is not None:
        sc = [s for s in mod.scenarios if s.name == replay["scenario"]][0]
        signal.signal(signal.SIGALRM, _alarm)
        r = run_case(mod, sc, int(replay["index"]), int(replay["seed"]), replay["tier"], Stats())
        print(json.dumps(r, indent=1) if r is None else r["mechanism"] + "\n" + r["message"])
        return 1 if r and r["kind"] == "violation" else (2 if r else 0)

    jobs = []
    for si, sc in enumerate(mod.scenarios):
        if only and not sc.name.startswith(only):
            continue
        n = sc.quick if tier == "quick" else sc.thorough
        jobs += [(si, i) for i in range(n)]
    # spread scenarios evenly over the workers
    nw = max(1, min(mod.workers, os.cpu_count() or 1, len(jobs)))
    work = Path(os.environ.get("VF_WORK", "/tmp"))
    deadline = t0 + SOFT_DEADLINE.get(tier, 700)
    pids = []
    sys.stdout.flush()
    for w in range(nw):
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                worker(mod, jobs[w::nw], seed, tier, work / f"w{w}.pkl", deadline)
            except BaseException:
                traceback.print_exc()
                code = 7
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids.append(pid)
    errors = []
    for w, pid in enumerate(pids):
        _, st = os.waitpid(pid, 0)
        if st != 0:
            errors.append(f"worker {w} ended with status {st}")
    total = Stats()
    findings, notrun = [], 0
    for w in range(nw):
        f = work / f"w{w}.pkl"
        if not f.exists():
            continue
        with open(f, "rb") as fh:
            st, fi, nr = pickle.load(fh)
        notrun += nr
        findings += fi
        total.evaluations += st.evaluations
        total.distinct |= st.distinct
        for k, v in st.counts.items():
            total.counts[k] = total.counts.get(k, 0) + v
        for k, v in st.samples.items():
            lst = total.samples.setdefault(k, [])
            lst += v[: max(0, 2 - len(lst))]
    findings.sort(key=lambda r: (r["scenario"], r["index"]))
    known = load_known(prop)
    viol, known_hit, errs = {}, {}, []
    for r in findings:
        if r["kind"] == "error":
            errs.append(r)
        elif r["mechanism"] in known:
            known_hit.setdefault(r["mechanism"], r)
        else:
            viol.setdefault(r["mechanism"], r)
    errors += [f"{r['scenario']}#{r['index']}: {r['mechanism']}: {r['message']}" for r in errs]

    times = {k[2:]: v / 1000 for k, v in total.counts.items() if k.startswith("t:")}
    events = {k: v for k, v in sorted(total.counts.items()) if not k.startswith("t:") and k != "case_seconds_x100"}
    per_sc = {}
    for si, sc in enumerate(mod.scenarios):
        n = sum(1 for j in jobs if j[0] == si)
        per_sc[sc.name] = n
    samples = [{"scenario": k, "case": jsonable(v)} for k, lst in total.samples.items() for v in lst][:12]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": mod.level,
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": len(total.distinct),
            "rule": mod.rule,
            "samples": samples,
            "observed_events": events,
            "cases_per_scenario": per_sc,
            "cases_not_run_deadline": notrun,
            "known_findings_observed": sorted(known_hit),
        },
        "assumptions": mod.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    evdir = Path(VERIF) / "evidence"
    evdir.mkdir(exist_ok=True)
    if not only:
        (evdir / f"{prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
    if os.environ.get("VF_TIMES"):
        for k, v in sorted(times.items(), key=lambda t: -t[1]):
            print(f"  time {k}: {v:.1f}s cpu over {per_sc[k]} cases")
    for m in sorted(known_hit):
        print(f"KNOWN-FINDING: property={prop} {known[m]['what']}")
    rc = 0
    if viol:
        rc = 1
        rdir = evdir / "replay"
        rdir.mkdir(exist_ok=True)
        for n, (m, r) in enumerate(sorted(viol.items())[:8]):
            path = rdir / f"{prop}-{n}.json"
            path.write_text(json.dumps({"property": prop, "scenario": r["scenario"], "index": r["index"], "seed": seed,
                                        "tier": tier, "mechanism": m, "message": r["message"], "note": r.get("note")}, indent=1))
            print(f"-- {r['scenario']}#{r['index']} {m}: {r['message'][:1500]}")
            print(f"VIOLATION property={prop} replay={path}")
    elif errors:
        rc = 2
    for e in errors[:6]:
        print("CHECK-ERROR " + e[:2500])
    print(f"{prop} {tier} seed={seed}: {total.evaluations} executions, {len(total.distinct)} distinct non-trivial, "
          f"{events.get('oracle_checks', 0)} monitor judgements, {len(viol)} violations, {len(known_hit)} known, "
          f"{len(errors)} errors, not run {notrun}, {ev['wall_s']}s", flush=True)
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
