"""Decide one property by deterministic simulation.

    check.py C01                     run the check (tier from VERIF_TIER, seed from VERIF_SEED)
    check.py --replay FILE           re-execute a recorded violation
    check.py --digest C01 N          print the event-log digests of N runs (determinism test)
"""

from __future__ import annotations

import json
import multiprocessing
import os
import queue as queues
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

QUICK_DEADLINE = 420.0
THOROUGH_DEADLINE = 6 * 3600.0
MINIMISE_RUNS = 1500


def reexec() -> None:
    """Fix the hash seed, so that one seed is one execution."""
    if os.environ.get("PYTHONHASHSEED") != os.environ.get("SIM_HASHSEED", "0"):
        os.environ["PYTHONHASHSEED"] = os.environ.get("SIM_HASHSEED", "0")
        os.execv(sys.executable, [sys.executable, "-B", *sys.argv])


def scratch_parent() -> str:
    for place in ("/dev/shm", tempfile.gettempdir()):
        if os.path.isdir(place) and os.access(place, os.W_OK):
            if shutil.disk_usage(place).free > 200 * 1024 * 1024:
                return place
    return tempfile.gettempdir()


def start(scratch: str):
    from sim import env

    os.makedirs(scratch, exist_ok=True)
    env.boot(scratch)
    from sim import props

    return props.build()


def describe_mismatch(mismatch) -> dict:
    from sim.env import DISK

    return {"aspect": mismatch.aspect, "detail": mismatch.detail.replace(DISK.root, "<scratch>")}


# ---------------------------------------------------------------------------
# workers
# ---------------------------------------------------------------------------
def worker(number, workers, ident, tier, seed, base, results, best, deadline, scale) -> None:
    started = time.monotonic()
    stats: dict[str, int] = {}
    states: set = set()
    digests: set = set()
    nontrivial: set = set()
    samples: list = []
    errors: list = []
    strangers: list = []
    runs = foreign = 0
    simulated = 0.0
    found = None
    try:
        from sim.engine import run_seed

        properties = start(os.path.join(base, f"w{number}"))
        prop = properties[ident]
        offset = 0
        for family, quick, thorough in prop.families:
            total = int((quick if tier == "quick" else thorough) * scale)
            for index in range(number, total, workers):
                place = offset + index
                if best.value and place > best.value - 1:
                    break
                if time.monotonic() - started > deadline:
                    stats["stopped-early"] = 1
                    break
                outcome = family.run(run_seed(seed, ident, family.name, index))
                runs += 1
                simulated += outcome.simulated
                for key, value in outcome.stats.items():
                    stats[key] = stats.get(key, 0) + value
                states |= outcome.states
                digests.add(outcome.digest)
                if outcome.nontrivial:
                    nontrivial.add(outcome.digest)
                if outcome.error:
                    errors.append((place, family.name, index, outcome.error))
                    continue
                if len(samples) < 1 and outcome.nontrivial and outcome.mismatch is None:
                    samples.append(outcome.case)
                if outcome.mismatch is None:
                    continue
                mismatch = outcome.mismatch
                if not prop.claims(family, outcome):
                    foreign += 1
                    strangers.append((family.name, index, describe_mismatch(mismatch)))
                    stats["foreign:" + mismatch.aspect] = stats.get("foreign:" + mismatch.aspect, 0) + 1
                    continue
                found = (place, family.name, index, outcome.case, describe_mismatch(mismatch))
                with best.get_lock():
                    if not best.value or place + 1 < best.value:
                        best.value = place + 1
                break
            offset += total
            if found:
                break
    except BaseException as exc:  # noqa: BLE001 - reported by the parent
        import traceback

        errors.append((-1, "worker", number, traceback.format_exc()[-2000:] or repr(exc)))
    results.put(
        {
            "stats": stats,
            "states": states,
            "digests": digests,
            "nontrivial": nontrivial,
            "samples": samples,
            "errors": errors[:5],
            "error_count": len(errors),
            "runs": runs,
            "foreign": foreign,
            "strangers": strangers[:2],
            "simulated": simulated,
            "found": found,
        }
    )


def minimiser(ident, found, base, results) -> None:
    """In a fresh process: confirm, shrink, and describe the violation."""
    from sim.engine import Outcome, minimise

    properties = start(os.path.join(base, "min"))
    prop = properties[ident]
    _, name, _, case, first = found
    family = prop.family(name)
    deadline = time.monotonic() + 240

    def fails(candidate: dict) -> Outcome | None:
        outcome = family.replay(candidate)
        if outcome.mismatch is None or outcome.mismatch.aspect != first["aspect"]:
            return None
        return outcome

    again = fails(case)
    if again is None or again.mismatch.detail.replace(os.path.join(base, "min"), "<scratch>") != first["detail"]:
        results.put({"case": case, "mismatch": first, "used": 0, "reproduced": again is not None})
        return

    def accept(candidate: dict) -> bool:
        if time.monotonic() > deadline:
            return False
        outcome = fails(candidate)
        return outcome is not None and prop.claims(family, outcome)

    small, used = minimise(family, case, accept, MINIMISE_RUNS)
    outcome = fails(small)
    results.put(
        {
            "case": small,
            "mismatch": describe_mismatch(outcome.mismatch) if outcome else first,
            "used": used,
            "reproduced": True,
        }
    )


def replayer(ident, record, base, results) -> None:
    properties = start(os.path.join(base, "replay"))
    family = properties[ident].family(record["family"])
    outcome = family.replay(record["case"])
    results.put(
        {
            "mismatch": describe_mismatch(outcome.mismatch) if outcome.mismatch else None,
            "error": outcome.error,
        }
    )


def collect(process, results, limit: float):
    """Wait for a result or for the death of the process that owes it."""
    end = time.monotonic() + limit
    while time.monotonic() < end:
        try:
            return results.get(timeout=0.5)
        except queues.Empty:
            if not process.is_alive():
                try:
                    return results.get(timeout=1)
                except queues.Empty:
                    return None
    process.kill()
    return None


def in_child(target, *args, limit: float = 600.0):
    context = multiprocessing.get_context("fork")
    results = context.Queue()
    process = context.Process(target=target, args=(*args, results))
    process.start()
    answer = collect(process, results, limit)
    process.join(5)
    if process.is_alive():
        process.kill()
    return answer


# ---------------------------------------------------------------------------
def replay(path: str) -> int:
    with open(path) as handle:
        record = json.load(handle)
    base = tempfile.mkdtemp(prefix="sandfs-sim-", dir=scratch_parent())
    try:
        answer = in_child(replayer, record["property"], record, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    if answer is None or answer.get("error"):
        print("replay could not be executed:", answer, file=sys.stderr)
        return 2
    if answer["mismatch"] is None:
        print(f"replay of {path}: the property holds on this tree")
        return 0
    print(f"{answer['mismatch']['aspect']}: {answer['mismatch']['detail']}")
    same = answer["mismatch"] == record["mismatch"]
    print("identical to the recorded violation" if same else "differs from the recorded violation")
    print(f"VIOLATION property={record['property']} replay={path}")
    return 1


def run(ident: str) -> int:
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    scale = float(os.environ.get("SIM_SCALE", "1"))
    workers = int(os.environ.get("SIM_WORKERS", "0")) or min(16, len(os.sched_getaffinity(0)))
    print(f"property {ident} tier {tier} VERIF_SEED={seed} workers {workers}", flush=True)
    started = time.monotonic()
    base = tempfile.mkdtemp(prefix="sandfs-sim-", dir=scratch_parent())
    evidence = os.path.join(HERE, "evidence")
    os.makedirs(evidence, exist_ok=True)
    deadline = QUICK_DEADLINE if tier == "quick" else THOROUGH_DEADLINE
    context = multiprocessing.get_context("fork")
    best = context.Value("q", 0)
    results = [context.Queue() for _ in range(workers)]
    processes = [
        context.Process(
            target=worker,
            args=(n, workers, ident, tier, seed, base, results[n], best, deadline, scale),
        )
        for n in range(workers)
    ]
    try:
        for process in processes:
            process.start()
        answers = [
            collect(process, result, deadline + 180) for process, result in zip(processes, results)
        ]
        for process in processes:
            process.join(5)
            if process.is_alive():
                process.kill()
        return report(ident, tier, seed, workers, base, started, answers)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def report(ident, tier, seed, workers, base, started, answers) -> int:
    stats: dict[str, int] = {}
    states: set = set()
    digests: set = set()
    nontrivial: set = set()
    runs = foreign = 0
    simulated = 0.0
    errors: list = []
    samples: list = []
    strangers: list = []
    found = None
    for answer in answers:
        if answer is None:
            errors.append((-1, "worker", -1, "a worker died"))
            continue
        for key, value in answer["stats"].items():
            stats[key] = stats.get(key, 0) + value
        states |= answer["states"]
        digests |= answer["digests"]
        nontrivial |= answer["nontrivial"]
        runs += answer["runs"]
        foreign += answer["foreign"]
        simulated += answer["simulated"]
        errors += answer["errors"]
        strangers += answer["strangers"]
        samples += answer["samples"][: max(0, 2 - len(samples))]
        if answer["found"] and (found is None or answer["found"][0] < found[0]):
            found = answer["found"]
    searched = time.monotonic() - started
    replay_path = None
    if found is not None:
        small = in_child(minimiser, ident, found, base, limit=400.0)
        if small is None:
            small = {"case": found[3], "mismatch": found[4], "used": 0, "reproduced": False}
        os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
        replay_path = os.path.join(HERE, "evidence", "replays", f"{ident}.json")
        record = {
            "property": ident,
            "family": found[1],
            "seed": seed,
            "index": found[2],
            "mismatch": small["mismatch"],
            "case": small["case"],
            "original_ops": len(found[3].get("ops", [])),
            "minimiser_runs": small["used"],
            "reproduced_in_fresh_process": small["reproduced"],
            "replay_cmd": f"bash run.sh --replay {os.path.relpath(replay_path, HERE)}",
        }
        with open(replay_path, "w") as handle:
            json.dump(record, handle, indent=1)
        print(f"{small['mismatch']['aspect']}: {small['mismatch']['detail']}")
        print(
            f"seed {seed} family {found[1]} run {found[2]}: {len(found[3].get('ops', []))} operations,"
            f" minimised to {len(small['case'].get('ops', []))}"
        )
    wall = time.monotonic() - started
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    kinds = {k[3:]: v for k, v in sorted(stats.items()) if k.startswith("op:")}
    probes = {
        k: v
        for k, v in sorted(stats.items())
        if not k.startswith(("fault:", "op:")) and k not in ("ops",)
    }
    from sim.boundary import ASSUMPTIONS, COMPONENTS, RULES

    coverage = {
        "evaluations": runs,
        "distinct_nontrivial": len(nontrivial),
        "rule": RULES.get(ident, RULES["*"]),
        "samples": [clip_case(case) for case in samples] or [{"none": "no sample"}],
        "operations_executed": stats.get("ops", 0),
        "operations_by_kind": kinds,
        "runs_per_hour": round(runs / max(searched, 1e-3) * 3600),
        "seeds_per_hour": round(runs / max(searched, 1e-3) * 3600),
        "simulated_seconds": round(simulated, 1),
        "faults_injected": faults,
        "probes": probes,
        "distinct_traces": len(digests),
        "distinct_states": len(states),
        "distinct_measure": "traces: digest of configuration, per-operation outcomes and faults;"
        " states: digest of the whole tree (path, kind, version) after an operation",
        "runs_ended_by_another_property": foreign,
        "components": COMPONENTS,
        "workers": workers,
    }
    evidence = {
        "property": ident,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": 0 if found is None else 1,
    }
    with open(os.path.join(HERE, "evidence", f"{ident}.json"), "w") as handle:
        json.dump(evidence, handle, indent=1)
    print(
        f"{runs} runs, {stats.get('ops', 0)} operations, {sum(faults.values())} faults,"
        f" {len(states)} states, {wall:.1f} s"
        + (f", {foreign} runs ended by other properties" if foreign else "")
    )
    for stranger in strangers[:3]:
        print("ended by another property:", *stranger)
    for error in errors[:3]:
        print("harness error:", error, file=sys.stderr)
    if found is not None:
        print(f"VIOLATION property={ident} replay={replay_path}", flush=True)
        return 1
    known_findings(ident)
    if errors:
        return 2
    if runs == 0:
        print("no run was executed", file=sys.stderr)
        return 2
    print(f"property {ident} held on everything explored")
    return 0


def known_findings(ident: str) -> None:
    """Findings recorded rather than repaired (there are none that suppress a run)."""
    path = os.path.join(HERE, "known_findings.txt")
    if not os.path.exists(path):
        return
    with open(path) as handle:
        for line in handle:
            if line.startswith(f"KNOWN-FINDING: property={ident} "):
                print(line.strip())


def clip_case(case: dict) -> dict:
    text = json.dumps(case)
    if len(text) <= 6000:
        return case
    short = dict(case)
    short["ops"] = case["ops"][:8] + [{"...": len(case["ops"]) - 8}]
    return short


def digester(ident, count, seed, base, results) -> None:
    from sim.engine import run_seed

    properties = start(os.path.join(base, "digest"))
    out = []
    for family, _, _ in properties[ident].families:
        for index in range(count):
            outcome = family.run(run_seed(seed, ident, family.name, index))
            out.append(f"{family.name} {index} {outcome.digest} {len(outcome.case['ops'])}")
    results.put(out)


def digest(ident: str, count: int) -> int:
    base = tempfile.mkdtemp(prefix="sandfs-sim-", dir=scratch_parent())
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
        lines = in_child(digester, ident, count, seed, base, limit=3600)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print("\n".join(lines or ["failed"]))
    return 0 if lines else 2


def main(argv: list[str]) -> int:
    reexec()
    sys.stdout.reconfigure(errors="backslashreplace")
    if len(argv) == 2 and argv[0] == "--replay":
        return replay(argv[1])
    if len(argv) == 3 and argv[0] == "--digest":
        return digest(argv[1], int(argv[2]))
    if len(argv) == 1 and not argv[0].startswith("-"):
        return run(argv[0])
    print(__doc__, file=sys.stderr)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
