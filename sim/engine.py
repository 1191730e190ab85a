"""Running one simulated case, recording it, replaying it, shrinking it."""

from __future__ import annotations

import copy
import hashlib
import json
import random
import signal

from . import env
from .env import CLOCK, HarnessError, SimCrash
from .universe import EndRun, Mismatch, World

OP_SECONDS = 60  # an operation that takes this long (normally about 1 ms) hangs


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def run_seed(seed: int, *names) -> int:
    text = ":".join([str(seed), *map(str, names)])
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], "big")


class Outcome:
    def __init__(self, case: dict) -> None:
        self.case = case
        self.mismatch: Mismatch | None = None
        self.stats: dict[str, int] = {}
        self.states: set = set()
        self.digest = ""
        self.simulated = 0.0
        self.nontrivial = False
        self.error: str | None = None
        self.outcomes: list[str] = []


def guarded(function, outcome: Outcome) -> None:
    """Run ``function``; sort what goes wrong into mismatch or harness error."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, OP_SECONDS)
    try:
        function()
    except Mismatch as mismatch:
        outcome.mismatch = mismatch
    except EndRun:
        pass
    except Hang:
        outcome.mismatch = Mismatch("hang", f"no progress within {OP_SECONDS} s")
    except HarnessError as exc:
        outcome.error = f"harness: {exc}"
    except RecursionError as exc:
        outcome.mismatch = Mismatch("broken", f"{exc!r}")
    except Exception as exc:  # sandfs broke where the harness only looks at it
        if came_from_sandfs(exc):
            outcome.mismatch = Mismatch("broken", f"looking at the sandbox raised {exc!r}")
        else:
            import traceback

            outcome.error = traceback.format_exc()[-1500:]
    except SimCrash:
        outcome.mismatch = Mismatch("broken", "crash point reached outside an operation")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        env.DISK.active = False
        env.DISK.dead = False
        env.DISK.plan = None


def came_from_sandfs(exc: BaseException) -> bool:
    frame = exc.__traceback__
    last = None
    while frame is not None:
        last = frame.tb_frame.f_code.co_filename
        frame = frame.tb_next
    return last is not None and "/sandfs/" in last and "/sim/" not in last


class WorldFamily:
    """Cases of the general world: a configuration and a list of operations."""

    def __init__(self, name: str, profile: dict, check=None) -> None:
        self.name = name
        self.profile = profile
        self.check = check  # extra per-operation check (world, op)

    def run(self, seed: int) -> Outcome:
        from . import gen

        generator = gen.Generator(random.Random(seed), self.profile)
        config = generator.config()
        case = {"family": self.name, "seed": seed, "config": config, "ops": []}
        case = json.loads(json.dumps(case))
        outcome = Outcome(case)
        holder: list[World] = []

        def go() -> None:
            world = World(copy.deepcopy(case["config"]))
            holder.append(world)
            todo = list(generator.initial(world))
            for op in todo:
                self.step(world, op, case)
            for _ in range(generator.rng.randint(*generator.profile["ops"])):
                self.step(world, generator.next(world), case)

        self.finish(outcome, holder, go)
        return outcome

    def step(self, world: World, op: dict, case: dict | None) -> None:
        from . import gen

        op = json.loads(json.dumps(op))
        if not gen.sane(world, op):
            return
        if case is not None:
            case["ops"].append(op)
        signal.setitimer(signal.ITIMER_REAL, OP_SECONDS)
        world.execute(op)
        if self.check is not None:
            self.check(world, op)

    def replay(self, case: dict) -> Outcome:
        outcome = Outcome(case)
        holder: list[World] = []

        def go() -> None:
            world = World(copy.deepcopy(case["config"]))
            holder.append(world)
            for op in case["ops"]:
                self.step(world, op, None)

        self.finish(outcome, holder, go)
        return outcome

    def finish(self, outcome: Outcome, holder: list, go) -> None:
        CLOCK.total = 0.0
        guarded(go, outcome)
        outcome.simulated = CLOCK.total
        if holder:
            world = holder[0]
            outcome.stats = world.stats
            outcome.states = world.hashes
            outcome.outcomes = world.outcomes
            text = json.dumps([outcome.case["config"], world.trace, sorted(world.stats.items())])
            outcome.digest = hashlib.sha256(text.encode()).hexdigest()[:16]
            outcome.nontrivial = world.stats.get("ops", 0) >= 5
        else:
            outcome.digest = "none"

    # -- shrinking ------------------------------------------------------------
    def shrink_args(self, case: dict):
        """Simpler variants of a case, besides dropping operations."""
        for index, op in enumerate(case["ops"]):
            for key in ("nest", "plan", "dt"):
                if op.get(key):
                    variant = copy.deepcopy(case)
                    del variant["ops"][index][key]
                    yield variant
            if op["k"] == "sh" and len(op.get("lines", [])) > 1:
                for drop in range(len(op["lines"])):
                    variant = copy.deepcopy(case)
                    del variant["ops"][index]["lines"][drop]
                    yield variant
            proc = op.get("proc")
            if proc and proc.get("acts"):
                for drop in range(len(proc["acts"])):
                    variant = copy.deepcopy(case)
                    del variant["ops"][index]["proc"]["acts"][drop]
                    yield variant
        for number, box in enumerate(case["config"]["sandboxes"]):
            for key in ("mounts", "hooks", "agents", "index", "search_view"):
                if box.get(key):
                    variant = copy.deepcopy(case)
                    del variant["config"]["sandboxes"][number][key]
                    yield variant
                    if isinstance(box[key], list) and len(box[key]) > 1:
                        for drop in range(len(box[key])):
                            variant = copy.deepcopy(case)
                            del variant["config"]["sandboxes"][number][key][drop]
                            yield variant
            for position, mount in enumerate(box.get("mounts") or []):
                if mount.get("init"):
                    variant = copy.deepcopy(case)
                    variant["config"]["sandboxes"][number]["mounts"][position]["init"] = {}
                    yield variant
            for position, agent in enumerate(box.get("agents") or []):
                for key in ("view", "allow", "limit", "fallback"):
                    if agent.get(key) is not None:
                        variant = copy.deepcopy(case)
                        del variant["config"]["sandboxes"][number]["agents"][position][key]
                        yield variant


def minimise(family, case: dict, accept, budget: int) -> tuple[dict, int]:
    """Greedy delta debugging; ``accept(case)`` tells whether it still fails alike."""
    used = 0

    def tried(candidate: dict) -> bool:
        nonlocal used
        if used >= budget:
            return False
        used += 1
        return accept(candidate)

    changed = True
    while changed and used < budget:
        changed = False
        size = max(1, len(case["ops"]) // 2)
        while size >= 1:
            start = 0
            while start < len(case["ops"]):
                candidate = copy.deepcopy(case)
                del candidate["ops"][start : start + size]
                if tried(candidate):
                    case = candidate
                    changed = True
                else:
                    start += size
                if used >= budget:
                    break
            size //= 2
            if used >= budget:
                break
        progress = True
        while progress and used < budget:
            progress = False
            for candidate in family.shrink_args(case):
                if tried(candidate):
                    case = candidate
                    progress = changed = True
                    break
                if used >= budget:
                    break
    return case, used
