"""The properties: which workloads decide each, and which disagreements count.

A run compares sandfs with the reference model on everything observable.  A
disagreement is reported under property P only if it contradicts P's statement:
either its aspect does so by itself, or the disagreement disappears when the
ingredient P is about (faults, policies, views, snapshots, ...) is taken out of
the recorded case ("ablation"), so that the ingredient is what causes it.
"""

from __future__ import annotations

import copy

from .cli import CliFamily
from .engine import WorldFamily
from .hostdir import DiskFamily, LinkFamily
from .raw import RawFamily
from .shared import SharedFamily
from .universe import Mismatch

STATE = {"tree", "content", "version", "cwd", "policy", "meta"}
ANSWERS = {"result", "answer", "output", "shell"}
BAD = {"broken", "hang"}


def without_ops(case: dict, drop) -> dict:
    variant = copy.deepcopy(case)
    variant["ops"] = [op for op in variant["ops"] if not drop(op)]
    return variant


def each_op(case: dict, change) -> dict:
    variant = copy.deepcopy(case)
    for op in variant["ops"]:
        change(op)
    return variant


def each_agent(case: dict, change) -> dict:
    variant = copy.deepcopy(case)
    for box in variant["config"]["sandboxes"]:
        for agent in box.get("agents") or []:
            change(agent)
    return variant


def strip_plans(case: dict) -> dict:
    return each_op(case, lambda op: op.pop("plan", None))


def strip_policies(case: dict) -> dict:
    variant = without_ops(case, lambda op: op["k"] in ("policy", "polmut"))
    for box in variant["config"]["sandboxes"]:
        for mount in box.get("mounts") or []:
            mount.pop("pol", None)
    return variant


def strip_views(case: dict) -> dict:
    variant = each_agent(strip_policies(case), lambda agent: agent.pop("view", None))
    return each_op(variant, lambda op: op.pop("v", None))


def strip_fences(case: dict) -> dict:
    def change(agent: dict) -> None:
        agent.pop("allow", None)
        agent.pop("limit", None)

    return each_agent(case, change)


class Property:
    def __init__(self, ident, families, direct=(), where=None, ablate=(), assumptions=()) -> None:
        self.ident = ident
        self.families = families  # (family, quick runs, thorough runs)
        self.direct = set(direct)
        self.where = where  # further mismatches that count: f(mismatch) -> bool
        self.ablations = ablate
        self.assumptions = list(assumptions)

    def family(self, name: str):
        for family, _, _ in self.families:
            if family.name == name:
                return family
        raise KeyError(name)

    def claims(self, family, outcome) -> bool:
        mismatch: Mismatch = outcome.mismatch
        if mismatch.aspect in self.direct or mismatch.aspect in BAD:
            return True
        if self.where is not None and self.where(mismatch):
            return True
        if isinstance(family, RawFamily):
            return mismatch.aspect in family.aspects
        if not isinstance(family, WorldFamily):
            return True  # a workload built for this property alone
        for ablation in self.ablations:
            variant = ablation(outcome)
            if variant is None or variant == outcome.case:
                continue
            other = family.replay(variant)
            if other.mismatch is None and other.error is None:
                return True
        return False


def ablation(function):
    return lambda outcome: function(outcome.case)


def drop_failed(outcome) -> dict | None:
    """The case without the operations that failed (they should not matter)."""
    kept = []
    dropped = False
    outcomes = outcome.outcomes
    for index, op in enumerate(outcome.case["ops"]):
        if index < len(outcomes) and outcomes[index] == "err":
            dropped = True
            continue
        kept.append(op)
    if not dropped:
        return None
    variant = copy.deepcopy(outcome.case)
    variant["ops"] = copy.deepcopy(kept)
    return variant


def op_kind(mismatch) -> str:
    return (mismatch.info.get("op") or {}).get("k", "")


def is_host(mismatch) -> bool:
    return bool((mismatch.info.get("op") or {}).get("proc"))


def failed_state(mismatch) -> bool:
    info = mismatch.info
    if mismatch.aspect in STATE | {"storage"}:
        return bool(info.get("failed"))
    if mismatch.aspect in ("result",) and info.get("reason") == "refused":
        return not info.get("faults")
    return False


# ---------------------------------------------------------------------------
# profiles
# ---------------------------------------------------------------------------
MIX = {"snap": 1, "restore": 1, "policy": 1, "meta": 1}

P_TREE = {"ops": (15, 50)}
P_NEST = {
    "ops": (15, 40),
    "hooks": 0.7,
    "nest_rate": 0.5,
    "agents": 1,
    "weights": {"hook": 1, "mountf": 4, "mountd": 4, "sh": 8, "host": 3, "walk": 3, "iterf": 3, "tree": 3, "search": 4},
}
P_SHELL = {
    "agents": 2,
    "ops": (12, 35),
    "weights": {"sh": 40, "write": 4, "mv": 2, "cp": 2, "rm": 1, "meta": 1, "policy": 1},
    "shell_weights": {"python3": 2, "head": 2, "tail": 2},
}
P_STORE_FAULTS = {
    "mounts": ["mem", "nested", "deep", "fs", "both"],
    "hooks": 0.3,
    "index": 0.3,
    "faults": {"s": 6, "h": 1, "p": 1, "l": 1},
    "fault_rate": 0.35,
    "focus": 0.6,
    "weights": {"mount": 1, "hook": 1, "policy": 2, "mountf": 1, "mountd": 1, "search": 3, "sync": 1, "ext": 1, "snap": 1, "restore": 1},
}
P_PROVIDER_FAULTS = {
    "mounts": ["mem", "none"],
    "hooks": 0.3,
    "faults": {"p": 4, "l": 4, "s": 1},
    "fault_rate": 0.4,
    "weights": {"mountf": 6, "mountd": 6, "snap": 1, "restore": 1, "export": 1, "walk": 3, "read": 8},
}
P_SHELL_FAULTS = {
    "agents": 2,
    "mounts": ["mem", "none", "nested"],
    "hooks": 0.3,
    "faults": {"s": 4, "p": 2, "l": 2, "h": 2},
    "fault_rate": 0.35,
    "focus": 0.4,
    "weights": {"sh": 40, "mountf": 2, "mountd": 2, "policy": 2},
    "shell_weights": {"python3": 2},
}
P_MIRROR = {
    "mounts": ["mem", "fs", "both", "nested", "nestedfs", "deep"],
    "focus": 0.6,
    "weights": {"mount": 2, "mountd": 1, "sync": 4, "ext": 2, "fresh": 2, "policy": 2, "meta": 1, "mv": 9, "cp": 9, "touch": 4},
}
P_CRASH = {
    "mounts": ["mem", "fs", "both", "nested", "nestedfs"],
    "focus": 0.7,
    "faults": {"crash": 4, "dcrash": 4, "s": 2, "d": 2},
    "fault_rate": 0.35,
    "weights": {"mount": 1, "sync": 3, "ext": 2, "fresh": 1, "mv": 9, "cp": 8, "touch": 3},
}
P_HOOKS = {
    "mounts": ["mem", "none", "none", "nested"],
    "hooks": 1.0,
    "agents": 1,
    "faults": {"h": 5, "s": 2},
    "fault_rate": 0.25,
    "nest_rate": 0.1,
    "weights": {"hook": 4, "sh": 8, "host": 3, "mv": 9, "cp": 9, "touch": 4, "snap": 1, "restore": 1, "mountf": 1, "sync": 1},
}
P_POLICY = {
    "agents": 1,
    "policy_style": "write",
    "mounts": ["mem", "none", "none"],
    "faults": {"s": 1, "h": 1},
    "fault_rate": 0.08,
    "hooks": 0.2,
    "weights": {
        "policy": 12, "polmut": 4, "sh": 14, "host": 5, "snap": 2, "restore": 2, "sync": 1,
        "mv": 9, "cp": 9, "rm": 8, "mkdir": 6, "touch": 4, "append": 7, "mountd": 1,
    },
}
P_VIEW = {
    "agents": 3,
    "views": 0.85,
    "search_view": 0.5,
    "index": 0.3,
    "policy_style": "read",
    "mounts": ["mem", "none", "none"],
    "weights": {"sh": 45, "policy": 12, "polmut": 2, "meta": 6, "ls": 3, "tree": 2, "glob": 3, "search": 3, "sview": 2, "viewon": 0.5},
    "shell_weights": {"head": 4, "tail": 3, "wc": 4, "sview": 5, "cp": 6, "mv": 5, "grep": 5, "find": 4, "search": 4, "tree": 3},
}
P_VIEW_SEARCH = {
    **P_VIEW,
    "views": 0.95,
    "search_view": 1.0,
    "shell_weights": {"sview": 60, "cp": 4, "mv": 4, "search": 10},
}
P_SNAP = {
    "agents": 1,
    "mounts": ["mem", "none", "fs", "nested"],
    "hooks": 0.3,
    "index": 0.3,
    "search_view": 0.4,
    "dt": "wild",
    "faults": {"s": 3, "p": 1, "l": 1},
    "fault_rate": 0.1,
    "weights": {
        "mount": 2, "snap": 8, "restore": 10, "policy": 5, "polmut": 4, "meta": 3, "mountd": 2, "mountf": 2, "search": 4,
        "sview": 2, "sync": 2, "cd": 4, "viewon": 1, "index": 1, "ext": 1, "sh": 4, "mv": 7, "touch": 3,
    },
}
P_SEARCH = {
    "agents": 2,
    "views": 0.5,
    "index": 0.6,
    "search_view": 0.6,
    "mounts": ["mem", "none", "nested"],
    "faults": {"s": 3, "p": 3, "l": 3, "h": 1},
    "fault_rate": 0.15,
    "hooks": 0.2,
    "policy_style": "read",
    "weights": {
        "mount": 1,
        "search": 16, "sview": 7, "index": 2, "snap": 3, "restore": 4, "policy": 4, "polmut": 2, "sync": 3, "viewon": 1,
        "ext": 3, "mountf": 2, "mountd": 2, "sh": 8, "mv": 8, "cp": 8, "meta": 1,
    },
    "shell_weights": {"search": 10, "sview": 8, "mv": 6, "cp": 6, "rm": 5},
}
P_SEARCH_NEST = {
    **P_SEARCH,
    "agents": 1,
    "views": 0.2,
    "index": 0.9,
    "nest_rate": 0.5,
    "fault_rate": 0.05,
    "weights": {
        "search": 10, "sview": 3, "index": 2, "restore": 3, "snap": 2, "mountf": 5, "mountd": 4, "mv": 10, "cp": 10,
        "sync": 2, "ext": 2, "sh": 3,
    },
}
P_LINES = {
    "agents": 2,
    "views": 0.3,
    "allow": 0.2,
    "limit": 0.2,
    "fallback": 0.3,
    "mounts": ["mem", "none"],
    "hooks": 0.4,
    "faults": {"s": 3, "p": 3, "l": 3, "h": 3, "d": 2},
    "fault_rate": 0.4,
    "weights": {"sh": 50, "host": 10, "mountf": 3, "mountd": 3, "policy": 3},
    "shell_weights": {"python3": 6, "python": 3, "boom": 3, "nosuch": 3, "echo": 8, "assign": 3, "wc": 4},
}
P_FENCE = {
    "agents": 3,
    "allow": 0.6,
    "limit": 0.7,
    "limit_choices": [0, 5, 17, 40, 120],
    "fallback": 0.5,
    "mounts": ["none"],
    "faults": {"p": 2, "l": 1, "h": 1},
    "fault_rate": 0.15,
    "hooks": 0.2,
    "weights": {"sh": 50, "host": 8, "mountf": 3, "mountd": 1, "policy": 2},
    "shell_weights": {"python3": 4, "python": 4, "rg": 3, "head": 3, "tail": 2, "nosuch": 6, "hello": 4, "$V": 4, "boom": 3, "assign": 4, "cat": 10, "echo": 8, "grep": 6},
}
P_HOST = {
    "agents": 2,
    "views": 0.2,
    "fallback": 0.5,
    "mounts": ["mem", "none", "fs", "nested"],
    "hooks": 0.4,
    "faults": {"d": 6, "h": 1, "s": 2, "p": 1},
    "fault_rate": 0.3,
    "nest_rate": 0.3,
    "policy_style": "write",
    "ops": (10, 25),
    "weights": {"host": 40, "policy": 5, "mountf": 3, "mountd": 2, "sh": 3, "write": 5},
}
P_EXPORT = {
    "agents": 1,
    "mounts": ["mem", "none"],
    "faults": {"d": 6, "p": 2, "l": 3},
    "fault_rate": 0.4,
    "hooks": 0.2,
    "index": 0.2,
    "ops": (10, 30),
    "weights": {"export": 14, "mat": 10, "mountf": 3, "mountd": 5, "sh": 8, "host": 4, "snap": 1, "restore": 1, "search": 1},
}
P_EXPORT_ODD = {
    **P_EXPORT,
    "agents": 0,
    "mounts": ["none"],
    "faults": {"d": 1},
    "fault_rate": 0.1,
    "surrogates": 0.03,
    "weights": {"export": 14, "mat": 10, "sh": 0, "host": 0, "mountd": 1},
}
P_PROVIDERS = {
    "mounts": ["none", "none", "mem"],
    "agents": 1,
    "hooks": 0.2,
    "faults": {"p": 4, "l": 4},
    "fault_rate": 0.3,
    "nest_rate": 0.3,
    "live": 0.5,
    "weights": {
        "mountf": 10, "mountd": 10, "mount": 1, "read": 12, "append": 8, "ls": 6, "walk": 2, "tree": 2, "exists": 4, "meta": 8,
        "mv": 8, "cp": 6, "snap": 1, "restore": 1, "export": 1, "version": 2, "sh": 3, "policy": 1,
    },
}
P_CLOCK = {
    "mounts": ["mem", "fs", "none", "both"],
    "agents": 1,
    "hooks": 0.3,
    "dt": "wild",
    "faults": {"s": 2, "d": 1, "h": 1, "p": 1},
    "fault_rate": 0.1,
    "weights": {
        "sync": 4, "ext": 5, "snap": 3, "restore": 3, "policy": 2, "polmut": 1, "meta": 1, "touch": 8, "sh": 5,
        "mountf": 1, "mountd": 1, "host": 2,
    },
}
P_MANY = {
    "sandboxes": 3,
    "same_specs": 0.7,
    "one_python": 0.5,
    "agents": 2,
    "views": 0.3,
    "allow": 0.15,
    "limit": 0.15,
    "index": 0.3,
    "search_view": 0.4,
    "hooks": 0.6,
    "mounts": ["mem", "none", "nested", "fs"],
    "faults": {"s": 3, "p": 2, "l": 1, "h": 2},
    "fault_rate": 0.12,
    "nest_rate": 0.1,
    "initial": (2, 5),
    "ops": (25, 60),
    "weights": {
        "hook": 1, "mount": 1, "settings": 1,
        "sh": 20, "policy": 4, "polmut": 3, "meta": 2, "snap": 2, "restore": 2, "mountf": 1, "mountd": 3,
        "search": 3, "sync": 1, "ext": 1, "cd": 3,
    },
    "shell_weights": {"python3": 15, "assign": 5, "hello": 3},
}


P_SNIPPETS = {
    "sandboxes": 2,
    "agents": 2,
    "one_python": 0.4,
    "initial": (2, 4),
    "ops": (12, 30),
    "weights": {"sh": 60, "cd": 2, "settings": 2, "pyrun": 6},
    "shell_weights": {"python3": 40, "python": 20, "assign": 6},
}
P_CLIENTS = {"backends": ["mem", "mem", "fs", "fs", "fs-one"], "clients": 3, "ops": (6, 40)}
P_VERSIONS = {
    "mounts": ["mem", "fs", "both"],
    "focus": 0.8,
    "faults": {"s": 3},
    "fault_rate": 0.1,
    "weights": {"sync": 4, "ext": 6, "write": 16, "append": 8, "touch": 3, "version": 4},
}


def under_mount(mismatch) -> bool:
    return mismatch.aspect in ("tree", "content", "version") and op_kind(mismatch) in ("sync", "restart", "fresh")


def c01_where(mismatch) -> bool:
    return False


def c02_ablate():
    return (ablation(strip_plans), drop_failed)


def c03_where(mismatch) -> bool:
    kind = op_kind(mismatch)
    if kind in ("sync", "fresh", "restart") and mismatch.aspect in STATE | {"answer", "result"}:
        return True
    return mismatch.aspect in STATE and not mismatch.info.get("op")


def c04_where(mismatch) -> bool:
    if op_kind(mismatch) not in ("write", "touch"):
        return False
    if mismatch.info.get("reason") in ("version", "conflict"):
        return True
    return mismatch.aspect in ("storage", "result") and mismatch.info.get("reason") == "refused"


def c07_where(mismatch) -> bool:
    return bool(mismatch.info.get("hook_raised")) and mismatch.aspect in STATE | {"storage"}


def c08_where(mismatch) -> bool:
    return mismatch.aspect in ANSWERS and mismatch.info.get("reason") == "policy"


def c09_where(mismatch) -> bool:
    return mismatch.info.get("reason") in ("hidden", "unreadable") or about_search(mismatch)


def c10_where(mismatch) -> bool:
    return op_kind(mismatch) in ("snap", "restore")


def about_search(mismatch) -> bool:
    """Something shows in the search view, or was asked there, outside of a query."""
    op = mismatch.info.get("op") or {}
    return any(str(place).startswith("/@search") for place in (mismatch.info.get("path"), op.get("p")))


def c11_where(mismatch) -> bool:
    op = mismatch.info.get("op") or {}
    if op.get("k") in ("search", "sview", "index", "viewon") or about_search(mismatch):
        return True
    if op.get("k") == "sh" and mismatch.aspect in ("output", "shell", "leak"):
        names = {stage.get("c") for line in op["lines"] for stage in line}
        return "search" in names or any(stage.get("sv") for line in op["lines"] for stage in line)
    return False


def c12_where(mismatch) -> bool:
    if op_kind(mismatch) != "sh":
        return False
    if mismatch.aspect in ("shell",):
        return True
    return mismatch.aspect in STATE | {"storage"} and bool(mismatch.info.get("failed"))


def c13_where(mismatch) -> bool:
    return mismatch.info.get("reason") in ("disallowed", "limit", "unknown")


def c14_where(mismatch) -> bool:
    return is_host(mismatch)


def c16_where(mismatch) -> bool:
    return False


def c18_where(mismatch) -> bool:
    return bool(mismatch.info.get("stranger")) or op_kind(mismatch) == "pyrun"


def strip_providers(case: dict) -> dict:
    return without_ops(case, lambda op: op["k"] in ("mountf", "mountd"))


def strip_snapshots(case: dict) -> dict:
    return without_ops(case, lambda op: op["k"] in ("snap", "restore"))


def strip_index(case: dict) -> dict:
    variant = without_ops(case, lambda op: op["k"] in ("index", "viewon"))
    for box in variant["config"]["sandboxes"]:
        box.pop("index", None)
        box.pop("search_view", None)
    return variant


def strip_clock(case: dict) -> dict:
    def change(op: dict) -> None:
        if "dt" in op:
            op["dt"] = 1

    return each_op(case, change)


def strip_hooks(case: dict) -> dict:
    variant = without_ops(case, lambda op: op["k"] == "hook")
    for box in variant["config"]["sandboxes"]:
        box.pop("hooks", None)
    return variant


def strip_nests(case: dict) -> dict:
    return each_op(case, lambda op: op.pop("nest", None))


def strip_sharing(outcome) -> dict | None:
    """Only the operations of the sandbox in which the disagreement showed."""
    box = outcome.mismatch.info.get("box")
    if box is None:
        return None
    return without_ops(outcome.case, lambda op: op.get("sb", 0) != box)


def strip_other_agents(outcome) -> dict | None:
    op = outcome.mismatch.info.get("op") or {}
    if op.get("k") != "sh":
        return None
    box = op.get("sb", 0)
    return without_ops(
        outcome.case, lambda o: o["k"] == "sh" and o.get("sb", 0) == box and o["a"] != op["a"]
    )


def has_python(op: dict) -> bool:
    return op.get("k") == "pyrun" or any(
        stage.get("c") in ("python", "python3") for line in op.get("lines", []) for stage in line
    )


def strip_other_snippets(outcome) -> dict | None:
    """Only the snippet that misbehaved: others should not matter to it."""
    op = outcome.mismatch.info.get("op") or {}
    if not has_python(op):
        return None
    return without_ops(outcome.case, lambda o: has_python(o) and o != op)


def strip_mounts(case: dict) -> dict:
    variant = without_ops(case, lambda op: op["k"] == "mount")
    for box in variant["config"]["sandboxes"]:
        box.pop("mounts", None)
    return variant


def strip_host(case: dict) -> dict:
    return without_ops(case, lambda op: bool(op.get("proc")))


W = WorldFamily


def build() -> dict[str, Property]:
    out: list[Property] = []
    out.append(
        Property(
            "C01",
            [
                (W("tree", P_TREE), 6000, 60000),
                (W("nest", P_NEST), 5000, 50000),
                (W("shell", P_SHELL), 5000, 50000),
            ],
            direct=STATE | {"result", "answer", "output", "shell", "provider"},
            where=lambda mismatch: mismatch.info.get("reason") == "not-asked",  # made-up content
        )
    )
    out.append(
        Property(
            "C02",
            [
                (W("storage-faults", P_STORE_FAULTS), 5000, 50000),
                (W("provider-faults", P_PROVIDER_FAULTS), 5000, 50000),
                (W("shell-faults", P_SHELL_FAULTS), 5000, 50000),
            ],
            where=failed_state,
            ablate=c02_ablate(),
        )
    )
    out.append(
        Property(
            "C03",
            [(W("mirror", P_MIRROR), 5000, 40000), (W("crash", P_CRASH), 5000, 40000)],
            direct={"storage", "durability"},
            where=c03_where,
            ablate=(ablation(strip_mounts),),
        )
    )
    out.append(
        Property(
            "C04",
            [
                (SharedFamily("clients", P_CLIENTS), 12000, 150000),
                (W("versions", P_VERSIONS), 3000, 25000),
            ],
            direct={"version"},
            where=c04_where,
        )
    )
    out.append(
        Property(
            "C05",
            [(DiskFamily("disk", {"ops": (5, 30), "fault_rate": 0.5}), 16000, 150000)],
        )
    )
    out.append(
        Property(
            "C06",
            [(LinkFamily("links", {"ops": (5, 30), "fault_rate": 0.08}), 16000, 150000)],
        )
    )
    out.append(
        Property(
            "C07",
            [(W("hooks", P_HOOKS), 12000, 100000)],
            direct={"events", "hookerr"},
            where=c07_where,
            ablate=(ablation(strip_hooks),),
        )
    )
    out.append(
        Property(
            "C08",
            [(W("policy", P_POLICY), 12000, 100000)],
            direct={"protected", "policy"},
            where=c08_where,
            ablate=(ablation(strip_policies),),
        )
    )
    out.append(
        Property(
            "C09",
            [
                (W("views", P_VIEW), 12000, 100000),
                (W("view-search", P_VIEW_SEARCH), 3000, 50000),
                (RawFamily("raw-views", {"views": 0.9}, ["leak"]), 6000, 60000),
            ],
            direct={"leak"},
            where=c09_where,
            ablate=(ablation(strip_views), strip_other_agents),
        )
    )
    out.append(
        Property(
            "C10",
            [(W("snapshots", P_SNAP), 10000, 80000)],
            where=c10_where,
            ablate=(ablation(strip_snapshots),),
        )
    )
    out.append(
        Property(
            "C11",
            [(W("search", P_SEARCH), 10000, 80000), (W("search-nest", P_SEARCH_NEST), 5000, 60000)],
            where=c11_where,
            ablate=(ablation(strip_index),),
        )
    )
    out.append(
        Property(
            "C12",
            [
                (W("lines", P_LINES), 10000, 80000),
                (RawFamily("raw", {}, ["raise", "silent", "stdout", "session"]), 12000, 100000),
            ],
            direct={"raise", "silent", "stdout"},
            where=c12_where,
            ablate=(ablation(strip_plans), drop_failed),
        )
    )
    out.append(
        Property(
            "C13",
            [
                (W("fences", P_FENCE), 12000, 100000),
                (RawFamily("raw-fences", {"views": 0.05, "allow": 0.9, "limit": 0.5}, ["limit", "fence"]), 10000, 80000),
            ],
            direct={"limit"},
            where=c13_where,
            ablate=(ablation(strip_fences),),
        )
    )
    out.append(
        Property(
            "C14",
            [(W("host", P_HOST), 6000, 50000)],
            direct={"host", "tmp", "escape"},
            where=c14_where,
            ablate=(ablation(strip_host),),
        )
    )
    out.append(
        Property(
            "C15",
            [(W("export", P_EXPORT), 8000, 60000), (W("export-odd", P_EXPORT_ODD), 1500, 10000)],
            direct={"escape", "export", "tmp"},
        )
    )
    out.append(
        Property(
            "C16",
            [(W("providers", P_PROVIDERS), 10000, 80000)],
            direct={"provider", "loads"},
            ablate=(ablation(strip_providers),),
        )
    )
    out.append(
        Property(
            "C17",
            [(W("clocks", P_CLOCK), 8000, 60000)],
            direct={"created", "modified"},
            ablate=(ablation(strip_clock),),
        )
    )
    out.append(
        Property(
            "C18",
            [(W("many", P_MANY), 5000, 40000), (W("snippets", P_SNIPPETS), 3000, 25000)],
            where=c18_where,
            ablate=(strip_sharing, strip_other_agents, strip_other_snippets),
        )
    )
    out.append(Property("C21", [(CliFamily("cli", {}), 6000, 80000)]))
    return {item.ident: item for item in out}
