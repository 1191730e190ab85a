"""Seeded generation of worlds, operations, schedules and faults.

``Generator`` is given a live ``World`` and produces the next operation from the
model's current state, so that most operations are meaningful.  Everything it
emits is concrete JSON; replaying a recorded list does not involve it.
"""

from __future__ import annotations

import copy
import random
import re
import urllib.parse

from .model import Model, Node, clashing, join, norm, parent_of, under, view_allows
from .universe import World

DIRS = ["a", "b", "c", "dd", "ab"]
FILES = ["f", "g", "h.txt", "log.md", "two words", "ümlaut", "ff", "pad ", ".rc", "b.tmp", "~c"]
# Unusual names: letter case, composed and decomposed forms, pattern, quote and operator characters, numbers, length
RARE_FILES = ["F", "u\u0308mlaut", "[y]", "10", "9", "it's", "b\\s", "a;b", "#c", "x=1", "a|b", "n" * 120]
RARE_DIRS = ["A", "a b", "a.d", "[d]", "d" * 60]
WORDS = ["alpha", "beta", "Gamma", "delta", "x=1", "naïve", "日本", "end", "Straße", "cr\rend", "crlf\r\n", "sep\u2028par"]
SYMBOLS = ["f(x)", "a.b", "[y]", "a+b", "1|2", "C:\\d", "g(x"]  # regular expressions read them differently
TEAMS = ["red", "blue"]
CLASSES = ["public", "internal", "secret"]
PRINCIPALS = ["ann", "bob"]
ALLOWABLE = (
    "cat ls echo write append wc grep rg touch mkdir rm cp mv hello find head tail printf star python python3 "
    "bash sh host search pwd cd tree stat nosuch boom warn where join mute"
).split()


def default_profile() -> dict:
    return {
        "ops": (15, 45),
        "sandboxes": 1,
        "mounts": [],  # choices of mount lists, see MOUNTS
        "hooks": 0.0,
        "agents": 0,
        "views": 0.0,
        "allow": 0.0,
        "limit": 0.0,
        "one_python": 0.0,
        "index": 0.0,
        "search_view": 0.0,
        "providers": 0.0,
        "initial": (4, 12),
        "policies": 0.1,
        "faults": {},
        "fault_rate": 0.0,
        "nest_rate": 0.0,
        "retry": True,
        "dt": "steady",
        "weights": {},
        "providers_kinds": ["const", "count", "path", "read"],
        "shell_weights": {},
        "surrogates": 0,
        "fallback": 0.0,
        "limit_choices": [40, 120, 400],
    }


MOUNTS = {
    "mem": [{"id": "m", "path": "/m", "kind": "mem"}],
    "fs": [{"id": "m", "path": "/m", "kind": "fs"}],
    "both": [{"id": "m", "path": "/m", "kind": "mem"}, {"id": "k", "path": "/a/k", "kind": "fs"}],
    "nested": [{"id": "m", "path": "/m", "kind": "mem"}, {"id": "n", "path": "/m/n", "kind": "mem"}],
    "nestedfs": [{"id": "m", "path": "/m", "kind": "fs"}, {"id": "n", "path": "/m/a/n", "kind": "mem"}],
    "deep": [{"id": "m", "path": "/a/b/m", "kind": "mem"}],
    "none": [],
}

MUTATING = {"write", "touch", "mkdir", "rm", "mv", "cp"}


def hook_spec(rng: random.Random, prefixes: list[str]) -> list[str]:
    kind = rng.choice("wwppi")
    behaviour = "plain" if kind == "i" else rng.choice(["plain", "flaky", "reenter"])
    first = rng.choice(prefixes)
    spec = [kind, first, behaviour]
    if len(prefixes) > 1 and rng.random() < 0.25:  # the same callable for a separate prefix
        other = rng.choice(prefixes)
        if not under(norm(other), norm(first)) and not under(norm(first), norm(other)):
            spec.append(other)
    return spec

PATTERNS = ["tok.+x", "^al", "a$", "b.ta", "(alpha|delta)", "ALPHA"]
# Ill-formed uses, which fail without an effect ("%" is some path)
MISUSES = [
    ["cd"], ["cd", "%", "%"], ["append"], ["append", "%"], ["touch"], ["mkdir"], ["mkdir", "-p"], ["rm"],
    ["rm", "-r"], ["cp"], ["cp", "%"], ["cp", "-r", "%"], ["cp", "%", "%", "%"], ["mv"], ["mv", "%"],
    ["mv", "%", "%", "%"], ["write"], ["grep"], ["grep", "-i"], ["rg"], ["search"], ["search", "-i"],
    ["python"], ["python3"], ["stat"], ["host"], ["host", "-p"], ["host", "-p", "%"], ["find", "-name"],
    ["find", "-type"], ["find", "%", "-type", "z"], ["find", "%", "-size"], ["head", "-n"], ["head", "-n", "z", "%"],
    ["tail", "-n"], ["tail", "-c"], ["tail", "-c", "z", "%"], ["head", "-c"],
]


class Generator:
    def __init__(self, rng: random.Random, profile: dict) -> None:
        self.rng = rng
        self.profile = {**default_profile(), **profile}
        self.counter = 0
        self.queue: list[dict] = []
        self.ids = 0
        self.gone: list[str] = []  # paths that were removed or moved away
        self.static_specs: list[dict] = []  # trees that several providers supply

    # -- texts and names -----------------------------------------------------
    def token(self) -> str:
        self.counter += 1
        return f"tok{self.counter}x"

    def text(self) -> str:
        rng = self.rng
        lines = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            words = [rng.choice(WORDS if rng.random() < 0.85 else SYMBOLS) for _ in range(rng.randint(0, 2))]
            words.insert(rng.randint(0, len(words)), self.token())
            lines.append(" ".join(words))
        if self.profile["surrogates"] and rng.random() < self.profile["surrogates"]:
            lines.append("\udc80" + lines[-1])  # text that no host file can hold
        roll = rng.random()
        if roll < 0.01:
            return ""
        if roll < 0.022:  # long, and told apart from others only by its ends
            filler = [rng.choice(WORDS[:8])] * rng.choice([40, 300, 1500])
            lines = [lines[0], *([" ".join(filler)] if rng.random() < 0.5 else filler), self.token()]
        return "\n".join(lines) + rng.choice(["", "\n"])

    def word(self) -> str:
        return self.rng.choice([*WORDS[:5], "tok", self.token()])

    def name(self, directory: bool = False) -> str:
        directory = directory or self.rng.random() < 0.15
        if self.rng.random() < 0.05:
            return self.rng.choice(RARE_DIRS if directory else RARE_FILES)
        return self.rng.choice(DIRS if directory else FILES)

    def entries(self, nested: float) -> dict:
        """What a storage backend holds when it is mounted."""
        rng = self.rng
        init = {}
        for _ in range(rng.randint(0, 4) if rng.random() < 0.97 else 25):
            key = rng.choice(FILES) if rng.random() < 0.95 else rng.choice([*RARE_FILES, *(f"n{i}" for i in range(25))])
            if rng.random() < nested:
                key = rng.choice(DIRS) + "/" + key
            init[key] = self.text()
        return init

    def stretch(self) -> list[dict]:
        """Once in a while a run starts from a wide, deep or often rewritten tree."""
        rng = self.rng
        base = rng.choice(["", "/a", "/b", "/a/b", "/m", "/c"])
        style = rng.choice(["wide", "deep", "often"])
        if style == "wide":
            paths = [f"{base}/n{i}" for i in range(rng.choice([13, 40]))]
        elif style == "deep":
            name = rng.choice(["a", "b", "q"])
            paths = [f"{base}/" + f"{name}/" * rng.choice([6, 12, 30]) + rng.choice(FILES) for _ in range(2)]
        else:
            paths = [f"{base}/{rng.choice(FILES)}"] * rng.choice([11, 24])
        ops = [{"k": "write", "p": path, "t": self.text()} for path in paths]
        for op in ops[1:]:
            if style == "often" and rng.random() < 0.3:
                op["ap"] = True
        return ops

    # -- configuration ---------------------------------------------------------
    def config(self) -> dict:
        p = self.profile
        rng = self.rng
        boxes = []
        for _ in range(p["sandboxes"]):
            box: dict = {}
            if p["mounts"]:
                mounts = []
                chosen = list(MOUNTS[rng.choice(p["mounts"])])
                if rng.random() < 0.5:
                    chosen.reverse()
                for spec in chosen:
                    spec = dict(spec)
                    spec["init"] = self.entries(0.5)
                    mounts.append(spec)
                box["mounts"] = mounts
            if rng.random() < p["hooks"]:
                prefixes = ["/", "/a", "/m", "/a/b", "/side", "/b", "a/../m", "/a/", "/b/./x/..", "/a/f"]
                box["hooks"] = [
                    hook_spec(rng, prefixes)
                    for _ in range(rng.randint(1, 4) if rng.random() < 0.97 else 12)
                ]
            box["dirs"] = [["/side", None]]
            if rng.random() < p["search_view"]:
                box["search_view"] = True
            if rng.random() < p["index"]:
                box["index"] = True
            agents = []
            for number in range(p["agents"]):
                agents.append(self.agent_spec("ABCDE"[number]))
            box["agents"] = agents
            if rng.random() < p["one_python"]:
                box["one_python"] = True
            boxes.append(box)
        clock = 1_000_000.0 + rng.randint(0, 1000)
        return {"sandboxes": boxes, "clock": clock}

    def agent_spec(self, name: str) -> dict:
        p = self.profile
        rng = self.rng
        spec: dict = {"name": name, "env": {"V": rng.choice(["alpha", "f", "/a"])}}
        if rng.random() < p["views"]:
            spec["view"] = self.view()
        if rng.random() < p["allow"]:
            spec["allow"] = sorted(rng.sample(ALLOWABLE, rng.choice([0, 1, 3, 6, 10])))
        if rng.random() < p["limit"]:
            spec["limit"] = rng.choice(p["limit_choices"])
        if rng.random() < p["fallback"]:
            spec["fallback"] = True
        spec["extra"] = {
            "hello": "hello from " + name,
            "boom": "!exploded",
            "warn": f"?warned {name}|careful\n",
            "fail7": "#gave up",
            "mute": "%half",
            "where": "@",
            "join": "*",
            "quiet": "0",
            "star": "**",
        }
        return spec

    def view(self) -> dict | None:
        rng = self.rng
        view: dict = {}
        if rng.random() < 0.5:
            view["c"] = sorted(rng.sample(CLASSES, rng.randint(1, 2)))
        if rng.random() < 0.3:
            view["p"] = sorted(rng.sample(PRINCIPALS, 1))
        if rng.random() < 0.4:
            view["x"] = rng.sample(["/a", "/b", "/m", "/a/b", "/side", "/a/f"], rng.randint(1, 2))
        if rng.random() < 0.2:
            view["m"] = {"team": rng.choice(TEAMS)}
        return view or {"c": ["public"]}

    # -- paths -----------------------------------------------------------------
    def nodes(self, model: Model, kind: str | None = None, side: bool = True) -> list[Node]:
        found = []
        for node in model.root.walk():
            if kind and node.kind != kind:
                continue
            if model.search_prefix and under(node.path, model.search_prefix):
                continue
            if not side and under(node.path, "/side"):
                continue
            found.append(node)
        return found

    def existing(self, model: Model, kind: str | None = None) -> str:
        found = self.nodes(model, kind)
        if not found:
            return "/" + self.name()
        if self.profile.get("focus") and self.rng.random() < self.profile["focus"]:
            inside = [n for n in found if model.mount_of(n.path)]
            if inside:
                found = inside
        return self.rng.choice(found).path

    def supplied(self, model: Model) -> str:
        """Any node, at times one that a directory provider supplied."""
        if self.profile.get("same_specs") and self.rng.random() < 0.5:
            found = [node for node in self.nodes(model, None) if node.supplied]
            if found:
                return self.rng.choice(found).path
        if self.profile.get("live") and self.rng.random() < self.profile["live"]:
            found = [node for node in self.nodes(model, "f") if node.prov]
            if found:
                return self.rng.choice(found).path
        return self.existing(model)

    def no_query(self, model: Model) -> str:
        return model.search_prefix + self.rng.choice(["", "", self.existing(model)])

    def fresh_path(self, model: Model, directory: bool = False) -> str:
        if self.gone and self.rng.random() < 0.15:
            return self.rng.choice(self.gone)  # perhaps as the other kind this time
        base = self.existing(model, "d")
        path = join(base, self.name(directory))
        while self.rng.random() < 0.15:
            path = join(path, self.name())
        return path

    def path(self, model: Model, kind: str | None = None, new: float = 0.3) -> str:
        if self.rng.random() < new:
            return self.fresh_path(model, kind == "d")
        return self.existing(model, kind)

    def spell(self, model: Model, path: str) -> str:
        """Write the path down in one of its spellings."""
        rng = self.rng
        roll = rng.random()
        if roll < 0.75:
            return path
        if roll < 0.85 and model.cwd != "/" and under(path, model.cwd) and path != model.cwd:
            return path[len(model.cwd) + 1 :]
        if roll < 0.9 and model.cwd != "/":
            return "/".join([".."] * model.cwd.count("/")) + path
        if roll < 0.94 and path != "/":
            return path + "/"
        if roll < 0.97:
            return "/./" + path[1:] if path != "/" else "/."
        parent = parent_of(path)
        return join(parent, "zz") + "/../" + path.rsplit("/", 1)[1] if path != "/" else "/.."

    # -- operations ----------------------------------------------------------------
    def initial(self, world: World) -> list[dict]:
        out = []
        rng = self.rng
        for number, box in enumerate(world.sandboxes):
            for _ in range(rng.randint(*self.profile["initial"])):
                base = rng.choice(["", "/a", "/b", "/a/b", "/m", "/side", "/c", "/ab", "/m2"])
                op = {"k": "write", "sb": number, "p": base + "/" + rng.choice(FILES), "t": self.text()}
                out.append(op)
            if rng.random() < 0.03:
                out += [{**op, "sb": number} for op in self.stretch()]
            del box
        return out

    DEFAULT_WEIGHTS = {
        "write": 10,
        "append": 5,
        "touch": 2,
        "mkdir": 4,
        "rm": 5,
        "mv": 6,
        "cp": 6,
        "cd": 2,
        "read": 5,
        "ls": 2,
        "glob": 1,
        "tree": 1,
        "exists": 1,
        "version": 1,
        "walk": 1,
        "iterf": 1,
        "policy": 0,
        "polmut": 0,
        "meta": 0,
        "snap": 0,
        "restore": 0,
        "sync": 0,
        "ext": 0,
        "mountf": 0,
        "mountd": 0,
        "search": 0,
        "sview": 0,
        "index": 0,
        "export": 0,
        "mat": 0,
        "fresh": 0,
        "sh": 0,
        "host": 0,
        "hook": 0,
        "viewon": 0,
        "pyrun": 0,
        "mount": 0,
        "settings": 0,
    }

    def pick_kind(self) -> str:
        weights = {**self.DEFAULT_WEIGHTS, **self.profile["weights"]}
        kinds = [k for k, v in weights.items() if v > 0]
        return self.rng.choices(kinds, [weights[k] for k in kinds])[0]

    def next(self, world: World) -> dict:
        while self.queue:
            op = self.queue.pop(0)
            if op["k"] not in ("search", "sview") or sane(world, op):
                return op
        for _ in range(50):
            number = self.rng.randrange(len(world.sandboxes))
            op = self.make(world, number, self.pick_kind())
            if op is None:
                continue
            op["sb"] = number
            if sane(world, op):
                break
        else:
            return {"k": "exists", "p": "/", "sb": 0}
        self.decorate(world, op)
        if op["k"] in ("rm", "mv"):
            model = world.sandboxes[op["sb"]].model
            node = model.find_quiet(op["p"])
            if node is not None and node.path != "/":
                self.gone = [*self.gone[-6:], *[n.path for n in list(node.walk())[:2]]]
        return op

    def decorate(self, world: World, op: dict) -> None:
        rng = self.rng
        p = self.profile
        style = p["dt"]
        if style == "steady":
            op["dt"] = rng.choice([0, 1, 1, 5])
        elif style == "wild":
            op["dt"] = rng.choice([0, 0, 1, 0.001, 100000, -50, -100000])
        if rng.random() < p["fault_rate"] and p["faults"]:
            kinds = [k for k in p["faults"] if self.can_fire(world, op, k) or rng.random() < 0.05]
            kind = rng.choices(kinds, [p["faults"][k] for k in kinds])[0] if kinds else ""
            plan = self.plan(kind, op) if kind else None
            if plan:
                op["plan"] = plan
                if not sane(world, op):
                    del op["plan"]
                    return
                if world.sandboxes[op["sb"]].model.index and "crash" not in str(plan) and rng.random() < 0.4:
                    self.queue.append({"k": "search", "q": "tok", "sb": op["sb"]})
                if p["retry"] and "crash" not in str(plan) and op["k"] != "sh":
                    retry = {k: v for k, v in op.items() if k not in ("plan", "nest")}
                    retry["dt"] = 1
                    self.queue.append(retry)
        elif rng.random() < p["nest_rate"]:
            box = world.sandboxes[op["sb"]]
            where = rng.choice(["provider", "hook", "loader"] + (["proc"] * 3 if op.get("proc") else []))
            op["nest"] = {"w": where, "ops": self.side_ops(box.model, op["sb"])}
            if not sane(world, op):
                del op["nest"]
            elif box.model.index and rng.random() < 0.5:
                self.queue.append({"k": "search", "q": "tok", "sb": op["sb"]})

    def can_fire(self, world: World, op: dict, kind: str) -> bool:
        """Is there anything this kind of fault could hit during the operation?"""
        box = world.sandboxes[op["sb"]]
        model = box.model
        if op["k"] == "sh" or op["k"] in ("search", "sview", "index", "export", "mat", "snap", "restore"):
            places = None
        elif model.index and kind in ("p", "l"):  # whatever rebuilds the index asks every provider
            places = None
        else:
            places = [norm(op[key], model.cwd) for key in ("p", "q") if op.get(key) is not None]

        def near(path: str) -> bool:
            return places is None or any(under(path, q) or under(q, path) for q in places)

        if kind in ("s", "crash"):
            return op["k"] in ("sync", "mount") or any(near(m.prefix) for m in model.mounts)
        if kind == "h":
            flaky = [spec[1] for spec in box.config.get("hooks", []) if spec[2] == "flaky"]
            return op["k"] in ("write", "touch", "rm", "mv", "cp", "sh") and any(
                near(norm(prefix)) for prefix in flaky
            )
        if kind == "p":
            return any(n.prov and near(n.path) for n in model.root.files())
        if kind == "l":
            return any(n.loader and not n.loaded and near(n.path) for n in model.root.walk())
        if kind in ("d", "dcrash"):
            if op["k"] in ("export", "mat") or op.get("proc"):
                return True
            return op["k"] in ("sync", "mount") or any(near(m.prefix) for m in model.mounts if m.kind == "fs")
        return True

    def plan(self, kind: str, op: dict) -> dict | None:
        rng = self.rng
        at = rng.choice([0, 0, 0, 1, 1, 2, 3])
        if kind == "s":
            return {"s": {"at": at, "kind": rng.choice(["error", "oserror", "conflict"])}}
        if kind == "crash":
            return {"s": {"at": at, "kind": rng.choice(["crash-before", "crash-after"])}}
        if kind == "h":
            return {"h": {"at": at, **self.exception()}}
        if kind == "p":
            at = 0 if op["k"] == "sh" else at
            return {"p": {"at": at, "msg": rng.choice(["provider down", "404 gone", "x" * 30]), **self.exception()}}
        if kind == "l":
            if rng.random() < 0.3 and op["k"] != "sh":
                name = rng.choice(["../evil", "..", "a/b", "", ".", "/abs"])
                return {"l": {"at": 0, "kind": "bad-name", "name": name}}
            return {"l": {"at": 0, "msg": rng.choice(["loader down", "timeout 7"]), **self.exception()}}
        if kind == "d":
            return {"d": {"at": rng.randint(0, 24), "kind": rng.choice(["eio", "enospc", "eacces", "short"])}}
        if kind == "dcrash":
            return {"d": {"at": rng.randint(0, 24), "kind": "crash"}}
        raise ValueError(kind)

    def exception(self) -> dict:
        if self.rng.random() < 0.5:
            return {}
        return {"exc": self.rng.choice(["key", "os", "value", "type", "missing", "invalid", "lost"])}

    def side_ops(self, model: Model, number: int) -> list[dict]:
        rng = self.rng
        out = []
        for _ in range(rng.randint(1, 3)):
            name = rng.choice(["n1", "n2", "n3"])
            inside = [n.path for n in model.root.files() if under(n.path, "/side") and not n.prov and not n.supplied]
            old = rng.choice(inside) if inside else "/side/n1"
            out.append(
                rng.choice(
                    [
                        {"k": "write", "p": "/side/" + name, "t": self.text()},
                        {"k": "write", "p": old, "t": self.text(), "ap": True},
                        {"k": "mkdir", "p": "/side/" + rng.choice(DIRS), "ok": True},
                        {"k": "rm", "p": old},
                        {"k": "cp", "p": old, "q": "/side/c" + name},
                        {"k": "mv", "p": old, "q": "/side/v" + name},
                        {"k": "read", "p": old},
                        {"k": "ls", "p": "/side"},
                    ]
                )
            )
            out[-1]["sb"] = number
        return out

    def beside(self, stem: str, path: str) -> str:
        """Sometimes put a provider next to what its own nested operations change."""
        if self.profile["nest_rate"] and self.rng.random() < 0.4:
            return f"/side/{stem}{self.ids}"
        return path

    # one maker per kind ------------------------------------------------------------
    def make(self, world: World, number: int, kind: str) -> dict | None:
        box = world.sandboxes[number]
        model = box.model
        rng = self.rng
        if model.search_prefix and kind in ("ls", "tree", "walk", "read", "exists") and rng.random() < 0.15:
            return {"k": kind, "p": self.no_query(model)}  # nobody is asking: nothing is there
        sp = lambda path: self.spell(model, path)  # noqa: E731
        if kind == "write":
            path = self.path(model, "f", 0.4)
            op = {"k": "write", "p": sp(path), "t": self.text()}
            if rng.random() < 0.12:
                node = model.find_quiet(path)
                version = node.version if node is not None else 0
                op["ev"] = version + rng.choice([0, 0, 0, 1, -1])
            return op
        if kind == "append":
            return {"k": "write", "p": sp(self.path(model, "f", 0.25)), "t": self.text(), "ap": True}
        if kind == "touch":
            return {"k": "touch", "p": sp(self.path(model, "f", 0.5))}
        if kind == "mkdir":
            op = {"k": "mkdir", "p": sp(self.path(model, "d", 0.75))}
            if rng.random() < 0.5:
                op["par"] = True
            if rng.random() < 0.4:
                op["ok"] = True
            return op
        if kind == "rm":
            return {"k": "rm", "p": sp(self.path(model, None, 0.1)), "rec": rng.random() < 0.7}
        if kind == "mv":
            return {"k": "mv", "p": sp(self.path(model, None, 0.07)), "q": sp(self.path(model, None, 0.6))}
        if kind == "cp":
            return {
                "k": "cp",
                "p": sp(self.path(model, None, 0.07)),
                "q": sp(self.path(model, None, 0.6)),
                "rec": rng.random() < 0.75,
            }
        if kind in ("walk", "iterf", "tree") and self.profile["nest_rate"] and rng.random() < 0.4:
            return {"k": kind, "p": rng.choice(["/", "/side"]), "rec": True}
        if kind == "cd":
            return {"k": "cd", "p": sp(self.path(model, "d", 0.1))}
        if kind == "read":
            return {"k": "read", "p": sp(self.path(model, "f", 0.08))}
        if kind in ("ls", "tree"):
            op = {"k": kind, "p": sp(self.path(model, "d", 0.08))}
            if self.profile["views"] and rng.random() < 0.4:
                op["v"] = self.view()
            return op
        if kind == "glob":
            pattern = rng.choice(["*", "f*", "?", "/a/*", "/*/f", "*.txt", "/m/*", "b/*", "[fg]", "*/*/g", "", "/*", "/", "./*"])
            op = {"k": "glob", "pat": pattern}
            if rng.random() < 0.3:
                op["p"] = self.path(model, "d", 0.05)
            if self.profile["views"] and rng.random() < 0.4:
                op["v"] = self.view()
            return op
        if kind in ("exists", "version"):
            return {"k": kind, "p": sp(self.path(model, None, 0.3))}
        if kind == "walk":
            return {"k": "walk", "p": self.path(model, None, 0.05)}
        if kind == "iterf":
            return {"k": "iterf", "p": self.path(model, None, 0.05), "rec": rng.random() < 0.6}
        if kind in ("policy", "polmut"):
            path = self.supplied(model)
            if self.profile["weights"].get("restore") and rng.random() < 0.03:
                path = "/"
            return {"k": kind, "p": path, "pol": self.policy()}
        if kind == "meta":
            return {"k": "meta", "p": self.supplied(model), "m": {"team": rng.choice(TEAMS)}}
        if kind == "snap":
            return {"k": "snap"} if len(box.snapshots) < 4 else None
        if kind == "restore":
            if not box.snapshots:
                return None
            if box.ext_seen or any(m.kind == "fs" for m in model.mounts):
                for mount in sorted(model.mounts, key=lambda m: len(m.prefix)):
                    self.queue.append({"k": "sync", "p": mount.prefix, "sb": number})
            which = rng.randrange(len(box.snapshots))
            kept = box.snapshots[which][1]["nodes"]
            self.gone += [n.path for n in self.nodes(model, "f") if n.path not in kept][:3]
            return {"k": "restore", "i": which}
        if kind == "sync":
            if not model.mounts:
                return None
            return {"k": "sync", "p": rng.choice(model.mounts).prefix}
        if kind == "ext":
            if not model.mounts:
                return None
            mount = rng.choice(model.mounts)
            keys = sorted(mount.entries)
            key = rng.choice(keys) if keys and rng.random() < 0.6 else self.rng.choice(FILES)
            if rng.random() < 0.2:
                key = rng.choice(DIRS) + "/" + rng.choice(FILES)
            if any(m is not mount and under(m.prefix, join(mount.prefix, key)) for m in model.mounts):
                return None  # a file in the way of a mount below could not be mounted again
            op = {"k": "ext", "m": mount.ident, "key": key, "t": self.text()}
            if rng.random() < 0.25 and key in mount.entries:
                op["t"] = None
                self.gone.append(join(mount.prefix, key))
            if rng.random() < 0.7 and op["t"] is not None:
                path = join(mount.prefix, key)
                if model.mount_of(path) is mount and not box_overlap(model, path):
                    self.queue += [
                        {"k": "write", "p": path, "t": self.text(), "sb": number, "dt": 0},
                        {"k": "sync", "p": mount.prefix, "sb": number, "dt": 0},
                        {"k": "write", "p": path, "t": self.text(), "sb": number, "dt": 1},
                    ]
            return op
        if kind == "mountf":
            self.ids += 1
            op = {
                "k": "mountf",
                "p": self.beside("pv", self.path(model, "f", 0.7)),
                "id": f"P{number}.{self.ids}",
                "b": rng.choice(self.profile["providers_kinds"]),
                "t": self.token() + " live",
            }
            if op["b"] == "const" and rng.random() < 0.4:
                op["t"] = ""
            if rng.random() < 0.4:
                op["m"] = {"team": rng.choice(TEAMS)}
            return op
        if kind == "mountd":
            self.ids += 1
            op = {
                "k": "mountd",
                "p": self.beside("lz", self.path(model, "d", 0.8)),
                "id": f"L{number}.{self.ids}",
                "spec": self.directory_spec(number, 0),
            }
            return op
        if kind in ("search", "sview"):
            if kind == "sview" and not model.search_prefix:
                return None
            op = {**self.query(model), "k": kind}
            if rng.random() < (0.4 if op.get("regex") else 0.1):
                self.queue.append({**op, "icase": not op.get("icase"), "sb": number})
            return op
        if kind == "index":
            if model.index:
                return None
            op = {"k": "index"}
            if rng.random() < 0.4:
                op["own"] = self.path(model, rng.choice("df"), 0.3)
            return op
        if kind == "pyrun":
            return {"k": "pyrun", "t": self.token()}
        if kind == "viewon":
            if model.search_prefix:
                return None
            if model.find_quiet("/@search") is None and rng.random() < 0.3:
                self.queue.append({"k": "viewon", "sb": number, "dt": 1})
                return {"k": "mkdir", "p": "/@search"}
            return {"k": "viewon"}
        if kind in ("export", "mat"):
            op = {"k": kind, "p": self.path(model, "d", 0.05)}
            if rng.random() < 0.15:
                op["p"] = None  # the working directory
            if kind == "mat" and rng.random() < 0.3:
                op["raise"] = True
            top = model.find_quiet(op["p"] or model.cwd)
            if kind == "export" and top is not None and top.kind == "d" and rng.random() < 0.5:
                base = top.path.rstrip("/")
                rels = [n.path[len(base) + 1 :] for n in top.files()]
                op["pre"] = {rel: "older text " * 8 for rel in rels if rng.random() < 0.4}
                if rng.random() < 0.3 and "kept" not in top.children:
                    op["pre"]["kept"] = "not from here"
            return op
        if kind == "fresh":
            return {"k": "fresh"} if model.mounts else None
        if kind == "hook":
            if len(box.hook_specs) >= 6:
                return None
            prefix = sp(self.path(model, rng.choice(["d", "d", "f"]), 0.2))
            kind, _, behaviour = hook_spec(rng, [prefix])[:3]
            op = {"k": "hook", "h": kind, "p": prefix, "b": "flaky" if behaviour == "reenter" else behaviour}
            other = self.path(model, "d", 0.2)
            where = norm(prefix, model.cwd)
            if rng.random() < 0.25 and not under(other, where) and not under(where, other):
                op["more"] = [sp(other)]
            return op
        if kind == "settings":
            return {"k": "settings"}
        if kind == "mount":
            again = [m.prefix for m in model.mounts] if rng.random() < 0.25 else []
            if len(model.mounts) >= 3 and not again:
                return None
            self.ids += 1
            spec = {"id": f"x{self.ids}", "kind": rng.choice(["mem", "mem", "fs"]), "init": self.entries(0.4)}
            if rng.random() < 0.3:
                spec["pol"] = self.policy()
            if again:
                return {"k": "mount", "p": sp(rng.choice(again)), "spec": spec}
            lazy = [n.path for n in self.nodes(model, "d") if n.loader and not n.loaded]
            if lazy and rng.random() < 0.4:
                return {"k": "mount", "p": rng.choice(lazy), "spec": spec}
            return {"k": "mount", "p": sp(self.path(model, "d", 0.6)), "spec": spec}
        if kind == "sh":
            return self.shell_op(world, number)
        if kind == "host":
            return self.host_op(world, number)
        return None

    def policy(self) -> dict:
        rng = self.rng
        pol: dict = {}
        roll = rng.random()
        style = self.profile.get("policy_style", "mixed")
        if style in ("mixed", "write"):
            if roll < 0.3:
                pol["w"] = False
            elif roll < 0.5:
                pol["a"] = True
        if style in ("mixed", "read") and rng.random() < 0.3:
            pol["r"] = False
        if style == "write" and rng.random() < 0.12:
            pol["p"] = sorted(rng.sample(PRINCIPALS, rng.randint(1, 2)))
        if style in ("mixed", "read", "view"):
            if rng.random() < 0.5:
                pol["c"] = rng.choice(CLASSES)
            if rng.random() < 0.25:
                pol["p"] = sorted(rng.sample(PRINCIPALS, rng.randint(1, 2)))
        return pol

    def directory_spec(self, number: int, depth: int) -> dict:
        rng = self.rng
        if depth == 0 and self.static_specs and rng.random() < self.profile.get("same_specs", 0.4):
            return copy.deepcopy(rng.choice(self.static_specs))
        spec = self.new_directory_spec(number, depth)
        if depth == 0 and "'prov'" not in str(spec) and "'loader'" not in str(spec):
            self.static_specs.append(copy.deepcopy(spec))
        return spec

    def new_directory_spec(self, number: int, depth: int) -> dict:
        rng = self.rng
        spec: dict = {}
        for _ in range(rng.randint(0, 3)):
            name = self.name()
            self.ids += 1
            shared = self.profile.get("same_specs")
            if rng.random() < 0.6:
                item: dict = {"k": "f"}
                if rng.random() < (0.15 if shared else 0.4):
                    item["prov"] = f"P{number}.{self.ids}"
                    item["pspec"] = {
                        "b": rng.choice(self.profile["providers_kinds"]),
                        "t": self.token(),
                    }
                else:
                    item["t"] = self.text()
            else:
                item = {"k": "d"}
                if depth < 2 and rng.random() < (0.15 if shared else 0.5):
                    item["loader"] = f"L{number}.{self.ids}"
                    item["spec"] = self.directory_spec(number, depth + 1)
                elif depth < 2:
                    item["ch"] = self.directory_spec(number, depth + 1)
            if rng.random() < 0.3:
                item["m"] = {"team": rng.choice(TEAMS)}
            if rng.random() < (0.4 if shared else 0.2):
                item["pol"] = self.policy()
            spec[name] = item
        return spec

    def query(self, model: Model) -> dict:
        rng = self.rng
        op: dict = {"q": rng.choice(["tok", "a", "alpha", "GAMMA", "日", "tok1", "x", "STRASSE", "straße", "end", "par", *SYMBOLS])}
        if rng.random() < 0.3:
            op["icase"] = True
        if rng.random() < 0.25:
            op["regex"] = True
            op["q"] = rng.choice(["tok[0-9]+x", "^al", "a$", "b.ta", "(alpha|delta)", "gam+a", "TOK.*X"])
        if rng.random() < 0.4:
            op["path"] = self.spell(model, self.path(model, None, 0.05))
        if self.profile["views"] and rng.random() < 0.6:
            op["v"] = self.view()
        return op

    # -- shell ---------------------------------------------------------------------------
    SHELL = {
        "pwd": 1,
        "cd": 2,
        "ls": 3,
        "cat": 6,
        "touch": 2,
        "mkdir": 3,
        "rm": 3,
        "cp": 4,
        "mv": 4,
        "tree": 2,
        "write": 4,
        "append": 3,
        "echo": 4,
        "wc": 2,
        "grep": 3,
        "rg": 2,
        "search": 2,
        "head": 1,
        "tail": 1,
        "find": 2,
        "stat": 1,
        "usage": 1,
        "python": 0,
        "python3": 1,
        "printf": 1,
        "star": 1,
        "hello": 1,
        "warn": 1,
        "where": 1,
        "join": 1,
        "quiet": 1,
        "fail7": 1,
        "mute": 1,
        "boom": 1,
        "nosuch": 1,
        "assign": 1,
        "sview": 0,
        "help": 0,
        "$V": 0,
    }
    LAST_ONLY = {"grep", "rg", "search", "find", "stat", "help"}

    def shell_op(self, world: World, number: int) -> dict | None:
        box = world.sandboxes[number]
        if not box.agents:
            return None
        agent = self.rng.choice(sorted(box.agents))
        lines = [self.line(box, agent) for _ in range(self.rng.choice([1, 1, 1, 2, 3]))]
        return {"k": "sh", "a": agent, "lines": lines}

    def line(self, box, agent: str) -> list:
        rng = self.rng
        stages = [self.stage(box, agent, True)]
        if stages[0].get("c") is None:
            return stages
        while rng.random() < 0.3 and stages[-1]["c"] not in self.LAST_ONLY and "sv" not in stages[-1]:
            stages.append(self.stage(box, agent, False))
            if stages[-1].get("c") is None:
                stages.pop()
        last = stages[-1]
        if last["c"] not in self.LAST_ONLY and "sv" not in last and rng.random() < 0.2:
            last["o"] = self.operand(box, "f", 0.4)
            last["ap"] = rng.random() < 0.4
        return stages

    def operand(self, box, kind=None, new=0.1) -> str:
        return self.spell(box.model, self.path(box.model, kind, new))

    def stage(self, box, agent: str, first: bool) -> dict:
        rng = self.rng
        weights = {**self.SHELL, **self.profile["shell_weights"]}
        names = [n for n, w in weights.items() if w > 0]
        name = rng.choices(names, [weights[n] for n in names])[0]
        op = lambda kind=None, new=0.1: self.operand(box, kind, new)  # noqa: E731
        stage: dict = {"c": name, "a": []}
        args = stage["a"]
        if name == "assign":
            if not first:
                return {"c": "pwd", "a": []}
            env = {rng.choice(["V", "W"]): rng.choice(["alpha", "/a", "f", "$V"])}
            if rng.random() < 0.3:
                env["X"] = rng.choice(["$V", "${W}z", "beta"])
            return {"c": None, "env": env}
        if name == "sview":
            if not box.model.search_prefix:
                return {"c": "pwd", "a": []}
            return self.search_stage(box, agent, first)
        if name == "usage":
            name, *rest = rng.choice(MISUSES)
            return {"c": name, "a": [op() if word == "%" else word for word in rest]}
        if box.model.search_prefix and name in ("ls", "cat", "find", "tree", "wc") and rng.random() < 0.1:
            return {"c": name, "a": [self.no_query(box.model)]}
        if name == "cd":
            args.append(op("d"))
        elif name == "ls":
            if rng.random() < 0.3:
                args.append(rng.choice(["-l", "--long"]))
            for _ in range(rng.choice([0, 1, 1, 2])):
                args.append(rng.choice([op("d"), op("f"), "*"]) if rng.random() < 0.9 else "/a/*")
        elif name == "cat":
            for _ in range(rng.choice([1, 1, 2])):
                args.append(op("f") if rng.random() < 0.9 else rng.choice(["*", "/a/*", "/*/f"]))
            if not first and rng.random() < 0.5:
                args[:] = rng.choice([[], ["-"], ["-", *args], [*args, "-"]])
        elif name == "touch":
            args += [op("f", 0.5) for _ in range(rng.choice([1, 1, 2]))]
        elif name == "mkdir":
            if rng.random() < 0.5:
                args.append(rng.choice(["-p", "-p", "--parents"]))
            args += [op("d", 0.8) for _ in range(rng.choice([1, 1, 2]))]
        elif name == "rm":
            if rng.random() < 0.6:
                args.append(rng.choice(["-r", "-r", "-rf", "-R", "--recursive"]))
            for _ in range(rng.choice([1, 1, 2])):
                args.append(op(None, 0.1))
        elif name == "cp":
            args += [op(None, 0.05), op(None, 0.6)]
            if rng.random() < 0.6:
                args.insert(rng.choice([0, 0, 1, 2]), rng.choice(["-r", "-r", "-R", "--recursive"]))
        elif name == "mv":
            args += [op(None, 0.05), op(None, 0.6)]
        elif name == "tree":
            if rng.random() < 0.8:
                args.append(op("d"))
        elif name in ("write", "append"):
            args += [op("f", 0.4), self.token(), rng.choice(WORDS[:3])][: rng.choice([2, 3, 3])]
            if name == "write" and rng.random() < 0.3:
                args.insert(rng.choice([1, len(args)]), "--append")
            elif name == "write" and rng.random() < 0.2:
                args.insert(1, "--text")
        elif name == "echo":
            if rng.random() < 0.3:
                args.append("-n")
            args += [self.token()] + [rng.choice(["alpha", "$V", "${V}", "é"]) for _ in range(rng.randint(0, 2))]
        elif name == "printf":
            form = rng.choice(["%s\\n", "%s-%s", "a\\tb\\n", "plain", "<%s>", "é%s"])
            args += [form] + [rng.choice([self.token(), "alpha", "$V"]) for _ in range(form.count("%s"))]
        elif name in ("join", "star"):
            args += [self.token(), rng.choice(["$V", "alpha", "a  b"])]
        elif name == "wc":
            if rng.random() < 0.5:
                args.append(rng.choice(["-l", "-c"]))
            if first or rng.random() < 0.3:
                args += [op("f", 0.05) for _ in range(rng.choice([1, 1, 2, 3]))]
                if not first and rng.random() < 0.3:
                    args.insert(rng.choice([0, len(args)]), "-")
        elif name in ("grep", "rg"):
            if name == "grep" and rng.random() < 0.6:
                args.append(rng.choice(["-r", "-r", "-R", "--recursive"]))
            if rng.random() < 0.3:
                args.append(rng.choice(["-i", "--ignore-case"]))
            if rng.random() < 0.4:
                args.append(rng.choice(["-n", "--line-number"]))
            if rng.random() < 0.2:
                args += [rng.choice(["-e", "--regex"]), rng.choice(PATTERNS)]
            else:
                args.append(rng.choice(["tok", "alpha", "gamma", "a", "ALPHA"]))
            if first or rng.random() < 0.5:
                args += [op(None, 0.05) for _ in range(rng.choice([1, 1, 2]))]
                if not first and rng.random() < 0.3:
                    args.append("-")
        elif name == "search":
            if rng.random() < 0.3:
                args.append(rng.choice(["-i", "--ignore-case"]))
            if rng.random() < 0.2:
                args.append(rng.choice(["-n", "--line-number", "--no-line-number"]))
            if rng.random() < 0.25:
                args += [rng.choice(["-e", "--regex"]), rng.choice(PATTERNS)]
            else:
                args.append(rng.choice(["tok", "alpha", "gamma", "ALPHA"]))
            if rng.random() < 0.6:
                args += [op(None, 0.05) for _ in range(rng.choice([1, 1, 2]))]
        elif name in ("head", "tail"):
            if rng.random() < 0.7:
                args += [rng.choice(["-n", "-n", "-c"]), str(rng.randint(0, 3))]
            if first or rng.random() < 0.4:
                args += [op("f", 0.05) for _ in range(rng.choice([1, 1, 2, 3]))]
                if not first and rng.random() < 0.2:
                    args.append("-")
        elif name in ("python", "python3"):
            code = self.snippet(box, agent)
            args += rng.choice([["-c", code], [code]])
        elif name == "find":
            args += [op(None, 0.05) for _ in range(rng.choice([0, 1, 1, 2]))]
            if rng.random() < 0.4:
                args += ["-type", rng.choice("fd")]
            if rng.random() < 0.3:
                args += ["-name", rng.choice(["f", "g", "a", "log.md"])]
        elif name == "stat":
            args.append(op())
        elif name == "$V":
            args.append("-n")
        if first and rng.random() < 0.08:
            stage["i"] = op("f")
        if rng.random() < 0.08:
            stage["env"] = {"V": rng.choice(["beta", "g"])}
        return stage

    def search_stage(self, box, agent: str, first: bool) -> dict:
        """A command on a path of the search view."""
        rng = self.rng
        q = rng.choice(["tok", "alpha", "tok1", "beta", "ALPHA", "tok", rng.choice(SYMBOLS)])
        quoted = urllib.parse.quote_plus(q) if q in SYMBOLS or rng.random() < 0.2 else q
        path = box.model.search_prefix + "?q=" + quoted
        if rng.random() < 0.1 and box.model.cwd == "/":
            path = path[1:]
        if rng.random() < 0.3:
            path += "&ignore_case=" + rng.choice(["1", "1", "true", "yes", "on", "0", "no"])
        if q not in SYMBOLS and rng.random() < 0.2:
            path = path.replace("q=" + quoted, "q=" + rng.choice(["tok.%2Bx", "^al", "b.ta", quoted])) + "&regex="
            path += rng.choice(["1", "true", "0"])
        agent_view = box.agents[agent].view or {}
        command = rng.choice(["cat", "find", "ls", "cat", "wc", "head", "tail", "tree", "grep", "rg", "stat", "<"])
        if rng.random() < 0.12:
            command = rng.choice(["touch", "mkdir", "rm", "cp", "mv", "write", "append", ">"])
        if agent_view.get("m") and command in ("find", "ls", "tree", "grep", "rg", "stat"):
            command = "cat"
        whole = command in ("find", "ls", "tree", "grep", "rg", "stat") and rng.random() < 0.7
        if not whole:
            files = self.nodes(box.model, "f")
            seen = [n for n in files if n.policy["r"] and q in n.content and view_allows(agent_view, n)]
            files = seen if seen and rng.random() < 0.7 else files
            path += rng.choice(files).path if files else "/f"
            if command in ("find", "ls", "tree", "grep", "rg", "stat") and rng.random() < 0.5:
                path = path.rsplit("/", 1)[0]
        elif rng.random() < 0.3:
            path += "&path=" + rng.choice(["/a", "/b", "/m", "a", "b"])
        stage: dict = {"c": command, "a": [path], "sv": True}
        args = stage["a"]
        other = self.operand(box, "f", 0.3)
        if command == "<":
            stage.update(c=rng.choice(["cat", "wc"]), a=[], i=path)
        elif command == ">":
            stage.update(c="echo", a=[self.token()], o=path)
        elif command in ("grep", "rg"):
            args.insert(0, rng.choice(["tok", "alpha", "a"]))
            if command == "grep" and rng.random() < 0.7:
                args.insert(0, "-r")
        elif command in ("cp", "mv"):
            args.insert(rng.choice([0, 1]), other)
        elif command in ("write", "append"):
            args.append(self.token())
        elif command in ("head", "tail"):
            args[:0] = ["-n", str(rng.randint(0, 2))]
        if command in ("cat", "wc", "touch", "head", "ls", "find") and rng.random() < 0.2:
            args.insert(rng.choice([0, len(args)]) if command != "head" else len(args), other)
        return stage

    def snippet(self, box, agent: str) -> str:
        """A Python snippet whose behaviour ``shellmodel`` knows."""
        rng = self.rng
        token = self.token()
        plain = rng.choice(sorted(n.path for n in self.nodes(box.model, "f")) or ["/f"])
        target = self.path(box.model, "f", 0.4)
        if "'" in plain + target:
            plain = target = "/f"
        choices = [
            f"print('{token}')",
            f"print('{token}'); raise ValueError('bad')",
            f"zz = '{token}'",
            "print(zz)",
            "print(len((5, 7)))",
            "__builtins__.update(len=max); print(len((5, 7)))",
            "vfs = 7; fs = 8; print(vfs + fs)",
            "import os",
            "open('/etc/hostname')",
            "print(vfs.pwd())",
            "print(vfs is fs)",
            "print(len((5, 7)))",
            "print(double(4))",
            "print(base)",
            "print(given)",
            f"vfs.write_file('{target}', '{token}')",
            f"vfs.append_file('{target}', '{token}')",
            f"print('{token}'); vfs.remove('{target}')",
            "x = (",
        ]
        if not box.agents[agent].view:
            choices += [f"print(fs.read_file('{plain}'))"] * 3
        if box.model.search_prefix and under(target, box.model.search_prefix):
            return choices[0]
        if self.profile["nest_rate"] and (under(target, "/side") or under(plain, "/side")):
            return choices[0]
        return rng.choice(choices)

    # -- host processes --------------------------------------------------------------------
    def host_op(self, world: World, number: int) -> dict | None:
        box = world.sandboxes[number]
        if not box.agents:
            return None
        rng = self.rng
        model = box.model
        agent = rng.choice(sorted(box.agents))
        acts = []
        mounts = [m.prefix for m in model.mounts]
        for _ in range(rng.randint(0, 4)):
            kind = rng.choice(["w", "w", "w", "rm", "mkdir", "rmtree", "mv", "same", "die", "ln", "ap"])
            if kind == "same":
                files = [n for n in self.nodes(model, "f", side=False) if n.prov is None]
                if files:
                    node = rng.choice(files)
                    acts.append({"a": "w", "p": node.path, "t": node.content})
                continue
            if kind == "die":
                if rng.random() < 0.2:
                    acts.append({"a": "die", "p": "/"})
                continue
            if kind == "w":
                step = {"a": "w", "p": self.path(model, "f", 0.5), "t": self.text()}
                if rng.random() < 0.1:
                    step = {"a": "w", "p": step["p"], "x": rng.choice(["ff6162c3", "", "efbbbf61", "610062"])}
            elif kind == "ap":
                step = {"a": "ap", "p": self.path(model, "f", 0.2), "t": self.text()}
            elif kind == "ln":  # a link to nowhere, or to itself
                step = {"a": "ln", "p": self.path(model, "f", 0.5), "to": rng.choice(["nowhere", "/none/x", ""])}
            elif kind == "rm":
                step = {"a": "rm", "p": self.path(model, "f", 0.1)}
            elif kind == "mkdir":
                step = {"a": "mkdir", "p": self.path(model, "d", 0.9)}
            elif kind == "rmtree":
                step = {"a": "rmtree", "p": self.path(model, "d", 0.05)}
            else:
                step = {"a": "mv", "p": self.path(model, None, 0.05), "q": self.fresh_path(model)}
            places = [step["p"], step.get("q", "/zzz")]
            if any(q == "/" or under(q, "/side") or under("/side", q) for q in places):
                continue
            if model.search_prefix and any(
                under(q, model.search_prefix) or under(model.search_prefix, q) for q in places
            ):
                continue
            if step["a"] not in ("w", "ap", "ln") and any(under(prefix, q) for q in places for prefix in mounts):
                continue
            if any(under(model.cwd, q) for q in places):
                continue
            acts.append(step)
        name = rng.choice(["host", "host", "bash", "sh"])
        args = {"host": ["work"], "bash": ["-c", "work"], "sh": ["-c", "work"]}[name]
        if name == "host" and rng.random() < 0.3:
            flag = rng.choice(["-p", "-p", "-C", "--path"])
            where = self.spell(model, self.existing(model, "d"))
            args = [flag, where, *rng.choice([[], ["--"]]), "work"]
        elif box.agents[agent].fallback and rng.random() < 0.4:
            name, args = rng.choice([("nosuch", ["now"]), ("ls", ["-a"]), ("", ["now"])])
            if not name:  # one that only looks like a command the shell may know
                name = rng.choice(box.agents[agent].allow or ["cat", "ls", "hello"])
                name = rng.choice([name.upper(), name.capitalize(), name + "2", name[:-1] + "X"])
        args = args + [self.argument(model) for _ in range(rng.choice([0, 0, 1, 2]))]
        proc: dict = {"acts": acts, "out": self.token() + "\n", "code": 0}
        roll = rng.random()
        if roll < 0.1:
            proc["errno"] = rng.choice([2, 13, 12, 8])
        elif roll < 0.25:
            proc["code"] = rng.choice([1, 2, -9])
            proc["err"] = "failed"
        elif roll < 0.35:
            proc["err"] = "careful"
        lines = [[{"c": name, "a": args}]]
        if rng.random() < 0.2:
            lines[0][0]["o"] = self.path(model, "f", 0.5)
        if rng.random() < 0.25:
            lines[0].insert(0, {"c": "echo", "a": [self.token(), "é"]})
        if rng.random() < 0.2:
            lines[0][-1]["env"] = {rng.choice("VY"): rng.choice(["beta", "a b", "é"])}
        return {"k": "sh", "a": agent, "lines": lines, "proc": proc}


    def argument(self, model: Model) -> str:
        """An argument of a host process: a path of the sandbox, or anything else."""
        rng = self.rng
        plain = [n.path for n in self.nodes(model, side=False) if re.fullmatch(r"[\w./-]+", n.path, re.A)]
        path = rng.choice(plain)
        return rng.choice(
            [
                self.spell(model, rng.choice(self.nodes(model, side=False)).path),
                path,
                "--in=" + path if path != "/" else "-x",
                path.rstrip("/") + "/new.bin" if path.count("/") > 1 else "-v",
                "http:/" + path if path != "/" else "ftp://x/y",
                "/etc/passwd",
                "plain words",
                "zz" + path,
                f"cat zz{path} {path} ../zz" if path != "/" else "x",
                "$V",
                "é=1",
            ]
        )


def box_overlap(model: Model, path: str) -> bool:
    node = model.find_quiet(path)
    return node is not None and node.kind != "f"


# ---------------------------------------------------------------------------
def sane(world: World, op: dict) -> bool:
    """Is the outcome of this operation defined by the specification?"""
    if op.get("sb", 0) >= len(world.sandboxes):
        return False
    box = world.sandboxes[op.get("sb", 0)]
    model = box.model
    kind = op["k"]
    if kind == "sh":
        return sane_shell(world, box, op)
    paths = [norm(op[key], model.cwd) for key in ("p", "q") if op.get(key) is not None]
    if not sane_paths(box, kind, paths, bool(op.get("rec"))):
        return False
    if kind == "mount" and not sane_mount(model, op, paths[0]):
        return False
    if kind in ("mountf", "mountd"):
        target = paths[0]
        if any(under(target, m.prefix) or under(m.prefix, target) for m in model.mounts):
            return False
        if target == "/" or under("/side", target):
            return False
        if under(target, "/side") and not target.startswith(("/side/pv", "/side/lz")):
            return False
        if kind == "mountd" and any(n.loader and not n.loaded for n in ancestors(model, target)):
            return True
    nest = op.get("nest")
    if nest:
        if kind in ("snap", "restore", "export", "mat", "sync", "ext"):
            return False
        watching = kind in ("walk", "iterf", "tree", "search") and paths and paths[0] in ("/side", "/")
        if any(under(p, "/side") for p in paths) and not watching:
            return False
        if kind in ("rm", "mv") and under(model.cwd, paths[0]):
            return False
        if kind in MUTATING and any(under("/side", p) and p != "/" for p in paths):
            return False
    plan = op.get("plan") or {}
    if "s" in plan or "d" in plan:
        if kind in ("mv", "cp") and not model.in_sync():
            return False
        if kind in ("restore", "snap", "index", "search", "policy", "meta"):
            return "d" not in plan and "s" not in plan
    if "crash" in str(plan):
        if kind not in ("write", "touch", "rm", "mv", "cp", "sync"):
            return False
        if kind == "cp" and op.get("rec"):
            node = model.find_quiet(paths[1])
            if node is not None and node.kind == "f":
                return False
        if any(n.prov for n in model.root.files()):
            return False
    if kind == "restore" and not box.snapshots:
        return False
    return True


def sane_mount(model: Model, op: dict, target: str) -> bool:
    if target == "/" or under("/side", target) or under(target, "/side") or under(model.cwd, target):
        return False
    if model.search_prefix and (under(target, model.search_prefix) or under(model.search_prefix, target)):
        return False
    if clashing(op["spec"]["init"]):
        return False
    if any(m.ident == op["spec"]["id"] for m in model.mounts):
        return False
    if any(n.loader for n in ancestors(model, target)):
        return False
    # Contents in the way of mounts below, or a file of an outer backend in the way of this one.
    for mount in model.mounts:
        if mount.prefix == target:
            continue  # takes its place
        if under(mount.prefix, target):
            inner = mount.prefix[len(target) + 1 :].split("/")
            if any("/".join(inner[: n + 1]) in op["spec"]["init"] for n in range(len(inner))):
                return False
        elif under(target, mount.prefix):
            outer = target[len(mount.prefix) + 1 :].split("/")
            if any("/".join(outer[: n + 1]) in mount.entries for n in range(len(outer))):
                return False
    return True


def ancestors(model: Model, path: str):
    node = model.root
    for part in path.split("/")[1:]:
        yield node
        node = node.children.get(part)
        if node is None:
            return


def sane_paths(box, kind: str, paths: list[str], recursive: bool) -> bool:
    model = box.model
    search = model.search_prefix
    for index, path in enumerate(paths):
        if search and kind not in ("ls", "exists", "walk", "glob", "tree", "search", "read"):
            if under(path, search) and path != "/":
                return False
        if kind in ("rm", "mv") and index == 0:
            if path == "/side" or (search and under(search, path)):
                return False
            if any(under(m.prefix, path) for m in model.mounts) and path != "/":
                return False
            if kind == "mv" and under(model.cwd, path) and model.cwd_loose and path != "/":
                return False
    if kind == "cp" and paths and search and under(search, paths[0]) and paths[0] != "/":
        return False
    return True


KIND_OF = {"rm": "rm", "mv": "mv", "cp": "cp", "cat": "read", "write": "write", "append": "write"}


def sane_shell(world: World, box, op: dict) -> bool:
    model = box.model
    if op["a"] not in box.agents:
        return False
    if "raw" in op:
        return True
    relative = False
    moved = 0
    for stages in op["lines"]:
        for stage in stages:
            name = stage.get("c")
            if name in ("cd",):
                relative = True
            if name in ("stat", "help") and box.agents[op["a"]].limit is not None:
                return False
            limited = name == "search" and box.agents[op["a"]].limit is not None
            if (stage.get("sv") or limited) and any(
                n.loader or n.supplied or n.prov for n in model.root.walk() if n.path != model.search_prefix
            ):
                return False
            if name in ("python", "python3") and "vfs.remove" in str(stage["a"]):
                target = re.findall(r"vfs\.remove\('([^']*)'", " ".join(stage["a"]))[0]
                node = model.find_quiet(target)
                if moved or relative or node is None or node.kind != "f":
                    return False
                moved += 1
            if name in ("rm", "mv", "cp"):
                operands = [norm(a, model.cwd) for a in stage["a"] if not a.startswith("-")]
                if any("*" in a for a in stage["a"]):
                    return False
                if relative and any(not a.startswith(("/", "-")) for a in stage["a"]):
                    return False
                for operand in operands if name == "rm" else operands[:1]:
                    if not sane_paths(box, name, [operand], True):
                        return False
                    if relative:
                        return False
                    if under(model.cwd, operand) and (stages is not op["lines"][-1] or op.get("nest")):
                        return False
                if name != "rm" and len(operands) == 2 and model.search_prefix:
                    if any(under(o, model.search_prefix) for o in operands):
                        return False
                if name == "cp" and operands and model.search_prefix and under(model.search_prefix, operands[0]):
                    return False
                moved += 1
            if model.search_prefix and not stage.get("sv") and name not in ("ls", "cat", "find", "tree", "wc"):
                for arg in [*stage.get("a", []), stage.get("o") or "/", stage.get("i") or "/"]:
                    if "@search" in arg:
                        return False
    if moved > 1:
        return False
    nest = op.get("nest")
    if nest:
        text = str(op["lines"])
        if "side" in text or "*" in text or under(model.cwd, "/side"):
            return False
        if any(stage.get("c") in ("tree", "find", "rg", "grep", "search", "cp", "rm", "mv", "ls") for line in op["lines"] for stage in line):
            # Whole-tree commands over a directory that changes meanwhile are not specified.
            if model.cwd == "/" or any(
                under("/side", norm(a, model.cwd)) or a in ("..", ".") or a.endswith("..") or a.endswith("/.")
                for line in op["lines"]
                for stage in line
                for a in stage.get("a", [])
            ):
                return False
    plan = op.get("plan") or {}
    if "crash" in str(plan):
        return False
    if "s" in plan and moved and not model.in_sync():
        return False
    if ("p" in plan or "l" in plan) and model.index:
        return False
    if "d" in plan and op.get("proc"):
        if any(m.kind == "fs" for m in model.mounts) or op["proc"].get("code"):
            return False
        if len(op["lines"]) > 1 or len(op["lines"][0]) > 1 or op["lines"][0][0].get("o"):
            return False
    if "h" in plan and op.get("proc"):
        return True
    return True
