"""Arbitrary command lines: no model of what they mean, only what always holds.

One shell receives seeded text: command lines built from real words, operators,
broken quoting and odd characters, while providers, hooks, storage and host
processes fail underneath.  Whatever the text means, ``exec`` returns a result,
the session survives, the allowlist and the output limit hold, the host stays
untouched, and nothing the view hides is printed.
"""

from __future__ import annotations

import copy
import hashlib
import json
import os
import random
import re
import sys

from . import env
from .engine import Outcome, guarded
from .env import CLOCK, DISK, PROCESSES, outside, sandboxed
from .gen import Generator
from .model import Model, make_policy, view_allows
from .ops import TOKEN, clip
from .universe import InjectedError, Mismatch, get_api, to_policy, to_view

HATCHES = ("python", "python3", "host", "bash", "sh")
READERS = "cat ls head tail wc grep rg find tree stat pwd search echo printf help".split()
WRITERS = "touch mkdir rm cp mv write append cd".split()
REMOVING = {"rm", "mv", *HATCHES}

PIECES = (
    "|", "|", ">", ">>", "<", "||", "&&", ";", "'", '"', "\\", "#", "A=1", "=x", "A='", "$V", "${V}",
    "${", "$", "${}", "$P", "-n", "-l", "-r", "-rf", "-e", "-i", "--", "-", "-p", "-c", "-type", "-name",
    "--append", "--text", "--long", "0", "-1", "3", "x", "9" * 30, "%s", "%d %s", "(", "[", "[a", "**",
    "*", "?", "a*b", "é", "日本", "\0", "\ud800", "\u2028", "\t", "\r", "\x1b", "..", "/", ".", "~", "",
    "/@search", "/@search?q=tok", "/@search?q=(&regex=1", "/@search?", "/@search?q=tok/../..",
    "/@search?q=tok&path=/a", "//a", "/a/", "/a/../..", "probe", "probe", "secret_probe", "nosuch",
)
SNIPPETS = (
    "print(1)", "1/0", "raise Exception", "print('x' * 300)", "vfs.cd('/a')", "print(vfs.read_file('/p'))",
    "vfs.write_file('/made', '1')", "import os", "print(", "print('\\ud800')", "vfs.remove('/')",
)


def generate(rng: random.Random, profile: dict) -> dict:
    gen = Generator(rng, {"policy_style": "read"})
    files = []
    for _ in range(rng.randint(4, 9)):
        base = rng.choice(["", "/a", "/b", "/a/b", "/ab", "/m"])
        name = rng.choice(["f", "g", "two words", gen.token()])
        item = {"p": f"{base}/{name}", "t": gen.text()}
        if rng.random() < 0.5:
            item["pol"] = gen.policy()
        if rng.random() < 0.2:
            item["m"] = {"team": rng.choice(["red", "blue"])}
        files.append(item)
    config: dict = {
        "files": files,
        "clock": 1_000_000.0,
        "search": rng.random() < 0.5,
        "index": rng.random() < 0.3,
        "store": rng.random() < 0.5,
        "hook": rng.random() < 0.3,
    }
    every = [*READERS, *WRITERS, *HATCHES, "probe"]
    roll = rng.random()
    if rng.random() < profile["views"]:
        config["view"] = gen.view()
        config["allow"] = [*READERS, *WRITERS, "probe"]
        if roll < 0.2:
            config["allow"] = rng.sample(config["allow"], 8)
    elif rng.random() < profile["allow"]:
        config["allow"] = [] if roll < 0.3 else rng.sample(every, rng.randint(1, 8))
    if rng.random() < profile["limit"]:
        config["limit"] = rng.choice([0, 1, 10, 40, 40, 100, 100, 200, 200])
    if rng.random() < 0.3 and "view" not in config:
        config["fallback"] = True
    paths = [item["p"] for item in files]
    allowed = config.get("allow")
    mostly = every if not allowed else [name for name in allowed for _ in range(60 // len(allowed) + 1)] + every
    ops = []
    for _ in range(rng.randint(*profile["ops"])):
        op: dict = {"c": line(rng, gen, paths, mostly)}
        if rng.random() < 0.35:
            op["plan"] = rng.choice(
                [{"prov": 1}, {"loader": 1}, {"hook": 1}, {"store": "error"}, {"store": "oserror"}, {"store": "value"},
                 {"errno": 2}, {"errno": 12}, {"code": 3}, {"code": -9, "err": "boo"}, {"out": "y" * 500}]
            )
        ops.append(op)
    return {"config": config, "ops": ops}


def line(rng: random.Random, gen: Generator, paths: list[str], every: list[str]) -> str:
    places = [*paths, "/p", "/lazy", "/lazy/x", "/a", "/b", "/m", "/m/x", "/m/x", "/new", "f", "/a/new", "../a"]

    tidy = rng.choice([0.5, 0.7, 0.8])

    def words() -> list[str]:
        out = [rng.choice(every)] if rng.random() < 0.94 else [rng.choice(PIECES)]
        if rng.random() < 0.1:
            out.insert(0, rng.choice(["A=1", "V=$V", "P=secret_probe", "P=rm", "X='"]))
        if out[-1] in ("python", "python3"):
            out += rng.choice([["-c"], []]) + ['"' + rng.choice(SNIPPETS) + '"']
        if out[-1] in ("bash", "sh"):
            out += ["-c", "'work " + rng.choice(places) + "'"]
        for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
            roll = rng.random()
            if roll < tidy:
                place = rng.choice(places)
                out.append(f"'{place}'" if " " in place and rng.random() < 0.8 else place)
            elif roll < tidy + 0.2:
                out.append(rng.choice(PIECES))
            else:
                out.append(rng.choice(["tok", gen.token(), "alpha", "secret_probe", "p'rob'e", "secret\\_probe"]))
        return out

    parts = [*words()]
    while rng.random() < 0.25:
        parts += [rng.choice(["|", "|", "\n", "\n", ">", ">>", "<", "\u2028", "\x0b"]), *words()]
    text = (" " if rng.random() < 0.96 else "").join(parts)
    for _ in range(rng.choice([0, 0, 0, 0, 0, 1, 2])):
        spot = rng.randint(0, len(text))
        edit = rng.random()
        if edit < 0.4 and text:
            text = text[:spot] + text[spot + 1 :]
        elif edit < 0.8:
            text = text[:spot] + rng.choice(PIECES) + text[spot:]
        else:
            text = text[:spot] + text[max(0, spot - 4) : spot] + text[spot:]
    return text


class RawWorld:
    def __init__(self, config: dict) -> None:
        self.config = config
        self.stats: dict[str, int] = {}
        self.states: set = set()
        self.trace: list = []
        self.plan: dict = {}
        self.called: list[str] = []
        self.processes = 0
        CLOCK.now = config["clock"]
        env.fresh_scratch()
        os.makedirs(os.path.join(DISK.root, "fs"), exist_ok=True)
        self.out, self.err = sys.stdout, sys.stderr
        PROCESSES.handler = self.process
        PROCESSES.started = []
        self.build()

    def count(self, name: str) -> None:
        self.stats[name] = self.stats.get(name, 0) + 1

    def fail(self, kind: str) -> bool:
        if kind in self.plan:
            self.count("fault:" + kind)
            return True
        return False

    def process(self, popen, phase, stdin):
        if phase == "start":
            self.processes += 1
            if self.fail("errno"):
                raise OSError(self.plan["errno"], os.strerror(self.plan["errno"]))
            return None
        cwd = os.path.realpath(str(popen.kwargs.get("cwd") or "/"))
        if not DISK.inside(cwd):
            raise Mismatch("escape", f"process started in {cwd}")
        self.fail("code")
        out = self.plan.get("out", "ran\n")
        return self.plan.get("code", 0), out.encode(), self.plan.get("err", "").encode()

    def build(self) -> None:
        ns = get_api()
        config = self.config
        world = self

        class Flaky(ns.Memory):
            def write(self, path, content, *, version):
                with outside():
                    kind = world.plan.get("store")
                    if kind and world.fail("store"):
                        raise {"error": InjectedError, "oserror": OSError, "value": ValueError}[kind]("storage down")
                return super().write(path, content, version=version)

        def provide(ctx):
            with outside():
                if world.fail("prov"):
                    raise InjectedError("provider down")
            return "provided tok0x\n"

        def lazy(ctx):
            with outside():
                if world.fail("loader"):
                    raise InjectedError("loader down")
            return {"x": ns.ProvidedNode.file(content="lazy text\n")}

        def hook(event):
            with outside():
                if world.fail("hook"):
                    raise InjectedError("hook down")

        model = Model(CLOCK.now)
        with sandboxed():
            vfs = self.vfs = ns.VFS()
            for path in ("/a", "/b", "/m"):
                vfs.mkdir(path)
            if config["store"]:
                vfs.mount_storage("/m", Flaky())
            for item in config["files"]:
                vfs.write_file(item["p"], item["t"])
                model.write(item["p"], item["t"])
                node = model.resolve(item["p"])
                if item.get("pol"):
                    vfs.set_policy(item["p"], to_policy(item["pol"]))
                    node.policy = make_policy(**item["pol"])
                if item.get("m"):
                    vfs.get_node(item["p"]).metadata.update(item["m"])
                    node.meta = dict(item["m"])
            vfs.mount_file("/p", provide)
            vfs.mount_directory("/lazy", lazy)
            if config["hook"]:
                vfs.register_write_hook("/", hook)
            if config["index"]:
                vfs.enable_full_text_index()
            if config["search"]:
                vfs.enable_search_view()
            kwargs: dict = {}
            if config.get("allow") is not None:
                kwargs["allowed_commands"] = list(config["allow"])
            if config.get("limit") is not None:
                kwargs["max_output_bytes"] = config["limit"]
            self.shell = ns.Shell(
                vfs,
                env={"V": "/a/f", "KEEP": "kept"},
                view=to_view(config["view"]) if config.get("view") else None,
                host_fallback=bool(config.get("fallback")),
                **kwargs,
            )
            self.shell.register_command("probe", lambda args, ctx: world.probe("probe", args))
            self.shell.register_command("secret_probe", lambda args, ctx: world.probe("secret_probe", args))
        view = config.get("view") or {}
        self.hidden = set()
        names: dict[str, bool] = {}
        for node in model.root.files():
            seen = view_allows(view, node)
            names[node.name] = names.get(node.name, False) or seen
            if not seen or not node.policy["r"]:
                self.hidden |= set(TOKEN.findall(node.content))
        self.hidden |= {token for name, seen in names.items() if not seen for token in TOKEN.findall(name)}
        self.typed: set = set()

    def probe(self, name: str, args) -> str:
        with outside():
            self.called.append(name)
            return " ".join(args)

    def survey(self) -> dict:
        """Paths with versions, without entering what is lazily loaded."""
        found = {}
        stack = [self.vfs.get_node("/")]
        ns = get_api()
        while stack:
            node = stack.pop()
            path = str(node.path())
            if isinstance(node, ns.VirtualDirectory):
                found[path] = None
                if path not in ("/lazy", "/@search"):
                    stack.extend(node.iter_children(self.vfs))
            else:
                found[path] = node.version
        return found

    def step(self, op: dict) -> None:
        config = self.config
        text = op["c"]
        allow = config.get("allow")
        with sandboxed():
            before = self.survey()
            cwd = self.vfs.pwd()
        self.plan = dict(op.get("plan") or {})
        self.called = []
        started = len(PROCESSES.started)
        DISK.begin()
        self.count("ops")
        what = clip(repr(text), 200)
        try:
            with sandboxed():
                result = self.shell.exec(text)
        except Exception as exc:
            raise Mismatch("raise", f"{what} raised {exc!r}") from None
        finally:
            self.plan = {}
        if not isinstance(result, get_api().CommandResult):
            raise Mismatch("raise", f"{what} returned {type(result).__name__}")
        code, stdout, stderr = result.exit_code, result.stdout, result.stderr
        if not isinstance(code, int) or not isinstance(stdout, str) or not isinstance(stderr, str):
            raise Mismatch("raise", f"{what} returned a malformed result")
        ran = PROCESSES.started[started:]
        if code != 0 and not stderr and not stdout and not ran:
            raise Mismatch("silent", f"{what} failed without a message")
        if sys.stdout is not self.out or sys.stderr is not self.err:
            sys.stdout, sys.stderr = self.out, self.err
            raise Mismatch("stdout", f"{what} left standard output redirected")
        limit = config.get("limit")
        if limit is not None:
            total = len((stdout + stderr).encode("utf-8", "replace"))
            notice = stdout == "" and code != 0 and len(stderr) <= 120 and str(limit) in stderr
            if total > limit and not notice:
                raise Mismatch("limit", f"{what} returned {total} bytes, limit {limit}")
        self.fences(what, allow, before, cwd, ran)
        if DISK.escapes:
            raise Mismatch("escape", f"{what} reached {DISK.escapes[0]}")
        left = env._real_listdir(os.path.join(DISK.root, "tmp"))
        if left:
            raise Mismatch("tmp", f"{what} left a temporary copy behind")
        for shape in (text, re.sub(r"\$\{?\w*\}?", "", text)):
            letters = re.sub(r"[\W_]", "", shape)  # quotes, blanks and escapes may hide what was typed
            self.typed |= {token for token in self.hidden if token in letters}
        if "view" in config or not set(HATCHES) & set(allow if allow is not None else HATCHES):
            for token in TOKEN.findall(stdout + "\n" + stderr):
                if token in self.hidden - self.typed:
                    raise Mismatch("leak", f"{what} printed {token}, which is hidden or unreadable")
        self.session(what, text)
        self.trace.append([code, len(stdout), bool(stderr), len(ran), len(self.called)])
        self.states.add(hashlib.sha256(json.dumps([sorted(map(str, before.items())), code]).encode()).hexdigest()[:12])
        self.count("failed" if code else "succeeded")

    def fences(self, what, allow, before, cwd, ran) -> None:
        if allow is None:
            return
        for name in self.called:
            if name not in allow:
                raise Mismatch("fence", f"{what} ran {name}, which is not allowed")
        if ran and not set(allow) & {"host", "bash", "sh", "ls"} and not (
            self.config.get("fallback") and set(allow) & {argv[0] for argv in ran}
        ):
            raise Mismatch("fence", f"{what} started a process, allowed are {allow}")
        with sandboxed():
            after = self.survey()
            here = self.vfs.pwd()
        if not set(allow) & {"cd", *HATCHES} and here != cwd:
            raise Mismatch("fence", f"{what} changed the working directory, allowed are {allow}")
        if not allow and after != before:
            raise Mismatch("fence", f"{what} changed the tree with an empty allowlist")
        if not set(allow) & REMOVING and not set(before) <= set(after):
            lost = sorted(set(before) - set(after))
            raise Mismatch("fence", f"{what} removed {lost[0]}, allowed are {allow}")

    def session(self, what: str, text: str) -> None:
        allow = self.config.get("allow")
        limit = self.config.get("limit")
        if allow is not None and "probe" not in allow:
            return
        if limit is not None and limit < 40:
            return
        with sandboxed():
            result = self.shell.exec("probe ping" if "KEEP" in text else "probe ping $KEEP")
        want = "ping" if "KEEP" in text else "ping kept"
        if result.exit_code != 0 or result.stdout != want:
            raise Mismatch("session", f"after {what} the shell answers {result!r}")


class RawFamily:
    """Cases of raw command lines."""

    def __init__(self, name: str, profile: dict, aspects) -> None:
        self.name = name
        self.profile = {"ops": (8, 30), "views": 0.3, "allow": 0.5, "limit": 0.3, **profile}
        self.aspects = set(aspects)

    def run(self, seed: int) -> Outcome:
        case = {"family": self.name, "seed": seed, **generate(random.Random(seed), self.profile)}
        return self.replay(json.loads(json.dumps(case)))

    def replay(self, case: dict) -> Outcome:
        outcome = Outcome(case)
        holder: list[RawWorld] = []

        def go() -> None:
            world = RawWorld(case["config"])
            holder.append(world)
            for op in case["ops"]:
                world.step(op)

        CLOCK.total = 0.0
        guarded(go, outcome)
        PROCESSES.handler = None
        if holder:
            world = holder[0]
            outcome.stats = world.stats
            outcome.states = world.states
            outcome.nontrivial = world.stats.get("ops", 0) >= 5
            outcome.digest = hashlib.sha256(json.dumps([case["config"], world.trace]).encode()).hexdigest()[:16]
        else:
            outcome.digest = "none"
        if outcome.mismatch is not None and outcome.mismatch.aspect not in self.aspects:
            outcome.stats["foreign:" + outcome.mismatch.aspect] = 1
        return outcome

    def shrink_args(self, case: dict):
        for index, op in enumerate(case["ops"]):
            if op.get("plan"):
                variant = copy.deepcopy(case)
                del variant["ops"][index]["plan"]
                yield variant
            pieces = op["c"].split(" ")
            for drop in range(len(pieces) if len(pieces) > 1 else 0):
                variant = copy.deepcopy(case)
                variant["ops"][index]["c"] = " ".join(pieces[:drop] + pieces[drop + 1 :])
                yield variant
        for key in ("index", "search", "store", "hook"):
            if case["config"][key]:
                variant = copy.deepcopy(case)
                variant["config"][key] = False
                yield variant
        for drop in range(len(case["config"]["files"])):
            variant = copy.deepcopy(case)
            del variant["config"]["files"][drop]
            yield variant
