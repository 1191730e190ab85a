"""Workloads on host-directory storage: crashes and disk faults (C05), links (C06)."""

from __future__ import annotations

import copy
import hashlib
import json
import os
import random
import shutil

from . import env
from .engine import Outcome, guarded
from .env import CLOCK, DISK, PROCESSES, HarnessError, SimCrash, sandboxed
from .universe import EndRun, Mismatch, get_api

TEXTS = [
    "",
    "a",
    "plain\n",
    "crlf\r\nline\r\n",
    "old mac\rline\r",
    "mixed\n\r\n\r\r\n",
    "\r",
    "\n\n",
    "tab\tand nul \0 byte",
    "\ufeffbyte order mark",
    "form\x0cfeed \x0b \x1c \x85 \u2028 \u2029 end",
    "naïve 日本語 \U0001f600 e\u0301",
    "\uffff\ufffd",
    "trailing spaces   \n ",
]
LONG = [8192, 65536, 70001, 200003]


def make_text(spec) -> str:
    """Texts are stored by recipe so that replay files stay small."""
    if isinstance(spec, str):
        return spec
    size, seed = spec
    unit = f"{seed} é\r\n"
    return (unit * (size // len(unit) + 1))[:size]


class Ground:
    """A host directory, the adapter on it and maybe a sandbox on that."""

    def __init__(self, config: dict) -> None:
        self.config = config
        self.stats: dict[str, int] = {}
        self.trace: list = []
        self.states: set = set()
        CLOCK.now = config.get("clock", 1_000_000.0)
        env.fresh_scratch()
        DISK.begin()
        PROCESSES.handler = None
        self.root = os.path.join(DISK.root, "fs", "root")
        if config.get("bare"):  # the adapter finds no directory yet
            self.root = os.path.join(DISK.root, "fs", "deep", "er", "root")
        else:
            os.makedirs(self.root)

    def count(self, name: str) -> None:
        self.stats[name] = self.stats.get(name, 0) + 1

    def host_write(self, key: str, text: str) -> None:
        full = os.path.join(self.root, key)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with env._real_open(full, "wb") as handle:
            handle.write(text.encode("utf-8"))
        env._real_utime(full, ns=(CLOCK.time_ns(), CLOCK.time_ns()))

    def on_disk(self, key: str) -> str | None:
        try:
            with env._real_open(os.path.join(self.root, key), "rb") as handle:
                return handle.read().decode("utf-8")
        except (FileNotFoundError, NotADirectoryError, IsADirectoryError):
            return None
        except UnicodeDecodeError:
            return "<not utf-8>"

    def adapter(self):
        with sandboxed():
            return get_api().FS(self.root)

    def sandbox(self, adapter):
        with sandboxed():
            vfs = get_api().VFS()
            vfs.mount_storage("/m", adapter)
        return vfs

    def attempt(self, function, plan=None):
        """('ok', value) | ('err', exception) | ('crash', None)"""
        DISK.begin(plan)
        try:
            with sandboxed():
                return "ok", function()
        except SimCrash:
            return "crash", None
        except Exception as exc:
            return "err", exc
        finally:
            for name in DISK.fired:
                self.count("fault:disk-" + name)
            DISK.dead = False
            DISK.plan = None
            self.steps = DISK.count


class HostFamily:
    name = ""
    ground: type[Ground]

    def __init__(self, name: str, profile: dict) -> None:
        self.name = name
        self.profile = profile

    def generate(self, rng: random.Random) -> dict:
        raise NotImplementedError

    def run(self, seed: int) -> Outcome:
        case = json.loads(json.dumps(self.generate(random.Random(seed))))
        case["seed"] = seed
        case["family"] = self.name
        return self.replay(case)

    def replay(self, case: dict) -> Outcome:
        outcome = Outcome(case)
        holder: list[Ground] = []

        def body() -> None:
            ground = self.ground(copy.deepcopy(case["config"]))
            holder.append(ground)
            ground.open()
            for op in copy.deepcopy(case["ops"]):
                CLOCK.advance(op.get("dt", 0))
                ground.count("ops")
                ground.count("op:" + op["k"])
                ground.execute(op)
            ground.close()

        CLOCK.total = 0.0
        guarded(body, outcome)
        outcome.simulated = CLOCK.total
        outcome.digest = "none"
        if holder:
            ground = holder[0]
            outcome.stats = ground.stats
            outcome.states = ground.states
            text = json.dumps([case["config"], ground.trace])
            outcome.digest = hashlib.sha256(text.encode()).hexdigest()[:16]
            outcome.nontrivial = ground.stats.get("ops", 0) >= 5
        return outcome

    def shrink_args(self, case: dict):
        for index, op in enumerate(case["ops"]):
            for key in ("plan", "dt", "ap"):
                if op.get(key):
                    variant = copy.deepcopy(case)
                    del variant["ops"][index][key]
                    yield variant
            if isinstance(op.get("t"), list):
                variant = copy.deepcopy(case)
                variant["ops"][index]["t"] = "short"
                yield variant
        if case["config"].get("init"):
            variant = copy.deepcopy(case)
            variant["config"]["init"] = {}
            yield variant


# ---------------------------------------------------------------------------
# C05
# ---------------------------------------------------------------------------
KEYS = ["x", "y.txt", "d/z", "d/e/w", "two words", "ümlaut", ".hidden", "n" * 250, "w.tmp", "v~"]


class FaultyGround(Ground):
    def open(self) -> None:
        self.store: dict[str, str] = {}
        for key, spec in (self.config.get("init") or {}).items():
            self.store[key] = make_text(spec)
            self.host_write(key, self.store[key])
        self.restart()

    def restart(self) -> None:
        self.fs = self.adapter()
        self.vfs = None
        self.versions: dict[str, int] = {}
        if self.config["mode"] == "sandbox":
            self.vfs = self.sandbox(self.fs)
            self.check_sandbox("mounting")
        self.check_listing(self.fs, "a fresh adapter")

    def check_listing(self, adapter, who: str) -> None:
        status, found = self.attempt(adapter.list)
        if status != "ok":
            raise Mismatch("list", f"{who}: listing failed with {found!r}")
        self.compare({k: e.content for k, e in found.items()}, who)
        for key, entry in found.items():
            self.versions[key] = entry.version

    def compare(self, found: dict, who: str) -> None:
        for key in sorted({*found, *self.store}):
            if found.get(key) != self.store.get(key):
                raise Mismatch(
                    "text",
                    f"{who} shows {key[:20]} as {clip(found.get(key))}, it was written as {clip(self.store.get(key))}",
                )

    def check_sandbox(self, who: str) -> None:
        with sandboxed():
            found = {str(p)[3:]: self.vfs.read_file(p) for p, _ in self.vfs.iter_files("/m")}
        self.compare(found, f"the sandbox after {who}")

    def whole(self, allowed: dict[str, list], what: str) -> None:
        """Every file is one of what it may be; adopt which."""
        for key in sorted({*self.store, *allowed}):
            now = self.on_disk(key)
            options = allowed.get(key, [self.store.get(key)])
            if now not in options:
                raise Mismatch(
                    "whole", f"after {what} the file {key[:20]} holds {clip(now)}, not {' or '.join(map(clip, options))}"
                )
            if now is None:
                self.store.pop(key, None)
            else:
                self.store[key] = now

    def execute(self, op: dict) -> None:
        kind = op["k"]
        plan = op.get("plan")
        what = describe(op)
        if kind == "restart":
            self.restart()
            self.trace.append("restart")
            return
        if kind == "ext":
            text = make_text(op["t"])
            if any(k.startswith(op["p"] + "/") or op["p"].startswith(k + "/") for k in self.store):
                return
            self.host_write(op["p"], text)
            self.store[op["p"]] = text
            if self.vfs is not None:
                self.attempt(lambda: self.vfs.sync_storage("/m"))
            else:
                self.check_listing(self.fs, "the same adapter")
            return
        if self.vfs is None:
            status, allowed, value = self.direct(op, plan)
        else:
            status, allowed, value = self.through_sandbox(op, plan)
        fired = list(DISK.fired)
        hard = [f for f in fired if not f.startswith("short")]
        if status == "err" and not hard and not expected_refusal(value):
            raise Mismatch("result", f"{what} failed with {value!r} on a healthy disk")
        if status == "ok":
            # acknowledged: the new state, and it must be on the disk already
            for key, options in allowed.items():
                allowed[key] = options[-1:]
        elif status == "err" and not hard:
            allowed = {}
        self.whole(allowed, f"{what} ({status}, {fired or 'no fault'})")
        self.trace.append([kind, status, fired])
        self.states.add(hashlib.sha256(json.dumps([kind, status, fired, sorted(self.store.items())]).encode()).hexdigest()[:12])
        if status == "crash":
            self.count("crashes")
            self.restart()
        elif status == "err" and self.vfs is not None and hard:
            self.count("recovered")
            ok, value = self.attempt(lambda: self.vfs.sync_storage("/m"))
            if ok != "ok":
                raise Mismatch("recover", f"after {what} failed, syncing failed with {value!r}")
            self.check_sandbox("syncing")
        elif self.vfs is not None:
            self.check_sandbox(what)
        else:
            self.check_listing(self.fs, "the same adapter")

    def direct(self, op: dict, plan):
        kind, key = op["k"], op["p"]
        old = self.store.get(key)
        if kind in ("write", "append", "touch", "cp", "mv"):
            text = make_text(op.get("t", ""))
            version = self.versions.get(key, 0) if key in self.store else 0
            status, value = self.attempt(lambda: self.fs.write(key, text, version=version), plan)
            if status == "ok":
                self.versions[key] = value.version
            return status, {key: [old, text]}, value
        if kind == "rm":
            status, value = self.attempt(lambda: self.fs.delete(key), plan)
            return status, {key: [old, None]}, value
        if kind == "sync":
            status, value = self.attempt(lambda: self.fs.list(), plan)
            if status == "ok":
                self.compare({k: e.content for k, e in value.items()}, f"a listing ({DISK.fired})")
            return status, {}, value
        if old is None:
            return "ok", {}, None
        status, value = self.attempt(lambda: self.fs.read(key), plan)
        if status == "ok" and value.content != old:
            raise Mismatch("text", f"reading {key[:20]} gives {clip(value.content)}, it was written as {clip(old)}")
        return status, {}, value

    def through_sandbox(self, op: dict, plan):
        kind, key = op["k"], op["p"]
        vfs = self.vfs
        path = "/m/" + key
        old = self.store.get(key)
        text = make_text(op.get("t", ""))
        if kind == "write":
            status, value = self.attempt(lambda: vfs.write_file(path, text), plan)
            return status, {key: [old, text]}, value
        if kind == "append":
            status, value = self.attempt(lambda: vfs.append_file(path, text), plan)
            return status, {key: [old, (old or "") + text]}, value
        if kind == "touch":
            status, value = self.attempt(lambda: vfs.touch(path), plan)
            return status, {key: [old, old if old is not None else ""]}, value
        if kind == "rm":
            status, value = self.attempt(lambda: vfs.remove(path), plan)
            return status, {key: [old, None]}, value
        if kind == "sync":
            status, value = self.attempt(lambda: vfs.sync_storage("/m"), plan)
            return status, {}, value
        if kind in ("cp", "mv"):
            other = op["q"]
            there = self.store.get(other)
            target = "/m/" + other
            function = vfs.copy if kind == "cp" else vfs.move
            status, value = self.attempt(lambda: function(path, target), plan)
            if old is None:
                return status, {}, value
            if kind == "cp":
                return status, {other: [there, old]}, value
            if there is not None:
                return status, {}, value
            if status == "crash" and self.on_disk(key) is None and self.on_disk(other) is None:
                raise Mismatch("whole", f"a crash while moving {key} left neither copy")
            return status, {key: [old, None], other: [None, old]}, value
        if old is None:
            return "ok", {}, None
        status, value = self.attempt(lambda: vfs.read_file(path), plan)
        if status == "ok" and value != old:
            raise Mismatch("text", f"reading {key[:20]} gives {clip(value)}, it was written as {clip(old)}")
        return status, {}, value

    def close(self) -> None:
        self.check_listing(self.fs, "the same adapter")
        self.check_listing(self.adapter(), "a fresh adapter")
        self.vfs = self.sandbox(self.adapter())
        self.check_sandbox("a restart")


def clip(text) -> str:
    if text is None:
        return "absent"
    return repr(text) if len(text) < 60 else f"{text[:40]!r}... ({len(text)} characters)"


def describe(op: dict) -> str:
    text = op.get("t")
    extra = f" {clip(make_text(text))}" if text is not None else ""
    return f"{op['k']} {op.get('p', '')[:30]}{extra}"


def expected_refusal(exc) -> bool:
    ns = get_api()
    return isinstance(exc, (ns.SandboxError, FileNotFoundError))


class DiskFamily(HostFamily):
    ground = FaultyGround

    def generate(self, rng: random.Random) -> dict:
        p = self.profile
        keys = rng.sample(KEYS, rng.randint(1, 4))
        config = {
            "mode": rng.choice(["direct", "sandbox", "sandbox"]),
            "init": {k: self.text(rng) for k in keys if rng.random() < 0.6},
            "clock": 1_000_000.0 + rng.randint(0, 999),
        }
        if not config["init"] and rng.random() < 0.5:
            config["bare"] = True
        ops = []
        for _ in range(rng.randint(*p["ops"])):
            kind = rng.choice(
                ["write"] * 8 + ["append"] * 3 + ["rm"] * 3 + ["read"] * 2 + ["sync", "touch", "cp", "mv", "restart", "ext"]
            )
            op: dict = {"k": kind, "p": rng.choice(keys), "dt": rng.choice([0, 0, 1, -3])}
            if kind in ("write", "append", "ext"):
                op["t"] = self.text(rng)
            if kind in ("cp", "mv"):
                if len(keys) < 2:
                    continue
                op["p"], op["q"] = rng.sample(keys, 2)
            if rng.random() < p["fault_rate"] and kind not in ("restart", "ext"):
                fault = rng.choice(["crash"] * 4 + ["eio", "enospc", "eacces", "short"])
                op["plan"] = {"at": rng.randint(0, rng.choice([3, 8, 14])), "kind": fault}
            ops.append(op)
        return {"config": config, "ops": ops}

    def text(self, rng: random.Random):
        roll = rng.random()
        if roll < 0.45:
            return rng.choice(TEXTS)
        if roll < 0.55:
            return [rng.choice(LONG), rng.randint(0, 99)]
        return "".join(rng.choice("ab\r\n é\u2028\0日") for _ in range(rng.randint(0, 12)))


# ---------------------------------------------------------------------------
# C06
# ---------------------------------------------------------------------------
CANARY = "canary"


class LinkedGround(Ground):
    def open(self) -> None:
        self.outside = os.path.join(DISK.root, "fs", "elsewhere")
        os.makedirs(os.path.join(self.outside, "deep"))
        self.secrets = ["secret", "deep/secret", "x"]
        for name in self.secrets:
            with env._real_open(os.path.join(self.outside, name), "wb") as handle:
                handle.write(f"{CANARY} {name}".encode())
        sibling = self.root + "-twin"  # same prefix as the root, but outside it
        os.makedirs(sibling)
        with env._real_open(os.path.join(sibling, "x"), "wb") as handle:
            handle.write(f"{CANARY} twin".encode())
        self.sibling = sibling
        for key, text in (self.config.get("init") or {}).items():
            self.host_write(key, text)
        place = self.root
        if self.config.get("linked_root"):
            place = os.path.join(DISK.root, "fs", "alias")
            os.symlink(self.root, place)
        with sandboxed():
            self.fs = get_api().FS(place)
        self.before = self.survey()
        DISK.begin()
        self.vfs = self.sandbox(self.fs)
        self.audit("mounting")

    def survey(self) -> dict:
        out: dict = {}
        for base in (self.outside, self.sibling):
            for directory, names, files in os.walk(base):
                out[directory] = sorted(names)
                for name in files:
                    full = os.path.join(directory, name)
                    with env._real_open(full, "rb") as handle:
                        out[full] = [handle.read().decode(), os.stat(full).st_mode, os.stat(full).st_mtime_ns]
        out["fs"] = sorted(env._real_listdir(os.path.join(DISK.root, "fs")))
        return out

    def target(self, where: str) -> str:
        """Where a planted link points to."""
        kind, _, rest = where.partition(":")
        if kind == "out":
            return os.path.join(self.outside, rest) if rest else self.outside
        if kind == "outrel":
            return "../elsewhere/" + rest
        if kind == "twin":
            return self.sibling + ("/" + rest if rest else "")
        if kind == "in":
            return os.path.join(self.root, rest)
        return rest  # verbatim

    def place(self, key: str) -> str:
        return key.replace("@OUT", self.outside).replace("@TWIN", self.sibling)

    def audit(self, what: str) -> None:
        """Nothing outside was read, listed or changed."""
        root = DISK.rel(self.root)
        for mode, where in DISK.opened:
            if where != root and not where.startswith(root + "/"):
                verb = {"r": "read", "w": "opened for writing", "m": "changed", "l": "listed"}[mode]
                raise Mismatch("outside", f"{what} {verb} {where}")
        if DISK.escapes:
            raise Mismatch("outside", f"{what} reached {DISK.escapes[0]}")
        if DISK.foreign:
            raise Mismatch("outside", f"{what} read {DISK.foreign[0]}")
        after = self.survey()
        if after != self.before:
            changed = [k for k in {*after, *self.before} if after.get(k) != self.before.get(k)]
            raise Mismatch("outside", f"{what} changed {DISK.rel(sorted(changed)[0])}")

    def ordinary(self) -> dict[str, str]:
        """The entries the directory really has: files not behind links leading out."""
        out: dict[str, str] = {}
        for directory, _, files in os.walk(self.root):
            for name in files:
                full = os.path.join(directory, name)
                real = os.path.realpath(full)
                if not os.path.isfile(full) or not real.startswith(self.root + "/"):
                    continue
                with env._real_open(real, "rb") as handle:
                    out[os.path.relpath(full, self.root)] = handle.read().decode()
        return out

    def leak(self, text, what: str) -> None:
        if isinstance(text, str) and CANARY in text:
            raise Mismatch("outside", f"{what} shows a file from outside the root: {text[:60]!r}")

    def escapes(self, key: str) -> bool:
        """Whether the key leads out of the root."""
        try:
            rel = key.lstrip("/") if not key.startswith("//") else key
            real = os.path.realpath(os.path.join(self.root, rel))
        except (OSError, ValueError):
            return True
        return not real.startswith(self.root + "/")

    def execute(self, op: dict) -> None:
        kind = op["k"]
        plan = op.get("plan")
        key = self.place(op.get("p", ""))
        what = describe(op)
        if kind == "link":
            self.plant(op)
            return
        if kind == "unlink":
            full = os.path.join(self.root, key)
            if os.path.islink(full):
                os.unlink(full)
            return
        text = op.get("t", "")
        if kind in ("rm", "mv") and not os.path.normpath("/m/" + key).startswith("/m/"):
            return  # would take the mount itself away
        fs, vfs = self.fs, self.vfs
        out = self.escapes(key)
        if kind == "aread":
            status, value = self.attempt(lambda: fs.read(key), plan)
            self.leak(getattr(value, "content", None), what)
        elif kind == "awrite":
            version = 0
            if op.get("v"):
                with_version, entry = self.attempt(lambda: fs.read(key))
                version = entry.version if with_version == "ok" else 0
            status, value = self.attempt(lambda: fs.write(key, text, version=version), plan)
        elif kind == "adelete":
            status, value = self.attempt(lambda: fs.delete(key), plan)
        elif kind == "alist":
            status, value = self.attempt(fs.list, plan)
            out = False
            if status == "ok":
                for name, entry in value.items():
                    self.leak(entry.content, f"{what} {name}")
                self.entries({k: e.content for k, e in value.items()}, what)
            elif not DISK.fired:
                raise Mismatch("usable", f"{what} failed with {value!r}")
        elif kind == "sync":
            status, value = self.attempt(lambda: vfs.sync_storage("/m"), plan)
            out = False
            if status == "ok":
                self.look(what)
            elif not DISK.fired:
                raise Mismatch("usable", f"syncing failed with {value!r}")
        elif kind == "remount":
            status, value = self.attempt(lambda: self.sandbox(fs), plan)
            out = False
            if status == "ok":
                self.vfs = value
                self.look(what)
            elif not DISK.fired:
                raise Mismatch("usable", f"mounting failed with {value!r}")
        elif kind == "write":
            status, value = self.attempt(lambda: vfs.write_file("/m/" + key, text), plan)
            out = out and ".." not in key and not key.startswith("/")
        elif kind == "rm":
            status, value = self.attempt(lambda: vfs.remove("/m/" + key, recursive=True), plan)
            out = False
        elif kind in ("cp", "mv"):
            other = self.place(op["q"])
            function = (lambda: vfs.copy("/m/" + key, "/m/" + other, recursive=True)) if kind == "cp" else (
                lambda: vfs.move("/m/" + key, "/m/" + other)
            )
            status, value = self.attempt(function, plan)
            out = False
        elif kind == "good":
            self.usable(op)
            return
        else:
            raise HarnessError(f"unknown operation {kind}")
        self.audit(what)
        if out and status == "ok" and not (kind == "adelete" and value is None and False):
            raise Mismatch("refuse", f"{what} was accepted although it leads outside")
        if status == "crash":
            self.restart()
        self.trace.append([kind, status, list(DISK.fired)])
        self.states.add(hashlib.sha256(json.dumps([kind, status, key, self.layout()]).encode()).hexdigest()[:12])

    def layout(self) -> list:
        out = []
        for directory, names, files in os.walk(self.root):
            for name in [*names, *files]:
                full = os.path.join(directory, name)
                out.append([os.path.relpath(full, self.root), os.readlink(full) if os.path.islink(full) else ""])
        return sorted(out)

    def restart(self) -> None:
        with sandboxed():
            self.fs = get_api().FS(self.root)
        self.vfs = self.sandbox(self.fs)

    def plant(self, op: dict) -> None:
        full = os.path.join(self.root, op["p"])
        parent = os.path.dirname(full)
        if not (os.path.realpath(parent) + "/").startswith(self.root + "/"):
            return  # the harness plants no links outside either
        try:
            os.makedirs(parent, exist_ok=True)
        except OSError:
            return
        if os.path.islink(full) or os.path.isfile(full):
            os.unlink(full)
        elif os.path.isdir(full):
            shutil.rmtree(full)
        os.symlink(self.target(op["to"]), full)
        self.count("fault:link-" + op["to"].partition(":")[0])

    def entries(self, found: dict, what: str) -> None:
        for key, content in self.ordinary().items():
            if key.endswith(".sandfs-tmp"):
                continue
            if found.get(key) != content:
                raise Mismatch("usable", f"{what} shows {key} as {found.get(key)!r}, it holds {content!r}")

    def look(self, what: str) -> None:
        with sandboxed():
            found = {str(p)[3:]: self.vfs.read_file(p) for p, _ in self.vfs.iter_files("/m")}
        for name, text in found.items():
            self.leak(text, f"{what}: sandbox file {name}")
        self.entries(found, f"the sandbox after {what}")

    def usable(self, op: dict) -> None:
        """The remaining entries can still be written and read back."""
        key = "ordinary"
        full = os.path.join(self.root, key)
        if os.path.islink(full) or os.path.isdir(full):
            return
        status, value = self.attempt(lambda: self.vfs.sync_storage("/m"))
        if status == "ok":
            status, value = self.attempt(lambda: self.vfs.write_file("/m/" + key, op["t"]))
        if status != "ok":
            raise Mismatch("usable", f"an ordinary entry cannot be written: {value!r}")
        if self.on_disk(key) != op["t"]:
            raise Mismatch("usable", f"an ordinary entry holds {self.on_disk(key)!r}")
        self.audit("writing an ordinary entry")

    def close(self) -> None:
        self.execute({"k": "alist"})
        self.execute({"k": "sync"})
        self.usable({"t": "the end"})


class LinkFamily(HostFamily):
    ground = LinkedGround
    PATHS = [
        "x", "y", "d/z", "d/e/w", "d", "ordinary", "link", "link/secret", "link/deep/secret", "link/new", "d/link/secret",
        "../elsewhere/secret", "../../fs/elsewhere/secret", "d/../../elsewhere/x", "..", ".", "", "/", "/x", "/../elsewhere/x",
        "@OUT/secret", "//x", "@TWIN/x", "../root-twin/x", "../root-twin/new", "d/..", "x/../../elsewhere/x", "./../elsewhere/new",
        "../root/x", "../elsewhere", "../root-twin", "link/..", "link/../x", "loop", "loop/x", "x\0y", "d/./z", "d//z", "new/dir/file",
    ]
    PLACES = ["x", "y", "d", "link", "link2", "d/link", "d/z", "d/e", "loop", "ordinary", "new", ".x.sandfs-tmp"]
    TARGETS = [
        "out:", "out:secret", "out:deep", "out:x", "out:new", "outrel:", "outrel:secret", "twin:", "twin:x", "twin:new", "in:x", "in:d",
        "in:y", "in:missing", "raw:loop", "raw:..", "raw:.", "raw:../..", "raw:x", "out:deep/secret",
    ]

    def generate(self, rng: random.Random) -> dict:
        p = self.profile
        config = {
            "init": {k: f"text {k}" for k in ["x", "y", "d/z", "d/e/w"] if rng.random() < 0.7},
            "linked_root": rng.random() < 0.25,
            "clock": 1_000_000.0,
        }
        ops = []
        planted: list[str] = []
        for serial in range(rng.randint(*p["ops"])):
            kind = rng.choice(
                ["link"] * 5 + ["unlink"] + ["aread", "awrite", "adelete"] * 3 + ["alist", "sync", "sync", "remount"]
                + ["write"] * 4 + ["rm"] * 2 + ["cp", "mv", "good"]
            )
            op: dict = {"k": kind, "dt": rng.choice([0, 1])}
            if kind == "link":
                op["p"] = rng.choice(self.PLACES)
                op["to"] = rng.choice(self.TARGETS)
                planted.append(op["p"])
                # a link inside a linked directory would be planted outside: the harness refuses that
            elif kind == "unlink":
                op["p"] = rng.choice(planted or ["x"])
            else:
                op["p"] = self.path(rng, planted)
            if kind in ("cp", "mv"):
                op["q"] = self.path(rng, planted)
            if kind in ("awrite", "write", "good"):
                op["t"] = f"written {serial}"
            if kind == "awrite" and rng.random() < 0.6:
                op["v"] = True
            if rng.random() < p["fault_rate"] and kind not in ("link", "unlink", "good"):
                op["plan"] = {"at": rng.randint(0, 8), "kind": rng.choice(["crash", "eio", "enospc", "eacces"])}
            ops.append(op)
        return {"config": config, "ops": ops}

    def path(self, rng: random.Random, planted: list[str]) -> str:
        if planted and rng.random() < 0.5:
            return rng.choice(planted) + rng.choice(["", "", "/secret", "/x", "/new", "/deep/secret", "/e/w"])
        return rng.choice(self.PATHS)


_ = EndRun
