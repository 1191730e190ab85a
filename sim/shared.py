"""Several clients on one storage backend, interleaved at every storage call.

Each client is a thread; exactly one runs at a time, and the seeded scheduler
decides at every yield point (before and after each storage call, and between
operations) who continues.  The schedule is part of the recorded case.

The oracle sits at the backend: one storage call is atomic, so the calls form a
linear history.  It knows what every client last saw of every entry.
"""

from __future__ import annotations

import copy
import hashlib
import json
import os
import random
import threading

from . import env
from .engine import Outcome, guarded
from .env import CLOCK, DISK, PROCESSES, HarnessError, SimCrash, outside, sandboxed
from .universe import InjectedError, Mismatch, detach, get_api

ABSENT = None
KEYS = ["x", "y.txt", "d/z"]


class Abort(BaseException):
    pass


class Task:
    def __init__(self, number: int) -> None:
        self.number = number
        self.go = threading.Semaphore(0)
        self.done = False
        self.failure: BaseException | None = None
        self.thread: threading.Thread | None = None


class Scheduler:
    """Passes the baton between the main thread and the tasks."""

    def __init__(self, schedule: list[int], rng: random.Random | None, switch: float) -> None:
        self.schedule = schedule
        self.rng = rng
        self.switch = switch
        self.position = 0
        self.back = threading.Semaphore(0)
        self.tasks: list[Task] = []
        self.current: Task | None = None
        self.aborting = False
        self.switches = 0
        self.order: list[int] = []

    def spawn(self, number: int, function) -> None:
        task = Task(number)

        def body() -> None:
            task.go.acquire()
            try:
                if not self.aborting:
                    function()
            except Abort:
                pass
            except BaseException as exc:  # noqa: BLE001 - handed to the main thread
                task.failure = exc
            task.done = True
            self.back.release()

        task.thread = threading.Thread(target=body, daemon=True)
        task.thread.start()
        self.tasks.append(task)

    def pause(self) -> None:
        """Called by the running task: let the scheduler decide who goes on."""
        task = self.current
        if self.aborting or task is None:
            raise Abort()
        self.back.release()
        task.go.acquire()
        if self.aborting:
            raise Abort()

    def choose(self, ready: list[Task]) -> Task:
        if self.current in ready:
            ready = [self.current] + [t for t in ready if t is not self.current]
        if self.position < len(self.schedule):
            index = self.schedule[self.position] % len(ready)
        elif self.rng is None:
            index = 0
        else:
            index = 0
            if len(ready) > 1 and self.rng.random() < self.switch:
                index = self.rng.randrange(1, len(ready))
            self.schedule.append(index)
        self.position += 1
        return ready[index]

    def run(self) -> None:
        try:
            while True:
                ready = [t for t in self.tasks if not t.done]
                if not ready:
                    return
                task = self.choose(ready)
                if task is not self.current:
                    self.switches += 1
                    self.current = task
                self.order.append(task.number)
                task.go.release()
                self.back.acquire()
                if task.failure is not None:
                    raise task.failure
        finally:
            self.aborting = True
            for task in self.tasks:
                if not task.done:
                    task.go.release()
                    task.thread.join(2)
            self.current = None


class Store:
    """What the backend must hold, entry by entry."""

    def __init__(self, init: dict[str, str]) -> None:
        self.serial = 0
        self.content: dict[str, str] = {}
        self.ident: dict[str, int] = {}
        self.version: dict[str, int] = {}
        self.epoch: dict[str, int] = {}
        for key, text in init.items():
            self.put(key, text, 0)

    def put(self, key: str, text: str, version: int) -> None:
        self.serial += 1
        self.content[key] = text
        self.ident[key] = self.serial
        self.version[key] = version

    def drop(self, key: str) -> None:
        if key in self.content:
            self.serial += 1
            del self.content[key]
            del self.ident[key]
            del self.version[key]
            self.epoch[key] = self.epoch.get(key, 0) + 1

    def state(self, key: str) -> tuple:
        """(identity of the state or ABSENT, deletions so far, content)."""
        return (self.ident.get(key, ABSENT), self.epoch.get(key, 0), self.content.get(key))


def make_link():
    base = get_api().StorageAdapter

    class Link(base):
        """One client's connection to the shared backend."""

        def __init__(self, client: "Client", inner) -> None:
            self.client = client
            self.inner = inner

        def read(self, path):
            return self.client.call("read", path, None, None, self.inner)

        def write(self, path, content, *, version):
            return self.client.call("write", path, content, version, self.inner)

        def list(self):
            return self.client.call("list", "", None, None, self.inner)

        def delete(self, path):
            return self.client.call("delete", path, None, None, self.inner)

    return Link


class Client:
    def __init__(self, arena: "Arena", number: int, spec: dict) -> None:
        self.arena = arena
        self.number = number
        self.spec = spec
        self.plan: dict | None = None
        self.calls: list[tuple] = []
        self.quiet = False
        self.start()

    def start(self) -> None:
        arena = self.arena
        inner = arena.backend()
        self.inner = inner
        self.seen: dict[str, tuple] = {}
        self.numbers: dict[str, dict[int, tuple]] = arena.numbers_of(inner)
        self.last_version: dict[str, int] = {}  # of the direct client
        self.link = arena.link_class(self, inner)
        self.mirror: dict[str, list] = {}
        self.calls = []
        quiet, self.quiet = self.quiet, True
        if self.spec.get("direct"):
            self.vfs = None
            with sandboxed():
                self.link.list()
            self.quiet = quiet
            return
        with sandboxed():
            self.vfs = get_api().VFS()
            self.vfs.mount_storage("/m", self.link)
        self.quiet = quiet
        self.adopt_listing()
        self.compare("mount")

    # -- the storage call -------------------------------------------------------
    def pause(self) -> None:
        if not self.quiet:
            active, DISK.active = DISK.active, False
            try:
                self.arena.scheduler.pause()
            finally:
                DISK.active = active

    def call(self, method: str, key: str, content, version, inner):
        self.pause()
        index = len(self.calls)
        plan = self.plan if self.plan and self.plan["at"] == index else None
        kind = plan["kind"] if plan else None
        if kind == "crash-before":
            self.arena.count("fault:client-crash-before-" + method)
            self.calls.append((method, key, "crash"))
            raise SimCrash()
        if kind in ("error", "oserror"):
            self.arena.count(f"fault:storage-{kind}-{method}")
            self.calls.append((method, key, "fault"))
            raise InjectedError("backend down") if kind == "error" else OSError(5, "Input/output error")
        try:
            answer = self.effect(method, key, content, version, inner)
        except (ValueError, FileNotFoundError):
            self.calls.append((method, key, "refused"))
            raise
        if kind == "lost-ack":
            self.arena.count("fault:storage-lost-ack-" + method)
            self.calls.append((method, key, "fault"))
            raise TimeoutError("no answer from the backend")
        if kind == "crash-after":
            self.arena.count("fault:client-crash-after-" + method)
            self.calls.append((method, key, "crash"))
            raise SimCrash()
        self.note(method, key, content, answer)
        self.calls.append((method, key, "ok"))
        self.pause()
        return answer

    def effect(self, method, key, content, version, inner):
        """The atomic effect on the backend, judged."""
        store = self.arena.store
        what = f"client {self.number} {method}({key!r})"
        if method == "list":
            return detach(inner.list())
        if method == "read":
            try:
                return detach(inner.read(key))
            except FileNotFoundError:
                if key in store.content:
                    raise Mismatch("read", f"{what}: not found, but the entry exists") from None
                raise
        if method == "delete":
            inner.delete(key)
            self.arena.expect(key, ABSENT, what)
            store.drop(key)
            return None
        before = store.content.get(key)
        verdict, why = self.judge(key, version)
        try:
            entry = inner.write(key, content, version=version)
        except ValueError:
            self.arena.count("refused")
            self.arena.expect(key, before, what + " was refused but")
            if verdict == "accept":
                raise Mismatch("conflict", f"{what} was refused, but {why}") from None
            if verdict == "refuse":
                self.arena.count("refused-stale")
            raise
        self.arena.count("accepted")
        if verdict == "refuse":
            raise Mismatch("lost-update", f"{what} version {version} was accepted, but {why}")
        self.arena.expect(key, content, what)
        if entry.content != content or entry.version != version + 1:
            raise Mismatch(
                "version", f"{what} at version {version} returned {entry.version} {entry.content!r}"
            )
        store.put(key, content, version + 1)
        return detach(entry)

    def judge(self, key: str, version: int) -> tuple[str, str]:
        store = self.arena.store
        seen = self.seen.get(key, (ABSENT, 0, None))
        now = store.state(key)
        believed = self.believed(key)
        if version != believed:  # a direct client guessing
            if seen[0] == now[0] and now[0] is not ABSENT:
                return "refuse", f"version {believed} is current, not {version}"
            return "either", ""
        if now[0] is ABSENT:
            if seen[0] is ABSENT:
                return "accept", "the entry is absent, as the client last saw"
            return "either", ""  # removed meanwhile
        if seen[0] is ABSENT:
            return "refuse", "the entry appeared since the client last looked"
        if seen[0] == now[0]:
            return "accept", "the client last saw the current state"
        if seen[1] != now[1]:
            return "either", ""  # removed and created anew
        if seen[2] == now[2]:
            return "either", ""  # the same text again: nothing is lost
        return "refuse", f"it changed from {seen[2]!r} to {now[2]!r} since the client last saw it"

    def believed(self, key: str) -> int:
        if self.vfs is None:
            return self.last_version.get(key, 0)
        return self.mirror[key][1] if key in self.mirror else 0

    def note(self, method, key, content, answer) -> None:
        """The client learns the outcome."""
        store = self.arena.store
        if method == "list":
            found = {k: e.content for k, e in answer.items()}
            if found != store.content:
                raise Mismatch("list", f"client {self.number} listed {found}, stored is {store.content}")
            self.listing = {k: [e.content, e.version] for k, e in answer.items()}
            for name in {*self.seen, *store.content}:
                self.seen[name] = store.state(name)
            for name, entry in answer.items():
                self.number_seen(name, entry.version)
            self.last_version = {k: e.version for k, e in answer.items()}
        elif method == "read":
            if answer.content != store.content.get(key):
                raise Mismatch("read", f"client {self.number} read {answer.content!r}, stored is {store.content.get(key)!r}")
            self.seen[key] = store.state(key)
            self.last_version[key] = answer.version
            self.number_seen(key, answer.version)
        elif method == "write":
            self.seen[key] = store.state(key)
            self.last_version[key] = answer.version
            self.number_seen(key, answer.version)
        elif method == "delete":
            self.seen[key] = store.state(key)
            self.last_version.pop(key, None)

    def number_seen(self, key: str, version: int) -> None:
        """Versions of a path are never reused for another text while it exists."""
        store = self.arena.store
        epoch, content = store.epoch.get(key, 0), store.content[key]
        book = self.numbers.setdefault(key, {})
        if book and next(iter(book.values()))[0] != epoch:
            book.clear()
        if version in book and book[version][1] != content:
            raise Mismatch(
                "version", f"{key}: version {version} was {book[version][1]!r} and is now {content!r}"
            )
        if book and version < max(book):
            raise Mismatch("version", f"{key}: version went from {max(book)} to {version}")
        book[version] = (epoch, content)
        if self.arena.kind == "mem" and version != store.version[key]:
            raise Mismatch("version", f"{key}: version {version}, the accepted writes give {store.version[key]}")

    # -- operations ---------------------------------------------------------------
    def adopt_listing(self) -> None:
        self.mirror = {k: list(v) for k, v in self.listing.items()}

    def compare(self, what: str) -> None:
        with sandboxed():
            actual = {}
            for path, node in self.vfs.iter_files("/m"):
                actual[str(path)[3:]] = [self.vfs.read_file(path), self.vfs.get_version(path)]
        if actual != self.mirror:
            raise Mismatch("tree", f"after {what} client {self.number} shows {actual}, expected {self.mirror}")

    def execute(self, op: dict) -> None:
        arena = self.arena
        CLOCK.advance(op.get("dt", 0))
        arena.count("ops")
        arena.count("op:" + op["k"])
        self.plan = op.get("plan")
        self.calls = []
        try:
            outcome = self.perform(op)
        except SimCrash:
            outcome = "crash"
            arena.count("restarts")
            self.plan = None
            self.start()
        finally:
            self.plan = None
        arena.trace.append([self.number, op["k"], outcome, [c[2] for c in self.calls]])

    def perform(self, op: dict) -> str:
        kind = op["k"]
        if self.vfs is None:
            return self.perform_direct(op)
        if kind == "restart":
            self.start()
            return "ok"
        if kind == "retry":
            self.quiet = True
            try:
                self.sync()
                self.write(op, must=True)
            finally:
                self.quiet = False
            return "ok"
        if kind == "sync":
            return self.sync()
        if kind == "write":
            return self.write(op)
        return self.other(op)

    def sync(self) -> str:
        error = self.attempt(lambda: self.vfs.sync_storage("/m"))
        good = [c[2] for c in self.calls] == ["ok"]
        if good and error is not None:
            raise Mismatch("result", f"sync failed with {error!r}")
        if not good and error is None:
            raise Mismatch("result", "sync succeeded although the backend failed")
        if good:
            self.adopt_listing()
        self.compare("sync")
        return "ok" if good else "err"

    def attempt(self, function) -> Exception | None:
        try:
            with sandboxed():
                function()
        except Mismatch:
            raise
        except Exception as exc:
            return exc
        return None

    def settle(self, op: dict, error, calls: int, allowed: bool, apply) -> str:
        """Compare what happened to an operation with what its storage calls say."""
        what = f"client {self.number} {json.dumps(op, ensure_ascii=False)}"
        outcomes = [c[2] for c in self.calls]
        if not allowed:
            if error is None:
                raise Mismatch("result", f"{what} was accepted")
            if outcomes:
                raise Mismatch("result", f"{what} reached the backend although it had to be refused")
        elif all(o == "ok" for o in outcomes):
            if error is not None:
                raise Mismatch("result", f"{what} failed with {error!r}")
            if len(outcomes) != calls:
                raise Mismatch("result", f"{what} made the storage calls {self.calls}")
            apply()
        elif error is None:
            raise Mismatch("result", f"{what} succeeded although the backend answered {outcomes}")
        elif "refused" in outcomes and not isinstance(error, get_api().SandboxError):
            raise Mismatch("result", f"{what} reported the conflict as {error!r}")
        self.compare(what)
        return "ok" if error is None else "err"

    def write(self, op: dict, must: bool = False) -> str:
        self.calls = []
        key, text = op["p"], op["t"]
        old = self.mirror.get(key)
        content = (old[0] if old else "") + text if op.get("ap") else text
        version = old[1] if old else 0
        kwargs = {}
        if op.get("ev") is not None:
            kwargs["expected_version"] = version + op["ev"]
        if op.get("ap"):
            error = self.attempt(lambda: self.vfs.append_file("/m/" + key, text, **kwargs))
        else:
            error = self.attempt(lambda: self.vfs.write_file("/m/" + key, text, **kwargs))
        if must and error is not None:
            raise Mismatch("retry", f"client {self.number} synced and wrote {key}: {error!r}")

        def apply() -> None:
            self.mirror[key] = [content, version + 1]

        return self.settle(op, error, 1, not op.get("ev"), apply)

    def other(self, op: dict) -> str:
        key = op["p"]
        old = self.mirror.get(key)
        to = op.get("q")
        path, target = "/m/" + key, "/m/" + str(to)
        kind = op["k"]
        if kind == "touch":
            error = self.attempt(lambda: self.vfs.touch(path))
            if old is not None:
                return self.settle(op, error, 0, True, lambda: None)
            return self.settle(op, error, 1, True, lambda: self.mirror.update({key: ["", 1]}))
        if kind == "rm":
            error = self.attempt(lambda: self.vfs.remove(path))
            return self.settle(op, error, 1, old is not None, lambda: self.mirror.pop(key))
        there = self.mirror.get(to)
        if kind == "cp":
            error = self.attempt(lambda: self.vfs.copy(path, target))
            version = there[1] if there else 0
            return self.settle(
                op, error, 1, old is not None, lambda: self.mirror.update({to: [old[0], version + 1]})
            )
        if kind == "mv":
            error = self.attempt(lambda: self.vfs.move(path, target))

            def apply() -> None:
                del self.mirror[key]
                self.mirror[to] = [old[0], 1]

            return self.settle(op, error, 2, old is not None and there is None, apply)
        raise HarnessError(f"unknown operation {kind}")

    def perform_direct(self, op: dict) -> str:
        kind, key = op["k"], op["p"]
        link = self.link
        if kind == "restart":
            self.start()
            return "ok"
        if kind == "write":
            version = max(0, self.last_version.get(key, 0) + (op.get("ev") or 0))
            error = self.attempt(lambda: link.write(key, op["t"], version=version))
        elif kind in ("rm", "mv"):
            error = self.attempt(lambda: link.delete(key))
        elif kind in ("sync", "retry"):
            error = self.attempt(lambda: link.list())
        else:
            error = self.attempt(lambda: link.read(key))
        return "ok" if error is None else "err"


class Arena:
    def __init__(self, config: dict, schedule: list[int], rng, switch: float) -> None:
        self.config = config
        self.kind = config["backend"]
        self.stats: dict[str, int] = {}
        self.trace: list = []
        CLOCK.now = config.get("clock", 1_000_000.0)
        env.fresh_scratch()
        DISK.begin()
        PROCESSES.handler = None
        self.root = os.path.join(DISK.root, "fs", "shared")
        os.makedirs(self.root)
        self.link_class = make_link()
        self.store = Store(config.get("init") or {})
        self.shared = None
        self.books: list[tuple] = []
        if self.kind == "mem":
            self.shared = get_api().Memory(initial=dict(config.get("init") or {}))
        else:
            for key, text in (config.get("init") or {}).items():
                self.host_write(key, text)
            if self.kind == "fs-one":
                self.shared = self.new_fs()
        self.scheduler = Scheduler(schedule, rng, switch)
        self.clients = [Client(self, n, spec) for n, spec in enumerate(config["clients"])]

    def count(self, name: str) -> None:
        self.stats[name] = self.stats.get(name, 0) + 1

    def new_fs(self):
        with sandboxed():
            return get_api().FS(self.root)

    def backend(self):
        return self.shared if self.shared is not None else self.new_fs()

    def numbers_of(self, inner) -> dict:
        for known, book in self.books:
            if known is inner:
                return book
        self.books.append((inner, {}))
        return self.books[-1][1]

    def host_write(self, key: str, text: str) -> None:
        full = os.path.join(self.root, key)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with env._real_open(full, "wb") as handle:
            handle.write(text.encode("utf-8"))
        env._real_utime(full, ns=(CLOCK.time_ns(), CLOCK.time_ns()))

    def stored(self, key: str):
        with outside():
            if self.kind == "mem":
                try:
                    return self.shared.read(key).content
                except FileNotFoundError:
                    return ABSENT
            try:
                with env._real_open(os.path.join(self.root, key), "rb") as handle:
                    return handle.read().decode("utf-8")
            except FileNotFoundError:
                return ABSENT

    def expect(self, key: str, content, what: str) -> None:
        actual = self.stored(key)
        if actual != content:
            raise Mismatch("stored", f"{what}: stored is {actual!r}, expected {content!r}")

    def external(self, op: dict) -> None:
        """Somebody edits the host directory behind every adapter."""
        CLOCK.advance(op.get("dt", 0))
        self.count("ops")
        self.count("op:ext")
        if self.kind == "mem":
            return
        self.host_write(op["p"], op["t"])
        self.store.put(op["p"], op["t"], 0)
        self.trace.append(["ext", op["p"]])

    def play(self, ops: list[dict]) -> None:
        for number, client in enumerate(self.clients):
            program = [op for op in ops if op["c"] == number]

            def body(client=client, program=program) -> None:
                for op in program:
                    self.scheduler.pause()
                    client.execute(op)

            self.scheduler.spawn(number, body)
        outside_ops = [op for op in ops if op["c"] >= len(self.clients)]
        if outside_ops:

            def editor() -> None:
                for op in outside_ops:
                    self.scheduler.pause()
                    self.external(op)

            self.scheduler.spawn(len(self.clients), editor)
        self.scheduler.run()
        self.finale()

    def finale(self) -> None:
        """The faults are over: everybody who syncs and retries gets through."""
        for client in self.clients:
            client.quiet = True
            client.calls = []
            if client.vfs is None:
                for key in sorted(self.store.content):
                    client.calls = []
                    error = client.attempt(lambda: client.link.read(key))
                    version = client.last_version.get(key, 0)
                    error = error or client.attempt(
                        lambda: client.link.write(key, f"last {client.number}", version=version)
                    )
                    if error is not None:
                        raise Mismatch("retry", f"direct client read and wrote {key}: {error!r}")
                continue
            for key in KEYS:
                client.calls = []
                client.sync()
                client.write({"p": key, "t": f"last {client.number} {key}"}, must=True)
        for client in self.clients:
            client.calls = []
            if client.vfs is not None:
                client.sync()
                if {k: v[0] for k, v in client.mirror.items()} != self.store.content:
                    raise Mismatch("tree", "a synced client does not show the stored entries")


class SharedFamily:
    def __init__(self, name: str, profile: dict) -> None:
        self.name = name
        self.profile = profile

    def generate(self, rng: random.Random) -> dict:
        p = self.profile
        backend = rng.choice(p["backends"])
        clients = [{} for _ in range(rng.randint(2, p.get("clients", 3)))]
        if rng.random() < p.get("direct", 0.3):
            clients.append({"direct": True})
        init = {key: f"init {key}" for key in KEYS if rng.random() < 0.6}
        config = {"backend": backend, "clients": clients, "init": init, "clock": 1_000_000.0 + rng.randint(0, 999)}
        ops = []
        keys = KEYS if rng.random() < 0.5 else KEYS[:1]
        actors = len(clients) + (1 if backend != "mem" and rng.random() < 0.5 else 0)
        dts = rng.choice([[0], [0, 0, 1], [1], [0, 1, -5, 100]])
        for serial in range(rng.randint(*p["ops"])):
            who = rng.randrange(actors)
            kinds = ["write"] * 8 + ["sync"] * 4 + ["retry"] * 2 + ["rm", "touch", "cp", "mv"] + ["restart"] * (rng.random() < 0.3)
            op: dict = {"c": who, "k": rng.choice(kinds), "p": rng.choice(keys), "dt": rng.choice(dts)}
            if who >= len(clients):
                op["k"] = "ext"
            if op["k"] in ("write", "retry", "ext"):
                op["t"] = rng.choice([f"text {serial} by {who}", "same", f"t{serial}\n"])
                if op["k"] == "write" and rng.random() < 0.3:
                    op["ap"] = True
                if op["k"] == "write" and rng.random() < 0.3:
                    op["ev"] = rng.choice([0, 0, 1, -1])
            if op["k"] in ("cp", "mv"):
                op["p"], op["q"] = rng.sample(KEYS[:2], 2)
            if rng.random() < p.get("fault_rate", 0.15) and op["k"] not in ("ext", "restart", "retry"):
                fault = rng.choice(["error", "oserror", "lost-ack", "crash-before", "crash-after"])
                if op["k"] != "mv" or fault.startswith("crash"):
                    op["plan"] = {"at": rng.choice([0, 0, 1]), "kind": fault}
            ops.append(op)
        return {"family": self.name, "config": config, "ops": ops, "schedule": []}

    def run(self, seed: int) -> Outcome:
        rng = random.Random(seed)
        case = json.loads(json.dumps(self.generate(rng)))
        case["seed"] = seed
        return self.go(case, case["schedule"], rng, rng.choice([0.15, 0.4, 0.7]))

    def replay(self, case: dict) -> Outcome:
        return self.go(case, list(case["schedule"]), None, 0.0)

    def go(self, case: dict, schedule: list[int], rng, switch: float) -> Outcome:
        outcome = Outcome(case)
        holder: list[Arena] = []

        def body() -> None:
            arena = Arena(copy.deepcopy(case["config"]), schedule, rng, switch)
            holder.append(arena)
            arena.play(copy.deepcopy(case["ops"]))

        CLOCK.total = 0.0
        guarded(body, outcome)
        outcome.simulated = CLOCK.total
        outcome.digest = "none"
        if holder:
            arena = holder[0]
            outcome.stats = arena.stats
            outcome.stats["switches"] = arena.scheduler.switches
            order = hashlib.sha256(bytes(n % 256 for n in arena.scheduler.order)).hexdigest()[:12]
            outcome.states = {order}
            text = json.dumps([case["config"], arena.trace, arena.scheduler.order])
            outcome.digest = hashlib.sha256(text.encode()).hexdigest()[:16]
            outcome.nontrivial = arena.stats.get("ops", 0) >= 5 and arena.scheduler.switches >= 2
        return outcome

    def shrink_args(self, case: dict):
        schedule = case["schedule"]
        for size in (len(schedule) // 2, len(schedule) // 4, 8, 1):
            if size <= 0:
                continue
            for start in range(0, len(schedule), size):
                if any(schedule[start : start + size]):
                    variant = copy.deepcopy(case)
                    variant["schedule"][start : start + size] = [0] * len(schedule[start : start + size])
                    yield variant
        stripped = list(schedule)
        while stripped and stripped[-1] == 0:
            stripped.pop()
        if stripped != schedule:
            yield {**copy.deepcopy(case), "schedule": stripped}
        for index, op in enumerate(case["ops"]):
            for key in ("plan", "dt", "ev", "ap"):
                if op.get(key):
                    variant = copy.deepcopy(case)
                    del variant["ops"][index][key]
                    yield variant
        if case["config"].get("init"):
            variant = copy.deepcopy(case)
            variant["config"]["init"] = {}
            yield variant
