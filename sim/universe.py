"""One simulated world: sandboxes, agents, backends, providers, hooks, faults.

``World`` executes concrete operations (JSON) on the real sandfs and on the
reference model side by side and reports every disagreement as a ``Mismatch``.
"""

from __future__ import annotations

import contextlib
import copy
import json
import os
import re
import shutil
import sys

from . import env
from .env import CLOCK, DISK, PROCESSES, HarnessError, SimCrash, outside, sandboxed
from .model import (
    Model,
    Mount,
    Node,
    Obs,
    Refuse,
    join,
    line_matches,
    make_policy,
    norm,
    parent_of,
    under,
    view_allows,
)
from .shellmodel import BUILTINS, Agent, Out, ShellModel, render


class Mismatch(Exception):
    """sandfs and the model disagree."""

    def __init__(self, aspect: str, detail: str, **info) -> None:
        super().__init__(f"{aspect}: {detail}")
        self.aspect = aspect
        self.detail = detail
        self.info = info


class EndRun(Exception):
    """The history reached a state the specification does not cover."""


class Inbox:
    """What the library's own recorder holds, in the shape of ``recorded``."""

    def __init__(self, recorder) -> None:
        self.recorder = recorder

    def __len__(self) -> int:
        return len(self.recorder.events)

    def __getitem__(self, where):
        return [(e["path"], e["event"], e["content"]) for e in self.recorder.events[where]]


class InjectedError(Exception):
    """Raised by simulated providers, hooks and backends."""


def injected(kind: str | None, message: str) -> Exception:
    """The exceptions that real providers and hooks fail with."""
    ns = get_api()
    return {
        "key": KeyError,
        "os": OSError,
        "value": ValueError,
        "type": TypeError,
        "missing": ns.NodeNotFound,
        "invalid": ns.InvalidOperation,
        "lost": FileNotFoundError,
    }.get(kind or "", InjectedError)(message)


def api():
    import sandfs
    from sandfs import adapters, cli, exceptions, integrations, nodes, policies, providers, pyexec, search, shell, vfs

    class NS:
        pass

    ns = NS()
    ns.sandfs = sandfs
    ns.VFS = vfs.VirtualFileSystem
    ns.Shell = shell.SandboxShell
    ns.CommandResult = shell.CommandResult
    ns.NodePolicy = policies.NodePolicy
    ns.View = policies.VisibilityView
    ns.ProvidedNode = providers.ProvidedNode
    ns.Index = search.FullTextIndex
    ns.SearchQuery = search.SearchQuery
    ns.StorageAdapter = adapters.StorageAdapter
    ns.Memory = adapters.MemoryStorageAdapter
    ns.FS = adapters.FileSystemAdapter
    ns.SandboxError = exceptions.SandboxError
    ns.NodeNotFound = exceptions.NodeNotFound
    ns.ProviderError = exceptions.ProviderError
    ns.InvalidOperation = exceptions.InvalidOperation
    ns.VirtualFile = nodes.VirtualFile
    ns.VirtualDirectory = nodes.VirtualDirectory
    ns.PythonExecutor = pyexec.PythonExecutor
    ns.InboxRecorder = integrations.InboxRecorder
    ns.main = cli.main
    return ns


_API = None


def get_api():
    global _API
    if _API is None:
        _API = api()
    return _API


def to_policy(spec: dict):
    spec = make_policy(**spec)
    return get_api().NodePolicy(
        readable=spec["r"],
        writable=spec["w"],
        append_only=spec["a"],
        classification=spec["c"],
        principals=set(spec["p"]),
    )


def from_policy(policy) -> dict:
    return {
        "r": policy.readable,
        "w": policy.writable,
        "a": policy.append_only,
        "c": policy.classification,
        "p": sorted(policy.principals),
    }


def to_view(spec: dict | None):
    if spec is None:
        return None
    given = {
        "classifications": set(spec["c"]) if spec.get("c") is not None else None,
        "principals": list(spec["p"]) if spec.get("p") is not None else None,
        "path_prefixes": list(spec["x"]) if spec.get("x") is not None else None,
        "metadata_filters": dict(spec["m"]) if spec.get("m") is not None else None,
    }
    view = get_api().View(**given)
    for mine in given.values():  # the application goes on using its own collections
        if mine is not None:
            mine.clear()
    return view


def detach(result):
    """Hand entries on, then scribble on the objects the adapter returned: they are the caller's."""
    if hasattr(result, "content") and hasattr(result, "version"):
        copied = copy.copy(result)
        with contextlib.suppress(AttributeError):
            result.content, result.version = "scribbled", 77
        return copied
    if isinstance(result, dict):
        copied = {key: detach(value) for key, value in result.items()}
        result.clear()
        return copied
    return result


def make_adapter_class():
    base = get_api().StorageAdapter

    class SimAdapter(base):
        """A real adapter behind the simulated link to its backend."""

        def __init__(self, sandbox: "Sandbox", ident: str, inner) -> None:
            self.sandbox = sandbox
            self.ident = ident
            self.inner = inner

        def _call(self, method: str, key: str, function):
            world = self.sandbox.world
            obs = self.sandbox.model.obs
            outcomes = obs.calls.setdefault((self.ident, method, key), [])
            before = obs.faults + len(DISK.fired)
            try:
                world.storage_call(self.sandbox, method, False)
                result = function()
            except Exception:
                if obs.faults + len(DISK.fired) > before:
                    outcomes.append(False)
                raise
            outcomes.append(True)
            world.storage_call(self.sandbox, method, True)
            return detach(result)

        def read(self, path):
            return self._call("read", path, lambda: self.inner.read(path))

        def write(self, path, content, *, version):
            return self._call(
                "write", path, lambda: self.inner.write(path, content, version=version)
            )

        def list(self):
            return self._call("list", "", lambda: self.inner.list())

        def delete(self, path):
            return self._call("delete", path, lambda: self.inner.delete(path))

    return SimAdapter


_ADAPTER = None


class Sandbox:
    def __init__(self, world: "World", number: int, config: dict, reuse: dict | None = None) -> None:
        global _ADAPTER
        if _ADAPTER is None:
            _ADAPTER = make_adapter_class()
        ns = get_api()
        self.world = world
        self.number = number
        self.config = config
        self.model = Model(CLOCK.now)
        self.snapshots: list[tuple[object, dict]] = []
        self.recorded: dict[str, list[tuple] | Inbox] = {}
        self.hook_specs: list[tuple[str, str, str]] = []
        self.known_mounts: dict[str, Mount] = {}  # including those a restore took away
        self.providers: dict[str, dict] = {}
        self.model.provider_specs = self.providers
        self.calls: dict[str, int] = {}
        self.adapters: dict[str, object] = {}
        self.restored = False
        self.ext_seen = False
        self.reuse = reuse
        with sandboxed():
            self.vfs = ns.VFS()
        for kind, prefix, behaviour, *more in config.get("hooks", []):
            self.add_hook(kind, prefix, behaviour, more)
        for path, policy in config.get("dirs", []):
            with sandboxed():
                self.vfs.mkdir(path, parents=True, exist_ok=True)
            self.model.make_dirs(path)
        for mount in config.get("mounts", []):
            self.mount(mount)
        if config.get("search_view"):
            with sandboxed():
                self.vfs.enable_search_view()
            self.model.search_prefix = "/@search"
            self.model.make_dirs("/@search")
        if config.get("index"):
            with sandboxed():
                self.vfs.enable_full_text_index()
            self.model.index = True
        self.executor = None
        if config.get("one_python"):
            self.executor = ns.PythonExecutor(
                self.vfs,
                builtins={"double": lambda value: value * 2},
                globals_template={"base": f"box {self.number}"},
            )
        self.agents: dict[str, Agent] = {}
        self.shells: dict[str, object] = {}
        for spec in config.get("agents", []):
            self.add_agent(spec)

    # -- construction ---------------------------------------------------
    def add_agent(self, spec: dict) -> None:
        ns = get_api()
        agent = Agent(spec)
        agent.own_python = f"box {self.number}" if self.executor is not None else None
        kwargs = {}
        same = self.world.same
        if spec.get("allow") is not None:
            kwargs["allowed_commands"] = same("allow", spec["allow"], set)
        if spec.get("limit") is not None:
            kwargs["max_output_bytes"] = spec["limit"]
        with sandboxed():
            shell = ns.Shell(
                self.vfs,
                env=same("env", spec.get("env") or {}),
                view=to_view(same("view", spec["view"])) if spec.get("view") else None,
                host_fallback=bool(spec.get("fallback")),
                python_executor=self.executor,
                **kwargs,
            )
        for name, text in agent.extra.items():
            with sandboxed():
                shell.register_command(name, self.extra_command(text))
        self.agents[agent.name] = agent
        self.shells[agent.name] = shell

    def extra_command(self, text: str):
        """The registered command that ``text`` describes (see ``ShellModel.extra``)."""
        ns = get_api()

        def command(args, ctx):
            if text.startswith("!"):
                raise InjectedError(text[1:])
            if text.startswith("?"):
                out, err = text[1:].split("|")
                return ns.CommandResult(stdout=out, stderr=err)
            if text.startswith("#"):
                return ns.CommandResult(stdout="part", stderr=text[1:], exit_code=7)
            if text.startswith("%"):
                return ns.CommandResult(stdout=text[1:], exit_code=3)
            if text == "@":
                return f"{ctx.cwd}|{ctx.env.get('V', '')}|{ctx.stdin}"
            return text

        if text == "**":
            return lambda *given: f"{len(given)} {' '.join(given[0])}"
        if text == "*":
            return lambda args: " ".join(args)
        if text == "0":
            return lambda args, ctx: None
        return command

    def add_hook(self, kind: str, prefix: str, behaviour: str, more=()) -> None:
        """Register one callable, possibly for several separate prefixes."""
        given = [prefix, *more]
        prefixes = [norm(item, self.model.cwd) for item in given]
        ident = f"{kind}{len(self.hook_specs)}"
        self.hook_specs.append((ident, kind, prefixes))
        self.recorded[ident] = []

        def write_hook(event) -> None:
            with outside():
                self.recorded[ident].append(
                    (event.path, event.content, event.version, bool(event.append))
                )
                self.world.hook_called(self, behaviour, event.path, event.content, ident)

        def path_hook(event) -> None:
            with outside():
                self.recorded[ident].append((event.path, event.event, event.content))
                self.world.hook_called(self, behaviour, event.path, event.content, ident)

        with sandboxed():
            if kind == "i":
                recorder = get_api().InboxRecorder()
                self.recorded[ident] = Inbox(recorder)
            for item in given:
                if kind == "i":
                    recorder.attach(self.vfs, item)
                elif kind == "w":
                    self.vfs.register_write_hook(item, write_hook)
                else:
                    self.vfs.register_path_hook(item, path_hook)
        hooks = self.model.write_hooks if kind == "w" else self.model.path_hooks
        hooks += [(item, ident) for item in prefixes]

    def fs_root(self, ident: str) -> str:
        return os.path.join(DISK.root, "fs", f"{self.number}-{ident}")

    def old(self, spec: dict) -> bool:
        """Did this backend exist before the process was restarted?"""
        return self.reuse is not None and spec["id"] in self.reuse

    def backend(self, spec: dict):
        ns = get_api()
        if spec["kind"] == "mem":
            if self.old(spec):
                return self.reuse[spec["id"]].inner
            return ns.Memory(initial=dict(spec.get("init") or {}))
        root = self.fs_root(spec["id"])
        if not self.old(spec):
            os.makedirs(root, exist_ok=True)
            for key, text in (spec.get("init") or {}).items():
                self.world.host_write(os.path.join(root, key), text.encode("utf-8"))
        with sandboxed():
            return ns.FS(root)

    def adapter(self, spec: dict):
        return _ADAPTER(self, spec["id"], self.backend(spec))

    def mount(self, spec: dict) -> None:
        adapter = self.adapter(spec)
        self.adapters[spec["id"]] = adapter
        with sandboxed():
            if spec.get("pol"):
                self.vfs.mount_storage(spec["path"], adapter, policy=to_policy(spec["pol"]))
            else:
                self.vfs.mount_storage(spec["path"], adapter)
        self.model_mount(spec)

    def model_mount(self, spec: dict) -> None:
        mount = Mount(spec["id"], spec["path"], spec["kind"])
        start = 0 if spec["kind"] == "mem" else 1
        if self.old(spec):
            for key, (text, version) in self.world.stored(self, mount).items():
                mount.entries[key] = [text, 1 if version is None else version]
        else:
            for key, text in (spec.get("init") or {}).items():
                mount.entries[key] = [text, start]
        directory = self.model.make_dirs(spec["path"])
        self.model.mounts = [m for m in self.model.mounts if m.prefix != spec["path"]] + [mount]
        self.known_mounts[spec["id"]] = mount
        self.model.reload(spec["path"])
        self.settle(directory, {})
        if spec.get("pol"):
            directory.policy = make_policy(**spec["pol"])

    def settle(self, directory: Node, versions: dict) -> None:
        """Adopt file versions the specification leaves to the adapter."""
        for node in directory.files():
            if "version" not in node.loose:
                continue
            node.loose.discard("version")
            with sandboxed():
                actual = self.vfs.get_version(node.path)
            if node.path in versions and actual <= versions[node.path] and self.ext_seen is True:
                mount = self.model.mount_of(node.path)
                if mount is not None and mount.key(node.path) not in mount.dropped:
                    raise Mismatch(
                        "version",
                        f"{node.path}: changed in the backend but version {versions[node.path]}"
                        f" became {actual}",
                    )
            mount = self.model.mount_of(node.path)
            node.version = actual
            if mount is not None:
                mount.entries[mount.key(node.path)][1] = actual

    # -- providers --------------------------------------------------------
    def content_provider(self, ident: str, spec: dict):
        self.providers[ident] = spec
        self.calls.setdefault(ident, 0)

        def provider(ctx):
            with outside():
                return self.world.provider_called(self, ident, spec, ctx)

        return provider

    def directory_provider(self, ident: str, spec: dict):
        def provider(ctx):
            with outside():
                return self.world.loader_called(self, ident, spec, ctx)

        return provider

    def provided(self, spec: dict) -> dict:
        """What the provider returns: for a static tree the same objects every time."""
        if '"prov"' in json.dumps(spec) or '"loader"' in json.dumps(spec):
            return self.build_provided(spec)
        return dict(self.world.same("provided", spec, self.build_provided))

    def build_provided(self, spec: dict) -> dict:
        ns = get_api()
        out = {}
        for name, item in spec.items():
            policy = to_policy(item["pol"]) if item.get("pol") else None
            if item["k"] == "f":
                provider = None
                if item.get("prov"):
                    provider = self.content_provider(item["prov"], item["pspec"])
                out[name] = ns.ProvidedNode.file(
                    content=item.get("t") if provider is None else None,
                    content_provider=provider,
                    metadata=item.get("m"),
                    policy=policy,
                )
            else:
                loader = None
                if item.get("loader"):
                    loader = self.directory_provider(item["loader"], item["spec"])
                out[name] = ns.ProvidedNode.directory(
                    children=self.provided(item["ch"]) if item.get("ch") else None,
                    directory_provider=loader,
                    metadata=item.get("m"),
                    policy=policy,
                )
        return out


class World:
    def __init__(self, config: dict) -> None:
        self.config = config
        self.stats: dict[str, int] = {}
        self.trace: list = []
        self.plan: dict = {}
        self.nest: dict | None = None
        self.depth = 0
        self.counters = {"storage": 0, "hook": 0, "provider": 0, "loader": 0}
        self.touching: list = []
        self.failures = 0
        self.hashes: set = set()
        self.outcomes: list[str] = []  # of the top-level operations, in order
        CLOCK.now = config.get("clock", 1_000_000.0)
        env.fresh_scratch()
        os.makedirs(os.path.join(DISK.root, "fs"), exist_ok=True)
        PROCESSES.handler = None
        PROCESSES.started = []
        self.real_stdout = sys.stdout
        self.real_stderr = sys.stderr
        self.current: Sandbox | None = None
        self.loading: list[str] = []
        self.undefined = False
        self.settings: dict = {}
        self.sandboxes = [
            Sandbox(self, number, spec) for number, spec in enumerate(config["sandboxes"])
        ]
        for sandbox in self.sandboxes:
            self.compare_state(sandbox, {"k": "setup"})

    # -- bookkeeping ---------------------------------------------------------
    def count(self, name: str, amount: int = 1) -> None:
        self.stats[name] = self.stats.get(name, 0) + amount

    def same(self, kind: str, value, make=None):
        """One object for equal values: applications build many shells from one setting."""
        key = kind + json.dumps(value, sort_keys=True)
        if key not in self.settings:
            self.settings[key] = (make or copy.deepcopy)(value)
        return self.settings[key]

    def reuse_settings(self) -> None:
        """The application goes on to use its own settings objects for something else."""
        for key, value in self.settings.items():
            if key.startswith("env"):
                value["V"] = "changed"
            elif key.startswith("allow"):
                value.update(BUILTINS)
            elif key.startswith("view"):
                value.clear()

    def host_write(self, path: str, data: bytes) -> None:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with env._real_open(path, "wb") as handle:
            handle.write(data)
        env._real_utime(path, ns=(CLOCK.time_ns(), CLOCK.time_ns()))

    # -- callbacks from sandfs -----------------------------------------------
    def storage_call(self, sandbox, method, after) -> None:
        plan = self.plan.get("s")
        if not after:
            self._storage_index = self.counters["storage"]
            self.counters["storage"] += 1
        if not plan or plan["at"] != self._storage_index or self.depth != 1:
            return
        kind = plan["kind"]
        if after:
            if kind == "crash-after":
                self.count("fault:crash-after-storage-" + method)
                raise SimCrash()
            return
        if kind == "crash-before":
            self.count("fault:crash-before-storage-" + method)
            raise SimCrash()
        if kind == "crash-after":
            return
        self.count(f"fault:storage-{kind}-{method}")
        sandbox.model.obs.faults += 1
        if kind == "error":
            raise InjectedError(f"backend {method} failed")
        if kind == "oserror":
            raise OSError(5, "backend unreachable")
        raise ValueError("version mismatch")

    def hook_called(self, sandbox, behaviour, path, content, ident) -> None:
        seen = sandbox.model.obs.hook_seen
        earlier = seen.get((ident, path, content), 0)
        seen[ident, path, content] = earlier + 1
        index = self.counters["hook"]
        self.counters["hook"] += 1
        if behaviour == "flaky":
            plan = self.plan.get("h")
            if plan is not None and self.depth == 1 and plan["at"] <= index:
                self.plan.pop("h")
                self.count("fault:hook-raise")
                sandbox.model.obs.hook_raised.append((path, content, earlier))
                raise injected(plan.get("exc"), "hook failed")
        if behaviour == "reenter":
            self.run_nested("hook", sandbox)

    def provider_called(self, sandbox, ident, spec, ctx) -> str:
        sandbox.calls[ident] = sandbox.calls.get(ident, 0) + 1
        index = self.counters["provider"]
        self.counters["provider"] += 1
        self.run_nested("provider", sandbox)
        obs = sandbox.model.obs
        plan = self.plan.get("p")
        if plan is not None and plan["at"] <= index and self.depth == 1:
            self.plan.pop("p")
            self.count("fault:provider-raise")
            obs.read_failed.add(ident)
            obs.faults += 1
            raise injected(plan.get("exc"), plan.get("msg", "provider failed"))
        if spec["b"] == "const":
            value = spec["t"]
        elif spec["b"] == "count":
            # changes from operation to operation, not within one
            value = f"{spec['t']} #{self.stats.get('ops', 0)}"
        elif spec["b"] == "path":
            meta = ",".join(f"{k}={ctx.metadata[k]}" for k in sorted(ctx.metadata))
            value = f"{spec['t']} {ctx.path} {meta}"
        elif spec["b"] == "read":  # a provider that reads the sandbox itself
            value = spec["t"] + " " + str(ctx.vfs is sandbox.vfs)
        else:
            raise HarnessError(spec["b"])
        expected = self.provider_node(sandbox, ident)
        if expected is not None and str(ctx.path) != expected.path:
            self.note(Mismatch("provider", f"provider of {expected.path} asked for {ctx.path}"))
        elif expected is not None and dict(ctx.metadata) != expected.meta:
            self.note(
                Mismatch(
                    "provider",
                    f"provider of {expected.path} given {dict(ctx.metadata)}, not {expected.meta}",
                )
            )
        if ctx.vfs is not sandbox.vfs:
            self.note(Mismatch("provider", "provider called without its sandbox"))
        obs.returned.setdefault(ident, []).append(value)
        return value

    def provider_node(self, sandbox, ident):
        found = [n for n in sandbox.model.root.files() if n.prov == ident]
        if len(found) == 1 and not self.relocating:
            return found[0]
        return None

    def loader_called(self, sandbox, ident, spec, ctx):
        index = self.counters["loader"]
        self.counters["loader"] += 1
        if ident in self.loading:  # consulted by what it does itself: undefined
            self.undefined = True
        self.loading.append(ident)
        try:
            self.run_nested("loader", sandbox)
        finally:
            self.loading.pop()
        obs = sandbox.model.obs
        plan = self.plan.get("l")
        if plan is not None and plan["at"] <= index and self.depth == 1:
            self.plan.pop("l")
            self.count("fault:loader-" + plan.get("kind", "raise"))
            obs.load_failed.add(ident)
            obs.faults += 1
            if plan.get("kind") == "bad-name":
                bad = sandbox.provided(spec)
                bad[plan["name"]] = get_api().ProvidedNode.file(content="evil")
                return bad
            raise injected(plan.get("exc"), plan.get("msg", "directory provider failed"))
        obs.loaded.append(ident)
        return sandbox.provided(spec)

    _noted: list | None = None
    planned: dict = {}
    host_changes: tuple | None = None
    process_argv: list = []
    process_env: dict = {}
    materialised: dict | None = None
    process_cwd = ""
    relocating = False
    _storage_index = -1

    def note(self, mismatch: Mismatch) -> None:
        if self._noted is None:
            self._noted = []
        self._noted.append(mismatch)

    def run_nested(self, where: str, sandbox: Sandbox) -> None:
        nest = self.nest
        if not nest or nest["w"] != where or self.depth != 1:
            return
        self.nest = None
        self.count("nested:" + where)
        obs = sandbox.model.obs
        obs.nested += 1
        for ident in obs.loaded:  # what the outer operation loaded by now
            self.check_load(sandbox, self.outer, ident)
        obs.loaded = []
        for op in nest["ops"]:
            self.execute(op, nested=True)

    # -- execution -----------------------------------------------------------
    def execute(self, op: dict, nested: bool = False) -> None:
        """Run one operation on both sides; raise Mismatch on disagreement."""
        from . import ops

        sandbox = self.sandboxes[op.get("sb", 0)]
        saved = (
            self.plan,
            self.nest,
            dict(self.counters),
            sandbox.model.obs,
            self.current,
            self.relocating,
            self._storage_index,
        )
        self.depth += 1
        previous_events = {ident: len(seen) for ident, seen in sandbox.recorded.items()}
        model_events = len(sandbox.model.events)
        if not nested:
            self.count("ops")
            self.count("op:" + op["k"])
            if op.get("dt"):
                CLOCK.advance(op["dt"])
                if op["dt"] < 0:
                    self.count("fault:clock-back")
                elif op["dt"] > 3600:
                    self.count("fault:clock-jump")
            self.plan = json.loads(json.dumps(op.get("plan") or {}))
            self.planned = op.get("plan") or {}
            self.host_changes = None
            self.materialised = None
            self.nest = op.get("nest")
            self.outer = op
            for key in self.counters:
                self.counters[key] = 0
            DISK.begin(self.plan.get("d"))
            self._noted = None
        sandbox.model.obs = Obs()
        sandbox.model.now = CLOCK.now
        self.current = sandbox
        impl = ("none", None)
        self.relocating = op["k"] in ("mv", "cp", "sh", "restore", "sync", "host") or bool(
            op.get("nest") or nested
        )
        try:
            try:
                with sandboxed():
                    impl = self.attempt(ops.IMPL[op["k"]], sandbox, op)
            except SimCrash:
                self.count("crashes")
                DISK.dead = False
                ops.after_crash(self, sandbox, op)
                self.trace.append([op["k"], "crash"])
                self.outcomes.append("crash")
                return
            if DISK.dead:
                raise HarnessError("crash was swallowed")
            if self.undefined:
                self.count("ended-undefined")
                raise EndRun()
            for name in DISK.fired if not nested else []:
                self.count("fault:disk-" + name)
            sandbox.model.now = CLOCK.now
            if self._noted:
                raise self._noted[0]
            for ident in sandbox.model.obs.loaded:
                self.check_load(sandbox, op, ident)
            ops.judge(self, sandbox, op, impl, nested)
            if not nested:
                self.compare_events(sandbox, op, previous_events, model_events)
                for box in self.sandboxes:
                    try:
                        self.compare_state(box, op)
                    except Mismatch as mismatch:
                        mismatch.info["box"] = box.number
                        mismatch.info["stranger"] = box is not sandbox
                        raise
                self.compare_host(op)
                failed = impl[0] == "err" or (op["k"] == "sh" and impl[1][0] != 0)
                self.outcomes.append("err" if failed else "ok")
                self.trace.append([op["k"], impl[0], sorted(DISK.fired), sandbox.model.obs.faults])
        except Mismatch as mismatch:
            info = mismatch.info
            if "op" not in info:
                info["op"] = op
                info["failed"] = impl[0] == "err" or (op["k"] == "sh" and impl[0] == "ok" and impl[1][0] != 0)
                info["faults"] = sandbox.model.obs.faults + len(DISK.fired)
                info["hook_raised"] = bool(self.stats.get("fault:hook-raise"))
                info["nested"] = nested
                info.setdefault("box", sandbox.number)
            raise
        finally:
            (
                self.plan,
                self.nest,
                counters,
                sandbox.model.obs,
                self.current,
                self.relocating,
                self._storage_index,
            ) = saved
            self.counters.update(counters)
            self.depth -= 1

    def attempt(self, function, sandbox, op):
        try:
            return ("ok", function(sandbox, op))
        except SimCrash:
            raise
        except (HarnessError, Mismatch):
            raise
        except Exception as exc:
            self.count("refusals")
            return ("err", exc)

    def check_load(self, sandbox, op, ident) -> None:
        from . import ops

        node = sandbox.model.loaders.get(ident)
        path = node.path if node is not None and node.loader == ident else None
        if not sandbox.model.apply_load(ident):
            raise Mismatch("loads", f"directory provider of {path} consulted twice")
        self.count("loads")
        if path is not None and not ops.may_enter(sandbox, op, path):
            raise Mismatch("loads", f"{op['k']} consulted the provider of unrelated {path}")

    # -- comparison ------------------------------------------------------------
    def compare_state(self, sandbox: Sandbox, op: dict) -> None:
        vfs = sandbox.vfs
        model = sandbox.model
        with sandboxed():
            DISK.plan = None
            if str(vfs.pwd()) != model.cwd:
                raise Mismatch("cwd", f"working directory {vfs.pwd()} instead of {model.cwd}")
            stack = [(model.root, vfs.get_node("/"))]
            digest = []
            while stack:
                expected, actual = stack.pop()
                path = expected.path
                self.compare_node(sandbox, path, expected, actual)
                digest.append((path, expected.kind, expected.version))
                if expected.kind != "d" or not expected.loaded:
                    continue
                children = {child.name: child for child in actual.iter_children(vfs)}
                for name in expected.children:
                    if name not in children:
                        raise Mismatch("tree", f"{join(path, name)} is missing", path=join(path, name))
                for name, child in children.items():
                    if name not in expected.children:
                        raise Mismatch(
                            "tree", f"{join(path, name)} should not exist", path=join(path, name)
                        )
                    if str(child.path()) != join(path, name):
                        raise Mismatch("tree", f"{join(path, name)} calls itself {child.path()}")
                    stack.append((expected.children[name], child))
            for mount in sandbox.known_mounts.values():
                self.compare_mount(sandbox, mount)
        self.hashes.add(hash(tuple(sorted(digest))))

    def matches(self, sandbox: Sandbox) -> bool:
        try:
            self.compare_state(sandbox, {"k": "probe"})
        except Mismatch:
            return False
        return True

    def compare_node(self, sandbox, path, expected: Node, actual) -> None:
        ns = get_api()
        is_file = isinstance(actual, ns.VirtualFile)
        if is_file != (expected.kind == "f"):
            raise Mismatch("tree", f"{path} has the wrong kind", path=path)
        policy = from_policy(actual.policy)
        if policy != expected.policy:
            raise Mismatch("policy", f"{path}: {policy} instead of {expected.policy}", path=path)
        if dict(actual.metadata) != expected.meta:
            raise Mismatch(
                "meta", f"{path}: {dict(actual.metadata)} instead of {expected.meta}", path=path
            )
        if is_file:
            if actual.version != expected.version:
                raise Mismatch(
                    "version", f"{path}: {actual.version} instead of {expected.version}", path=path
                )
            if expected.prov is None:
                content = actual.read(sandbox.vfs)
                if content != expected.content:
                    raise Mismatch(
                        "content", f"{path}: {content!r} instead of {expected.content!r}", path=path
                    )
            if "modified" in expected.loose:
                expected.modified = actual.modified_at
                expected.loose.discard("modified")
            elif actual.modified_at != expected.modified:
                raise Mismatch(
                    "modified",
                    f"{path}: {actual.modified_at} instead of {expected.modified}",
                    path=path,
                )
        if "created" in expected.loose:
            expected.created = actual.created_at
            expected.loose.discard("created")
        elif actual.created_at != expected.created:
            raise Mismatch(
                "created", f"{path}: {actual.created_at} instead of {expected.created}", path=path
            )

    def stored(self, sandbox, mount: Mount) -> dict[str, tuple[str, int | None]]:
        """What a fresh adapter on the same backend finds."""
        inner = sandbox.adapters[mount.ident].inner
        if mount.kind == "mem":
            return {k: (e.content, e.version) for k, e in inner.list().items()}
        root = sandbox.fs_root(mount.ident)
        with sandboxed():
            plan, DISK.plan = DISK.plan, None
            listed = get_api().FS(root).list()
            DISK.plan = plan
        found: dict[str, tuple[str, int | None]] = {}
        for key, entry in listed.items():
            with env._real_open(os.path.join(root, key), "rb") as handle:
                raw = handle.read().decode("utf-8", "replace")
            found[key] = (raw if raw == entry.content else f"<{raw!r} read as {entry.content!r}>", None)
        return found

    def restart(self, sandbox: Sandbox) -> None:
        """The process died: build a fresh sandbox on the surviving backends."""
        self.count("restarts")
        shutil.rmtree(os.path.join(DISK.root, "tmp"))
        os.mkdir(os.path.join(DISK.root, "tmp"))
        number = sandbox.number
        self.sandboxes[number] = Sandbox(self, number, sandbox.config, reuse=sandbox.adapters)
        self.sandboxes[number].calls = dict(sandbox.calls)
        self.compare_state(self.sandboxes[number], {"k": "restart"})

    def compare_mount(self, sandbox, mount: Mount) -> None:
        actual = self.stored(sandbox, mount)
        for key, (content, version) in mount.entries.items():
            if key not in actual:
                raise Mismatch("storage", f"{mount.prefix}: entry {key} is missing in the backend")
            if actual[key][0] != content:
                raise Mismatch(
                    "storage",
                    f"{mount.prefix}: entry {key} holds {actual[key][0]!r} instead of {content!r}",
                )
            if actual[key][1] is not None and actual[key][1] != version:
                raise Mismatch(
                    "storage",
                    f"{mount.prefix}: entry {key} has version {actual[key][1]}, not {version}",
                )
        for key in actual:
            if key not in mount.entries:
                raise Mismatch("storage", f"{mount.prefix}: unexpected entry {key} in the backend")

    def compare_events(self, sandbox, op, previous, model_start) -> None:
        fresh = sandbox.model.events[model_start:]
        for ident, kind, prefixes in sandbox.hook_specs:
            actual: dict[str, list] = {}
            for event in sandbox.recorded[ident][previous.get(ident, 0) :]:
                actual.setdefault(event[0], []).append(event)
            expected: dict[str, list] = {}
            for what, path, content, version, append in fresh:
                if not any(under(path, prefix) for prefix in prefixes):
                    continue
                if kind == "w":
                    if what != "delete":
                        expected.setdefault(path, []).append((path, content, version, bool(append)))
                else:
                    expected.setdefault(path, []).append((path, what, content))
            if actual != expected:
                paths = sorted(set(actual) | set(expected))
                for path in paths:
                    if actual.get(path) != expected.get(path):
                        raise Mismatch(
                            "events",
                            f"hook {kind} on {'+'.join(prefixes)}: {path} got {actual.get(path, [])}"
                            f" instead of {expected.get(path, [])}",
                        )
            self.count("events", sum(len(v) for v in actual.values()))

    def compare_host(self, op: dict) -> None:
        if DISK.escapes:
            raise Mismatch("escape", f"reached outside the sandbox: {DISK.escapes[0]}")
        if sys.stdout is not self.real_stdout or sys.stderr is not self.real_stderr:
            sys.stdout, sys.stderr = self.real_stdout, self.real_stderr
            raise Mismatch("stdout", "standard output was left redirected")
        tmp = os.path.join(DISK.root, "tmp")
        left = env._real_listdir(tmp)
        if left and any(f.split("@")[-1] in ("remove", "rmdir", "scandir") for f in DISK.fired):
            shutil.rmtree(tmp)  # the disk refused the clean-up itself
            os.mkdir(tmp)
        elif left:
            raise Mismatch("tmp", f"temporary copy left behind: {len(left)} entries")


def normalise(text: str) -> str:
    return text.replace(DISK.root, "<scratch>")


__all__ = [
    "World",
    "Sandbox",
    "Mismatch",
    "InjectedError",
    "Out",
    "ShellModel",
    "render",
    "line_matches",
    "view_allows",
    "norm",
    "parent_of",
    "Refuse",
    "re",
]
