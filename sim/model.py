"""Reference model: a small sequential filesystem with policies, mounts and hooks.

The model never imports sandfs.  Every operation either raises ``Refuse`` (and
has changed nothing) or applies its whole effect.  What providers returned and
which faults fired during the operation is passed in as an ``Obs`` record.
"""

from __future__ import annotations

import fnmatch
import re

DEFAULT_POLICY = {"r": True, "w": True, "a": False, "c": "public", "p": []}


def make_policy(**kw) -> dict:
    policy = dict(DEFAULT_POLICY)
    policy.update(kw)
    policy["p"] = sorted(policy["p"])
    return policy


class Refuse(Exception):
    def __init__(self, reason: str) -> None:
        super().__init__(reason)
        self.reason = reason


class Obs:
    """What the environment did during one operation."""

    def __init__(self) -> None:
        self.loaded: list[str] = []  # loader ids that returned
        self.load_failed: set[str] = set()
        self.returned: dict[str, list[str]] = {}  # provider id -> values returned
        self.read_failed: set[str] = set()
        self.calls: dict[tuple[str, str, str], list[bool]] = {}  # (mount, method, key) -> succeeded?
        self.faults = 0  # faults other than raising hooks that fired
        self.hook_raised: list[tuple] = []  # (path, content, nth such event) that made a hook raise
        self.hook_seen: dict[tuple, int] = {}  # (hook, path, content) -> events so far
        self.event_seen: dict[tuple, int] = {}  # (path, content) -> events of the model so far
        self.hook_pending = 0
        self.nested = 0


class Node:
    __slots__ = (
        "name parent kind content prov policy meta version created modified children loader loaded "
        "supplied loose"
    ).split()

    def __init__(self, name: str, kind: str, now: float, parent: "Node | None" = None) -> None:
        self.name = name
        self.kind = kind
        self.parent = parent
        self.content = ""
        self.prov: str | None = None
        self.policy = make_policy()
        self.meta: dict = {}
        self.version = 0
        self.created = now
        self.modified = now
        self.children: dict[str, Node] = {}
        self.loader: str | None = None
        self.loaded = True
        self.supplied = False  # came from a directory provider and was never rewritten
        self.loose: set[str] = set()  # attributes whose exact value is not specified

    @property
    def path(self) -> str:
        parts = []
        node = self
        while node.parent is not None:
            parts.append(node.name)
            node = node.parent
        return "/" + "/".join(reversed(parts))

    def walk(self):
        yield self
        for child in list(self.children.values()):
            yield from child.walk()

    def files(self):
        return (node for node in self.walk() if node.kind == "f")


def norm(path: str, cwd: str = "/") -> str:
    if path == "":
        path = cwd
    if not path.startswith("/"):
        path = cwd.rstrip("/") + "/" + path
    parts: list[str] = []
    for part in path.split("/"):
        if part in ("", "."):
            continue
        if part == "..":
            if parts:
                parts.pop()
            continue
        parts.append(part)
    return "/" + "/".join(parts)


def under(path: str, prefix: str) -> bool:
    return prefix == "/" or path == prefix or path.startswith(prefix + "/")


def parent_of(path: str) -> str:
    return path.rsplit("/", 1)[0] or "/"


def base_of(path: str) -> str:
    return path.rsplit("/", 1)[1]


def join(directory: str, name: str) -> str:
    return directory.rstrip("/") + "/" + name


class Mount:
    """Model of one storage backend as mounted at ``prefix``."""

    def __init__(self, ident: str, prefix: str, kind: str) -> None:
        self.ident = ident
        self.prefix = prefix
        self.kind = kind  # "mem" or "fs"
        self.entries: dict[str, list] = {}  # key -> [content, version]
        self.seen: dict[str, str] = {}  # fs: content the adapter last saw
        self.dropped: set[str] = set()  # keys that were absent at some time

    def key(self, path: str) -> str:
        return path[len(self.prefix.rstrip("/")) + 1 :]

    def would_conflict(self, key: str, previous: int) -> bool:
        entry = self.entries.get(key)
        if self.kind == "mem":
            return entry is not None and entry[1] != previous
        if entry is None:
            parts = key.split("/")
            if any("/".join(parts[:n]) in self.entries for n in range(1, len(parts))):
                return True  # a file is in the way of the directory
            if any(other.startswith(key + "/") for other in self.entries):
                return True
            return previous != 0
        if key not in self.seen:
            return True  # appeared meanwhile: never silently overwritten
        return self.seen[key] != entry[0] or entry[1] != previous

    def put(self, key: str, content: str, previous: int) -> None:
        self.entries[key] = [content, previous + 1]
        self.seen[key] = content

    def drop(self, key: str) -> None:
        self.entries.pop(key, None)
        self.seen.pop(key, None)
        self.dropped.add(key)


def view_allows_policy(view: dict | None, policy: dict) -> bool:
    if view is None:
        return True
    if policy["p"]:
        return view.get("p") is not None and bool(set(policy["p"]) & set(view["p"]))
    if view.get("c") is None:
        return True
    return policy["c"] in view["c"]


def view_allows_path(view: dict | None, path: str) -> bool:
    if view is None or view.get("x") is None:
        return True
    return any(under(path, prefix) or under(prefix, path) for prefix in view["x"])


def view_allows_meta(view: dict | None, meta: dict) -> bool:
    if view is None or view.get("m") is None:
        return True
    return all(meta.get(key) == value for key, value in view["m"].items())


def view_allows(view: dict | None, node: Node) -> bool:
    return (
        view_allows_policy(view, node.policy)
        and view_allows_path(view, node.path)
        and view_allows_meta(view, node.meta)
    )


def clashing(keys) -> bool:
    """Does a set of storage keys contain both ``x`` and ``x/y``?"""
    keys = set(keys)
    for key in keys:
        parts = key.split("/")
        if any("/".join(parts[:n]) in keys for n in range(1, len(parts))):
            return True
    return False


class Model:
    def __init__(self, now: float) -> None:
        self.now = now
        self.root = Node("", "d", now)
        self.cwd = "/"
        self.cwd_loose = False  # the working directory was removed or replaced
        self.mounts: list[Mount] = []
        self.write_hooks: list[tuple[str, str]] = []  # (prefix, hook id)
        self.path_hooks: list[tuple[str, str]] = []
        self.events: list[tuple] = []  # (kind, path, content, version, append)
        self.index = False
        self.search_prefix: str | None = None
        self.obs = Obs()
        self.loaders: dict[str, Node] = {}
        self.loader_specs: dict[str, dict] = {}
        self.provider_specs: dict[str, dict] = {}
        self.cause = ""  # what protected node refused the last operation

    # -- lookup ---------------------------------------------------------
    def enter(self, node: Node) -> None:
        if node.loader and not node.loaded:
            raise Refuse("provider" if node.loader in self.obs.load_failed else "not-asked")

    def resolve(self, path: str) -> Node:
        node = self.root
        for part in norm(path, self.cwd).split("/")[1:]:
            if part == "":
                continue
            if node.kind != "d":
                raise Refuse("invalid")
            self.enter(node)
            child = node.children.get(part)
            if child is None:
                raise Refuse("notfound")
            node = child
        return node

    def find(self, path: str) -> Node | None:
        try:
            return self.resolve(path)
        except Refuse as exc:
            if exc.reason == "provider":
                raise
            return None

    def find_quiet(self, path: str) -> Node | None:
        """Look a node up without caring about provider failures."""
        node: Node | None = self.root
        for part in norm(path, self.cwd).split("/")[1:]:
            if part and node is not None:
                node = node.children.get(part)
        return node

    def in_sync(self) -> bool:
        """Has the sandbox seen the current state of all its backends?"""
        for mount in self.mounts:
            for key, (content, version) in mount.entries.items():
                path = join(mount.prefix, key)
                if self.mount_of(path) is not mount:
                    continue
                node = self.find_quiet(path)
                if node is None or node.kind != "f" or node.prov is not None:
                    return False
                if node.content != content or node.version != version:
                    return False
        for node in self.root.files():
            mount = self.mount_of(node.path)
            if mount is not None and mount.key(node.path) not in mount.entries:
                return False
        return True

    def bad_layout(self, prefix: str, replaced: bool = False) -> bool:
        """Does some backend hold both ``x`` and ``x/y``?"""
        paths = set()
        for mount in self.nested_mounts(norm(prefix, self.cwd)):
            if replaced and mount.prefix == norm(prefix, self.cwd):
                continue
            paths.add(mount.prefix + "/")
            for key in mount.entries:
                path = join(mount.prefix, key)
                if self.mount_of(path) is mount:
                    paths.add(path)
        files = {p for p in paths if not p.endswith("/")}
        for path in paths:
            parts = path.rstrip("/").split("/")
            for n in range(2, len(parts) + (1 if path.endswith("/") else 0)):
                if "/".join(parts[:n]) in files:
                    return True
        return False

    def resolve_dir(self, path: str) -> Node:
        node = self.resolve(path)
        if node.kind != "d":
            raise Refuse("invalid")
        return node

    def resolve_file(self, path: str) -> Node:
        node = self.resolve(path)
        if node.kind != "f":
            raise Refuse("invalid")
        return node

    def readable(self, node: Node) -> None:
        if not node.policy["r"]:
            raise Refuse("unreadable")

    def writable(self, node: Node, append: bool = False) -> None:
        if not node.policy["w"] or (node.policy["a"] and not append):
            self.cause = node.path
            raise Refuse("policy")

    def value(self, node: Node) -> str:
        if node.prov is None:
            return node.content
        values = self.obs.returned.get(node.prov)
        if not values:
            raise Refuse("provider" if node.prov in self.obs.read_failed else "not-asked")
        spec = self.provider_specs.get(node.prov, {})
        if spec.get("b") == "path":
            meta = ",".join(f"{k}={node.meta[k]}" for k in sorted(node.meta))
            return f"{spec['t']} {node.path} {meta}"
        if spec.get("b") == "const":
            return spec["t"]
        return values[-1]

    def mount_of(self, path: str) -> Mount | None:
        best = None
        for mount in self.mounts:
            if under(path, mount.prefix) and (best is None or len(mount.prefix) > len(best.prefix)):
                best = mount
        return best

    def hooked(self, path: str) -> bool:
        return any(under(path, prefix) for prefix, _ in self.write_hooks + self.path_hooks)

    def tracked(self, path: str) -> bool:
        prefixes = [m.prefix for m in self.mounts]
        prefixes += [prefix for prefix, _ in self.write_hooks + self.path_hooks]
        return any(under(path, p) or under(p, path) for p in prefixes)

    # -- provider loads ---------------------------------------------------
    def attach_loader(self, node: Node, ident: str, spec: dict) -> None:
        node.loader = ident
        node.loaded = False
        self.loaders[ident] = node
        self.loader_specs[ident] = spec

    def apply_load(self, ident: str) -> bool:
        """A directory provider answered.  False if it had answered before."""
        node = self.loaders.get(ident)
        if node is None or node.loader != ident:
            return True
        if node.loaded:
            return False
        node.loaded = True
        self.supply(node, self.loader_specs[ident])
        return True

    def supply(self, parent: Node, spec: dict) -> None:
        for name, item in spec.items():
            if name in parent.children:
                continue
            node = Node(name, item["k"], self.now, parent)
            node.supplied = True
            node.meta = dict(item.get("m") or {})
            if item.get("pol"):
                node.policy = make_policy(**item["pol"])
            parent.children[name] = node
            if item["k"] == "f":
                if item.get("prov"):
                    node.prov = item["prov"]
                else:
                    node.content = item.get("t", "")
            else:
                if item.get("loader"):
                    self.attach_loader(node, item["loader"], item["spec"])
                if item.get("ch"):
                    self.supply(node, item["ch"])

    # -- writing ----------------------------------------------------------
    def creation_allowed(self, target: str, append: bool) -> None:
        directory = self.root
        for part in target.split("/")[1:-1]:
            self.enter(directory)
            child = directory.children.get(part)
            if child is None:
                break
            if child.kind != "d":
                raise Refuse("invalid")
            directory = child
        self.writable(directory, append)

    def make_dirs(self, path: str) -> Node:
        node = self.root
        for part in path.split("/")[1:]:
            if part == "":
                continue
            child = node.children.get(part)
            if child is None:
                child = Node(part, "d", self.now, node)
                node.children[part] = child
            node = child
        return node

    def storage_check(self, path: str, previous: int) -> None:
        mount = self.mount_of(path)
        if mount is None:
            return
        if mount.would_conflict(mount.key(path), previous):
            raise Refuse("conflict")

    def storage_put(self, path: str, content: str, previous: int) -> None:
        mount = self.mount_of(path)
        if mount is not None:
            mount.put(mount.key(path), content, previous)

    def storage_drop(self, path: str) -> None:
        mount = self.mount_of(path)
        if mount is not None:
            mount.drop(mount.key(path))

    def fault_check(self, method: str, paths) -> None:
        """Did the backend fail one of these calls?  (Outcomes are used up in order.)"""
        failed = False
        for path in paths:
            mount = self.mount_of(path)
            if mount is None:
                continue
            outcomes = self.obs.calls.get((mount.ident, method, mount.key(path)))
            if outcomes and not outcomes.pop(0):
                failed = True
        if failed:
            raise Refuse("storage")

    def write(self, path, data, append=False, expected=None) -> Node:
        target = norm(path, self.cwd)
        if target == "/":
            raise Refuse("invalid")
        previous = 0
        content = data
        kind = "create"
        node = None
        try:
            node = self.resolve(target)
        except Refuse as exc:
            if exc.reason != "notfound":
                raise
            self.creation_allowed(target, True)
        else:
            if node.kind != "f":
                raise Refuse("invalid")
            self.writable(node, append)
            previous = node.version
            kind = "update"
            if append:
                content = self.value(node) + data
        if expected is not None and expected != previous:
            raise Refuse("version")
        self.storage_check(target, previous)
        self.fault_check("write", [target])
        self.storage_put(target, content, previous)
        if node is None:
            parent = self.make_dirs(parent_of(target))
            node = Node(base_of(target), "f", self.now, parent)
            parent.children[node.name] = node
        node.content = content
        node.prov = None
        node.supplied = False
        node.version = previous + 1
        node.modified = self.now
        node.loose.discard("modified")
        self.event(kind, target, content, node.version, append)
        self.finish()
        return node

    def event(self, kind, path, content, version=None, append=False) -> None:
        self.events.append((kind, path, content, version, append))
        earlier = self.obs.event_seen.get((path, content), 0)
        self.obs.event_seen[path, content] = earlier + 1
        if (path, content, earlier) in self.obs.hook_raised:
            self.obs.hook_raised.remove((path, content, earlier))
            self.obs.hook_pending += 1

    def finish(self) -> None:
        """A raising hook makes the call fail although the change is committed."""
        if self.obs.hook_pending:
            self.obs.hook_pending = 0
            raise Refuse("hook")

    def touch(self, path) -> None:
        try:
            node = self.resolve_file(path)
        except Refuse as exc:
            if exc.reason != "notfound":
                raise
            self.write(path, "")
            return
        self.writable(node, True)
        node.modified = self.now
        node.loose.discard("modified")

    def mkdir(self, path, parents=False, exist_ok=False) -> None:
        target = norm(path, self.cwd)
        if target == "/":
            return
        try:
            node = self.resolve(target)
        except Refuse as exc:
            if exc.reason != "notfound":
                raise
            self.creation_allowed(target, False)
            if not parents:
                self.resolve_dir(parent_of(target))
            self.make_dirs(target)
            return
        if node.kind != "d":
            raise Refuse("invalid")
        if not exist_ok:
            raise Refuse("exists")

    # -- removing ---------------------------------------------------------
    def removal_blocked(self, node: Node) -> bool:
        """Whether some node of the subtree may not be removed."""
        if not node.policy["w"] or node.policy["a"]:
            return True
        parent = node.parent
        if parent is not None and (not parent.policy["w"] or parent.policy["a"]):
            return True
        if node.kind == "d" and node.loader and not node.loaded:
            if node.loader in self.obs.load_failed:
                return True
        return any(self.removal_blocked(child) for child in node.children.values())

    def check_remove(self, path, recursive) -> Node:
        target = norm(path, self.cwd)
        if target == "/":
            raise Refuse("invalid")
        node = self.resolve(target)
        if node.kind == "d":
            self.enter(node)
        self.writable(node)
        self.writable(node.parent)
        if node.kind == "d" and node.children and not recursive:
            raise Refuse("notempty")
        return node

    def detach(self, node: Node) -> None:
        del node.parent.children[node.name]

    def remove(self, path, recursive=False) -> None:
        node = self.check_remove(path, recursive)
        if self.removal_blocked(node):
            raise Refuse("partial")
        if node.kind == "d" and node.children and self.removal_interrupted(node):
            raise Refuse("partial")
        self.fault_check("delete", [item.path for item in node.files()])
        for item in node.files():
            self.storage_drop(item.path)
            self.event("delete", item.path, None)
        self.cwd_loose = self.cwd_loose or under(self.cwd, node.path)
        self.detach(node)
        self.finish()

    def removal_interrupted(self, node: Node) -> bool:
        for item in node.files():
            if (item.path, None) in [event[:2] for event in self.obs.hook_raised]:
                return True
            mount = self.mount_of(item.path)
            if mount is not None:
                if False in self.obs.calls.get((mount.ident, "delete", mount.key(item.path)), []):
                    return True
        return False

    # -- relocating ---------------------------------------------------------
    def destination(self, dest: str, name: str) -> tuple[Node, str, Node | None]:
        try:
            node = self.resolve(dest)
        except Refuse as exc:
            if exc.reason == "provider":
                raise
            parent = self.resolve_dir(parent_of(dest))
            self.writable(parent)
            if dest == "/":
                raise Refuse("invalid") from None
            return parent, base_of(dest), None
        if node.kind == "d":
            self.writable(node)
            self.enter(node)
            return node, name, None
        return node.parent, node.name, node

    def move(self, source, target) -> None:
        src = norm(source, self.cwd)
        if src == "/":
            raise Refuse("invalid")
        node = self.resolve(src)
        self.writable(node)
        self.writable(node.parent)
        parent, name, existing = self.destination(norm(target, self.cwd), node.name)
        if existing is not None:
            raise Refuse("exists")
        if node.kind == "d" and under(parent.path, src):
            raise Refuse("invalid")
        if parent is node.parent and name == node.name:
            return
        self.enter(parent)
        new = join(parent.path, name)
        transfers = []
        if self.tracked(src) or self.tracked(new):
            for item in node.walk():
                fresh = new + item.path[len(src) :]
                if item.kind == "d" and (self.tracked(item.path) or self.tracked(fresh)):
                    self.enter(item)
            for item in node.files():
                old = item.path
                fresh = new + old[len(src) :]
                if self.tracked(old) or self.tracked(fresh):
                    transfers.append((item, old, fresh, self.value(item)))
        if name in parent.children:
            raise Refuse("exists")
        for _, _, fresh, _ in transfers:
            self.storage_check(fresh, 0)
        self.fault_check("write", [fresh for _, _, fresh, _ in transfers])
        self.fault_check("delete", [old for _, old, _, _ in transfers])
        for _, old, fresh, content in transfers:
            self.storage_put(fresh, content, 0)
        for _, old, fresh, content in transfers:
            self.storage_drop(old)
        self.detach(node)
        node.name = name
        node.parent = parent
        parent.children[name] = node
        if under(self.cwd, src):
            self.cwd = new + self.cwd[len(src) :]
        for item, old, fresh, content in transfers:
            if self.mount_of(fresh):
                item.version = 1
            self.event("delete", old, None)
            self.event("create", fresh, content, item.version, False)
        for item in node.walk():
            item.supplied = item.supplied and item.kind == "d"
        self.finish()

    def clone(self, node: Node) -> Node:
        copy = Node(node.name, node.kind, self.now)
        copy.policy = make_policy(**node.policy)
        copy.meta = dict(node.meta)
        if node.kind == "f":
            copy.content = self.value(node)
        else:
            self.enter(node)
            for child in node.children.values():
                item = self.clone(child)
                item.parent = copy
                copy.children[item.name] = item
        return copy

    def copy(self, source, target, recursive=False) -> None:
        src = norm(source, self.cwd)
        node = self.resolve(src)
        if node.kind == "d" and not recursive:
            raise Refuse("invalid")
        self.readable(node)
        dest = norm(target, self.cwd)
        parent, name, replaced = self.destination(dest, node.name)
        if replaced is not None:
            self.writable(parent)
            self.writable(replaced)
        elif name in parent.children:
            raise Refuse("exists")
        if not name:
            raise Refuse("exists")
        new = join(parent.path, name)
        if node.kind == "d" and under(new, src):
            raise Refuse("invalid")
        clone = self.clone(node)
        clone.name = name
        previous = 0
        if replaced is not None and clone.kind == "f":
            previous = replaced.version
        clone.parent = parent
        fresh_files = [item for item in clone.files() if self.tracked(item.path)]
        if replaced is not None and clone.kind == "d":
            self.fault_check("delete", [new])
        hidden = None
        mount = self.mount_of(new)
        if replaced is not None and clone.kind == "d" and mount is not None:
            hidden = mount.entries.pop(mount.key(new), None)  # it goes first
        try:
            for item in fresh_files:
                self.storage_check(item.path, previous)
        finally:
            if hidden is not None:
                mount.entries[mount.key(new)] = hidden
        self.fault_check("write", [item.path for item in fresh_files])
        if replaced is not None and clone.kind == "d":
            self.storage_drop(new)
            self.event("delete", new, None)
        if replaced is not None and clone.kind == "f":
            clone.version = previous + 1
            clone.loose = {"created"}
        for item in fresh_files:
            self.storage_put(item.path, item.content, previous)
            if self.mount_of(item.path):
                item.version = previous + 1
        parent.children.pop(name, None)
        parent.children[name] = clone
        for item in fresh_files:
            kind = "update" if replaced is not None and clone.kind == "f" else "create"
            self.event(kind, item.path, item.content, item.version, False)
        self.finish()

    # -- storage --------------------------------------------------------------
    def nested_mounts(self, prefix: str) -> list[Mount]:
        return sorted(
            (m for m in self.mounts if under(m.prefix, prefix)), key=lambda m: len(m.prefix)
        )

    def reload(self, prefix: str) -> None:
        """Bring the subtree at ``prefix`` to its backends' contents."""
        directory = self.resolve_dir(prefix)
        known = {node.path: node for node in directory.walk()}
        directory.children = {}
        for mount in self.nested_mounts(prefix):
            self._stage(directory, mount.prefix, "d", known)
            for key, (content, version) in sorted(mount.entries.items()):
                path = join(mount.prefix, key)
                if self.mount_of(path) is not mount:
                    continue
                node = self._stage(directory, path, "f", known)
                changed = path not in known or known[path].kind != "f" or (
                    known[path].content != content or known[path].version != version
                )
                node.content = content
                node.version = version
                if changed and path in known:
                    node.loose = {"modified"}
                if mount.kind == "fs":
                    if mount.seen.get(key) != content:
                        node.loose = node.loose | {"version"}
                    mount.seen[key] = content
            if mount.kind == "fs":
                for key in list(mount.seen):
                    if key not in mount.entries:
                        del mount.seen[key]
        directory.loaded = True
        directory.loader = None

    def _stage(self, top: Node, path: str, kind: str, known: dict[str, Node]) -> Node:
        base = top.path.rstrip("/")
        node = top
        parts = [p for p in path[len(base) :].split("/") if p]
        for depth, part in enumerate(parts):
            last = depth == len(parts) - 1
            want = kind if last else "d"
            child = node.children.get(part)
            if child is None:
                child = Node(part, want, self.now, node)
                old = known.get(child.path)
                if old is not None and old.kind == want:
                    child.policy = old.policy
                    child.meta = old.meta
                    child.created, child.modified = old.created, old.modified
                    child.loose = set(old.loose)
                node.children[part] = child
            node = child
        return node

    # -- snapshots --------------------------------------------------------------
    def snapshot(self) -> dict:
        nodes = {}
        for node in self.root.walk():
            if node.kind == "d":
                self.enter(node)
            if self.search_prefix and node.path != self.search_prefix and under(
                node.path, self.search_prefix
            ):
                continue
            nodes[node.path] = {
                "k": node.kind,
                "t": self.value(node) if node.kind == "f" else "",
                "pol": make_policy(**node.policy),
                "m": dict(node.meta),
                "v": node.version,
                "c": node.created,
                "mod": node.modified,
                "loose": set(node.loose),
            }
        return {
            "nodes": nodes,
            "cwd": self.cwd,
            "mounts": [(m.prefix, m) for m in self.mounts],
        }

    def restore(self, snap: dict) -> None:
        self.root = Node("", "d", self.now)
        for path, state in sorted(snap["nodes"].items(), key=lambda item: item[0].count("/")):
            if path == "/":
                node = self.root
            else:
                parent = self.resolve_dir(parent_of(path))
                node = Node(base_of(path), state["k"], self.now, parent)
                parent.children[node.name] = node
            node.content = state["t"]
            node.policy = make_policy(**state["pol"])
            node.meta = dict(state["m"])
            node.version = state["v"]
            node.created, node.modified = state["c"], state["mod"]
            node.loose = set(state["loose"])
        self.mounts = [mount for _, mount in snap["mounts"]]
        self.cwd_loose = False
        self.cwd = snap["cwd"] if self.find_static(snap["cwd"]) else "/"
        self.loaders = {}
        if self.search_prefix:
            self.make_dirs(self.search_prefix)

    def find_static(self, path: str) -> Node | None:
        node: Node | None = self.root
        for part in path.split("/")[1:]:
            if part and node is not None:
                node = node.children.get(part)
        return node if node is not None and node.kind == "d" else None

    # -- queries -----------------------------------------------------------------
    def cd(self, path) -> str:
        node = self.resolve_dir(path)
        self.readable(node)
        self.cwd = node.path
        self.cwd_loose = False
        return node.path

    def read(self, path) -> str:
        node = self.resolve_file(path)
        self.readable(node)
        return self.value(node)

    def ls(self, path, view=None) -> list[Node]:
        node = self.resolve_dir(path)
        self.readable(node)
        self.enter(node)
        found = [child for child in node.children.values() if view_allows(view, child)]
        return sorted(found, key=lambda child: (child.kind != "d", child.name))

    def enter_all(self, node: Node) -> None:
        for item in node.walk():
            if item.kind == "d":
                self.enter(item)

    def glob(self, pattern, view=None, base=None) -> list[str]:
        if not pattern:
            return []
        base = norm(base, self.cwd) if base else self.cwd
        if "/" not in pattern:
            return [
                child.path
                for child in self.ls(base, view)
                if fnmatch.fnmatchcase(child.name, pattern)
            ]
        self.enter_all(self.root)
        full = pattern if pattern.startswith("/") else join(base, pattern)
        full = "/" + "/".join(p for p in full.split("/") if p not in ("", "."))
        return sorted(
            node.path
            for node in self.root.walk()
            if view_allows(view, node) and fnmatch.fnmatchcase(node.path, full)
        )

    def tree(self, path, view=None) -> str:
        top = self.resolve_dir(path)
        self.readable(top)
        lines = [top.path]

        def render(directory: Node, prefix: str) -> None:
            self.enter(directory)
            found = sorted(
                (c for c in directory.children.values() if view_allows(view, c)),
                key=lambda c: (c.kind != "d", c.name),
            )
            for position, child in enumerate(found):
                last = position == len(found) - 1
                lines.append(
                    f"{prefix}{'└──' if last else '├──'} {child.name}"
                    + ("/" if child.kind == "d" else "")
                )
                if child.kind == "d":
                    render(child, prefix + ("    " if last else "│   "))

        render(top, "")
        return "\n".join(lines)

    def search(self, query, view=None) -> set[tuple[str, int, str]]:
        """Matches in all files whose text the model knows for certain."""
        scope = norm(query.get("path") or "/", self.cwd)
        try:
            top = self.resolve(scope)
            self.readable(top)
        except Refuse as exc:
            if exc.reason == "provider":
                raise
            return set()
        found = set()
        if not self.index:
            for item in top.walk():
                if item.kind == "d" and item.path != self.search_prefix:
                    self.enter(item)
        for node in top.files():
            if not node.policy["r"] or not view_allows(view, node):
                continue
            if self.uncertain(node):
                if node.prov and not self.index:
                    self.value(node)
                continue
            for number, line in enumerate(node.content.splitlines(), 1):
                if line_matches(query, line):
                    found.add((node.path, number, line))
        return found

    def uncertain(self, node: Node) -> bool:
        if self.search_prefix and under(node.path, self.search_prefix):
            return True
        return node.prov is not None or node.supplied


def line_matches(query: dict, line: str) -> bool:
    text = query["q"]
    if query.get("regex"):
        flags = re.MULTILINE | (re.IGNORECASE if query.get("icase") else 0)
        return bool(re.search(text, line, flags))
    if query.get("icase"):
        return bool(text) and text.lower() in line.lower()
    return text in line
