"""Operations: how each runs on the real sandfs and what the model expects."""

from __future__ import annotations

import contextlib
import os
import re
import shutil
from pathlib import PurePosixPath

from . import env
from .env import DISK, PROCESSES, HarnessError, outside, sandboxed
from .model import (
    Model,
    Node,
    Refuse,
    clashing,
    join,
    make_policy,
    norm,
    parent_of,
    under,
    view_allows,
)
from .shellmodel import HarnessShape, Out, ShellModel, render
from .universe import (
    EndRun,
    InjectedError,
    Mismatch,
    Sandbox,
    World,
    from_policy,
    get_api,
    to_policy,
    to_view,
)

SIDE = "/side"
TOKEN = re.compile(r"tok\d+x")


# ---------------------------------------------------------------------------
# running on the implementation
# ---------------------------------------------------------------------------
def _view(op):
    return to_view(op.get("v"))


def i_write(box, op):
    kwargs = {}
    if "ev" in op:
        kwargs["expected_version"] = op["ev"]
    if op.get("ap") and op.get("via") != "write":
        node = box.vfs.append_file(op["p"], op["t"], **kwargs)
    else:
        node = box.vfs.write_file(op["p"], op["t"], append=bool(op.get("ap")), **kwargs)
    return str(node.path()), node.version


def i_touch(box, op):
    return str(box.vfs.touch(op["p"]).path())


def i_mkdir(box, op):
    kwargs = {name: True for key, name in (("par", "parents"), ("ok", "exist_ok")) if op.get(key)}
    return str(box.vfs.mkdir(op["p"], **kwargs).path())


def i_rm(box, op):
    if op.get("rec"):
        box.vfs.remove(op["p"], recursive=True)
    else:
        box.vfs.remove(op["p"])


def i_mv(box, op):
    box.vfs.move(op["p"], op["q"])


def i_cp(box, op):
    if op.get("rec"):
        box.vfs.copy(op["p"], op["q"], recursive=True)
    else:
        box.vfs.copy(op["p"], op["q"])


def i_cd(box, op):
    return box.vfs.cd(op["p"])


def i_read(box, op):
    return box.vfs.read_file(op["p"])


def i_ls(box, op):
    return [
        (e.name, str(e.path), e.is_dir, dict(e.metadata), from_policy(e.policy))
        for e in box.vfs.ls(op["p"], view=_view(op))
    ]


def i_glob(box, op):
    kwargs = {"cwd": op["p"]} if op.get("p") else {}
    return list(box.vfs.glob(op["pat"], view=_view(op), **kwargs))


def i_tree(box, op):
    return box.vfs.tree(op["p"], view=_view(op))


def i_exists(box, op):
    return box.vfs.exists(op["p"]), box.vfs.is_dir(op["p"]), box.vfs.is_file(op["p"])


def i_version(box, op):
    return box.vfs.get_version(op["p"])


def i_walk(box, op):
    ns = get_api()
    return [
        (str(path), "d" if isinstance(node, ns.VirtualDirectory) else "f")
        for path, node in box.vfs.walk(op["p"])
    ]


def i_iterf(box, op):
    return [str(p) for p, _ in box.vfs.iter_files(op["p"], recursive=bool(op.get("rec")))]


def i_policy(box, op):
    box.vfs.set_policy(op["p"], to_policy(op["pol"]))
    return from_policy(box.vfs.get_policy(op["p"]))


def i_polmut(box, op):
    """The application changes the policy object of one node in place."""
    policy = box.vfs.get_policy(op["p"])
    for key, name in (("r", "readable"), ("w", "writable"), ("a", "append_only"), ("c", "classification")):
        if key in op["pol"]:
            setattr(policy, name, op["pol"][key])
    if "p" in op["pol"]:
        policy.principals.clear()
        policy.principals.update(op["pol"]["p"])


def i_meta(box, op):
    box.vfs.get_node(op["p"]).metadata.update(op["m"])


def i_snap(box, op):
    return box.vfs.snapshot()


def i_restore(box, op):
    if not box.snapshots:
        return "nothing"
    box.vfs.restore(box.snapshots[op["i"] % len(box.snapshots)][0])


def i_sync(box, op):
    box.vfs.sync_storage(op["p"])


def i_ext(box, op):
    """Something else changes the backend."""
    with outside():
        mount = next((m for m in box.model.mounts if m.ident == op["m"]), None)
        if mount is None:
            return "nothing"
        adapter = box.adapters[op["m"]]
        key = op["key"]
        if mount.kind == "mem":
            inner = adapter.inner
            if op.get("t") is None:
                inner.delete(key)
            else:
                current = inner.list().get(key)
                inner.write(key, op["t"], version=current.version if current else 0)
                return inner.list()[key].version
        else:
            full = os.path.join(box.fs_root(mount.ident), key)
            if op.get("t") is None:
                if os.path.isfile(full):
                    os.unlink(full)
            else:
                if os.path.isdir(full) or any(
                    os.path.isfile(os.path.join(box.fs_root(mount.ident), *key.split("/")[:n]))
                    for n in range(1, len(key.split("/")))
                ):
                    return "nothing"
                box.world.host_write(full, op["t"].encode("utf-8"))
        return 0


def i_mountf(box, op):
    provider = box.content_provider(op["id"], {"b": op["b"], "t": op["t"]})
    return str(box.vfs.mount_file(op["p"], provider, metadata=op.get("m")).path())


def i_mountd(box, op):
    provider = box.directory_provider(op["id"], op["spec"])
    return str(box.vfs.mount_directory(op["p"], provider, metadata=op.get("m")).path())


def _query(op):
    return get_api().SearchQuery(
        query=op["q"],
        regex=bool(op.get("regex")),
        ignore_case=bool(op.get("icase")),
        path_prefix=op.get("path"),
    )


def i_search(box, op):
    return [(str(r.path), r.line_no, r.line_text) for r in box.vfs.search(_query(op), view=_view(op))]


def i_sview(box, op):
    """Read the whole search view through the API; optionally search another view inside."""
    out = []
    with box.vfs.search_view_context(_query(op), view=_view(op)):
        for path, node in box.vfs.iter_files("/@search"):
            out.append((str(path)[len("/@search") :], node.read(box.vfs)))
    return out


def i_index(box, op):
    if not op.get("own"):
        return isinstance(box.vfs.enable_full_text_index(), get_api().Index)
    index = get_api().Index()  # the application's own, with something outdated in it
    index.index_file(PurePosixPath(op["own"]), "tok0x alpha outdated\n")
    return box.vfs.enable_full_text_index(index) is index


def i_pyrun(box, op):
    """A snippet run by the application with a value of its own."""
    executor = box.executor or get_api().PythonExecutor(box.vfs)
    given = {"given": op["t"]}
    result = executor.run("print(given, vfs is fs); mine = given; del given", extra_globals=given)
    kept = sorted(name for name in result.globals if not name.startswith("_"))
    return result.stdout, result.globals.get("mine"), kept, given


def i_viewon(box, op):
    box.vfs.enable_search_view()


def i_export(box, op):
    target = os.path.join(DISK.root, "out", "export")
    with outside():
        for rel, text in (op.get("pre") or {}).items():  # from an earlier export
            box.world.host_write(os.path.join(target, rel), text.encode("utf-8"))
    if op["p"] is None:
        return str(box.vfs.export_to_path(target))
    return str(box.vfs.export_to_path(target, source=op["p"]))


class BodyError(Exception):
    pass


def i_mat(box, op):
    world = box.world
    try:
        with box.vfs.materialize(*([] if op["p"] is None else [op["p"]])) as root:
            with outside():
                world.materialised = read_host(str(root))
            if op.get("raise"):
                raise BodyError("body failed")
    except BodyError:
        return "body"
    return "ok"


def i_sh(box, op):
    shell = box.shells[op["a"]]
    PROCESSES.handler = make_process(box, op)
    try:
        result = shell.exec(op.get("raw") or render(op["lines"]))
    finally:
        PROCESSES.handler = None
    if not isinstance(result, get_api().CommandResult):
        raise Mismatch("raise", f"exec returned {type(result).__name__}")
    return result.exit_code, result.stdout, result.stderr


def i_fresh(box, op):
    """A fresh sandbox on the same backends."""
    ns = get_api()
    out = {}
    for mount in box.model.mounts:
        vfs = ns.VFS()
        inner = box.adapters[mount.ident].inner
        if mount.kind == "fs":
            inner = ns.FS(box.fs_root(mount.ident))
        vfs.mount_storage("/z", inner)
        out[mount.ident] = {
            str(path)[3:]: (node.read(vfs), node.version) for path, node in vfs.iter_files("/z")
        }
    return out


def i_hook(box, op):
    box.add_hook(op["h"], op["p"], op["b"], op.get("more", ()))


def i_settings(box, op):
    box.world.reuse_settings()


def i_mount(box, op):
    with outside():
        adapter = box.adapter(op["spec"])
    kwargs = {"policy": to_policy(op["spec"]["pol"])} if op["spec"].get("pol") else {}
    directory = box.vfs.mount_storage(op["p"], adapter, **kwargs)
    box.adapters[op["spec"]["id"]] = adapter
    return str(directory.path())


IMPL = {name[2:]: value for name, value in list(globals().items()) if name.startswith("i_")}


# ---------------------------------------------------------------------------
# expectations
# ---------------------------------------------------------------------------
def x_write(world, box, op, model):
    node = model.write(op["p"], op["t"], append=bool(op.get("ap")), expected=op.get("ev"))
    return node.path, node.version


def x_touch(world, box, op, model):
    model.touch(op["p"])
    return norm(op["p"], model.cwd)


def x_mkdir(world, box, op, model):
    model.mkdir(op["p"], bool(op.get("par")), bool(op.get("ok")))
    return norm(op["p"], model.cwd)


def x_rm(world, box, op, model):
    model.remove(op["p"], bool(op.get("rec")))


def x_mv(world, box, op, model):
    model.move(op["p"], op["q"])


def x_cp(world, box, op, model):
    model.copy(op["p"], op["q"], bool(op.get("rec")))


def x_cd(world, box, op, model):
    return model.cd(op["p"])


def x_read(world, box, op, model):
    return model.read(op["p"])


def x_ls(world, box, op, model):
    return [
        (n.name, n.path, n.kind == "d", dict(n.meta), n.policy) for n in model.ls(op["p"], op.get("v"))
    ]


def x_glob(world, box, op, model):
    return model.glob(op["pat"], op.get("v"), op.get("p"))


def x_tree(world, box, op, model):
    return model.tree(op["p"], op.get("v"))


def x_exists(world, box, op, model):
    node = model.find(op["p"])
    return node is not None, node is not None and node.kind == "d", node is not None and node.kind == "f"


def x_version(world, box, op, model):
    return model.resolve_file(op["p"]).version


def x_walk(world, box, op, model):
    top = model.resolve(op["p"])
    model.enter_all(top)
    return [(n.path, n.kind) for n in top.walk()]


def x_iterf(world, box, op, model):
    top = model.resolve(op["p"])
    model.readable(top)
    if top.kind == "f":
        return [top.path]
    if op.get("rec"):
        model.enter_all(top)
        return [n.path for n in top.files()]
    model.enter(top)
    return [n.path for n in top.children.values() if n.kind == "f"]


def x_policy(world, box, op, model):
    node = model.resolve(op["p"])
    node.policy = make_policy(**op["pol"])
    return node.policy


def x_polmut(world, box, op, model):
    node = model.resolve(op["p"])
    policy = dict(node.policy)
    policy.update(op["pol"])
    node.policy = make_policy(**policy)


def x_meta(world, box, op, model):
    node = model.resolve(op["p"])
    node.meta = {**node.meta, **op["m"]}


def x_snap(world, box, op, model):
    return model.snapshot()


def x_restore(world, box, op, model):
    if not box.snapshots:
        return "nothing"
    model.restore(box.snapshots[op["i"] % len(box.snapshots)][1])


def x_sync(world, box, op, model):
    if not any(m.prefix == norm(op["p"], model.cwd) for m in model.mounts):
        raise Refuse("invalid")
    if model.bad_layout(op["p"]):
        raise Refuse("invalid")
    versions = {n.path: n.version for n in model.resolve_dir(op["p"]).files()}
    model.reload(norm(op["p"], model.cwd))
    box.settle(model.resolve_dir(op["p"]), versions)


def x_ext(world, box, op, model):
    mount = next((m for m in model.mounts if m.ident == op["m"]), None)
    if mount is None:
        return "nothing"
    box.ext_seen = True
    if op.get("t") is None:
        mount.entries.pop(op["key"], None)
        mount.dropped.add(op["key"])
    else:
        parts = op["key"].split("/")
        if mount.kind == "fs" and (
            any("/".join(parts[:n]) in mount.entries for n in range(1, len(parts)))
            or os.path.isdir(os.path.join(box.fs_root(mount.ident), op["key"]))
        ):
            return "nothing"
        old = mount.entries.get(op["key"])
        mount.entries[op["key"]] = [op["t"], (old[1] if old else 0) + 1]
        if mount.kind == "mem":
            return mount.entries[op["key"]][1]
    return 0


def x_mountf(world, box, op, model):
    target = norm(op["p"], model.cwd)
    if target == "/":
        raise Refuse("invalid")
    parent = model.root
    parts = target.split("/")[1:]
    for part in parts[:-1]:
        model.enter(parent)
        child = parent.children.get(part)
        if child is None:
            break
        if child.kind != "d":
            raise Refuse("invalid")
        parent = child
    else:
        model.enter(parent)
    node = model.find(target)
    if node is not None and node.kind != "f":
        raise Refuse("invalid")
    if node is None:
        parent = model.make_dirs(parent_of(target))
        node = Node(parts[-1], "f", model.now, parent)
        parent.children[parts[-1]] = node
    node.prov = op["id"]
    node.supplied = False
    if op.get("m"):
        node.meta = {**node.meta, **op["m"]}
    return target


def x_mountd(world, box, op, model):
    model.mkdir(op["p"], True, True)
    node = model.resolve_dir(op["p"])
    model.attach_loader(node, op["id"], op["spec"])
    if op.get("m"):
        node.meta = {**node.meta, **op["m"]}
    return node.path


def x_search(world, box, op, model):
    return model.search({**op}, op.get("v"))


def x_sview(world, box, op, model):
    found: dict[str, list[str]] = {}
    for path, number, line in sorted(model.search({**op}, op.get("v"))):
        found.setdefault(path, []).append(f"{path}:{number}:{line}")
    return {path: "\n".join(lines) for path, lines in found.items()}


def x_index(world, box, op, model):
    model.index = True
    return True
    # Everything reachable was read by the rebuild: supplied text is now certain.


def x_pyrun(world, box, op, model):
    kept = ["base"] if box.executor is not None else []
    return f"{op['t']} True\n", op["t"], [*kept, "fs", "mine", "vfs"], {"given": op["t"]}


def x_viewon(world, box, op, model):
    model.mkdir("/@search", True, True)
    model.search_prefix = "/@search"


def x_fresh(world, box, op, model):
    if any(clashing(m.entries) for m in model.mounts):
        raise Refuse("invalid")
    return {
        m.ident: {
            key: (content, version if m.kind == "mem" else 1)
            for key, (content, version) in m.entries.items()
        }
        for m in model.mounts
    }


def x_hook(world, box, op, model):
    prefix = norm(op["p"], model.cwd)
    more = [norm(item, model.cwd) for item in op.get("more", ())]
    box.config.setdefault("hooks", []).append([op["h"], prefix, op["b"], *more])


def x_settings(world, box, op, model):
    pass


def x_mount(world, box, op, model):
    path = norm(op["p"], model.cwd)
    if model.bad_layout(path, replaced=True):
        raise Refuse("invalid")
    model.mkdir(path, True, True)
    if any(n.loader and not n.loaded for n in parents_of(model.resolve_dir(path))):
        raise Refuse("not-asked")
    spec = {**op["spec"], "path": path}
    box.model_mount(spec)
    box.config.setdefault("mounts", []).append(spec)
    return path


EXPECT = {name[2:]: value for name, value in list(globals().items()) if name.startswith("x_")}

WHOLE = ("walk", "iterf", "glob", "tree", "search", "sview", "ls")


def keep(path: str) -> bool:
    return not under(path, SIDE)


def same_value(world: World, box: Sandbox, op: dict, value, expected) -> bool:
    kind = op["k"]
    model = box.model
    nested = model.obs.nested > 0
    if kind in ("write", "touch", "mkdir", "cd", "ls", "version", "exists", "policy", "ext", "mount", "mountf", "mountd", "index"):
        return value == expected
    if kind == "read":
        return value == expected
    if kind == "tree":
        if nested and under(SIDE, norm(op["p"], model.cwd)):
            return True
        return value == expected
    if kind == "glob":
        if nested:
            value = [p for p in value if keep(p)]
            expected = [p for p in expected if keep(p)]
        return sorted(value) == sorted(expected)
    if kind == "walk":
        if nested:
            value = [p for p in value if keep(p[0])]
            expected = [p for p in expected if keep(p[0])]
        seen = set()
        for path, _ in value:
            if seen and parent_of(path) not in seen:
                return False
            seen.add(path)
        return sorted(value) == sorted(expected)
    if kind == "iterf":
        if nested:
            value = [p for p in value if keep(p)]
            expected = [p for p in expected if keep(p)]
        return sorted(value) == sorted(expected)
    if kind == "search":
        unsure = {n.path for n in model.root.files() if model.uncertain(n)}
        value = [v for v in value if v[0] not in unsure]
        if nested:
            value = [v for v in value if keep(v[0])]
            expected = {v for v in expected if keep(v[0])}
        return len(value) == len(set(value)) and set(value) == set(expected)
    if kind == "sview":
        unsure = {n.path for n in model.root.files() if model.uncertain(n)}
        value = [v for v in value if v[0] not in unsure]
        if nested:
            value = [v for v in value if keep(v[0])]
            expected = {path: text for path, text in expected.items() if keep(path)}
        if len({v[0] for v in value}) != len(value):
            return False
        got = {path: sorted(text.split("\n")) for path, text in value}
        want = {path: sorted(text.split("\n")) for path, text in expected.items()}
        return got == want
    if kind == "fresh":
        return value == expected
    return True


# ---------------------------------------------------------------------------
# judging
# ---------------------------------------------------------------------------
def judge(world: World, box: Sandbox, op: dict, impl, nested: bool) -> None:
    kind = op["k"]
    if kind == "sh":
        return judge_shell(world, box, op, impl)
    if kind in ("export", "mat"):
        return judge_export(world, box, op, impl)
    model = box.model
    if kind in ("sync", "mount", "mountf", "mountd", "crash"):
        model.cwd_loose = model.cwd != "/"
    obs = model.obs
    ns = get_api()
    fault = obs.faults or (DISK.fired and not nested)
    fired = DISK.fired[0] if DISK.fired else ""
    if impl[0] == "err" and fault:
        adopt_after_failure(world, box, op)
        failed = obs.read_failed or obs.load_failed
        if failed and not obs.hook_raised and kind != "rm":
            message = (world.planned.get("p") or world.planned.get("l") or {}).get("msg")
            if not isinstance(impl[1], ns.SandboxError):
                raise Mismatch("provider", f"{kind}: provider failure surfaced as {impl[1]!r}")
            if message and message not in str(impl[1]):
                raise Mismatch("provider", f"{kind}: error {impl[1]!r} does not name the cause")
        return
    try:
        expected = ("ok", EXPECT[kind](world, box, op, model))
    except Refuse as exc:
        expected = ("no", exc.reason)
    if expected[0] == "no":
        reason = expected[1]
        if impl[0] == "ok":
            aspect = {"not-asked": "loads", "hook": "hookerr", "conflict": "conflict"}.get(reason, "result")
            raise Mismatch(
                aspect, f"{describe(op)} was accepted, should be refused ({reason})", reason=reason
            )
        if reason == "partial":
            adopt_removal(world, box, op["p"])
        elif reason != "hook" and not isinstance(impl[1], ns.SandboxError):
            if not isinstance(impl[1], (OSError, ValueError, InjectedError)):
                raise Mismatch("result", f"{describe(op)} failed with {impl[1]!r}", reason=reason)
        return
    if impl[0] == "err":
        raise Mismatch(
            "result",
            f"{describe(op)} was refused ({type(impl[1]).__name__}: {env_free(impl[1])})"
            + (f" after {fired}" if fired else ""),
            reason="refused",
        )
    if kind == "snap":
        box.snapshots.append((impl[1], expected[1], directory_times(box)))
        return
    if kind == "restore" and expected[1] != "nothing":
        box.restored = True
        was = box.snapshots[op["i"] % len(box.snapshots)][2]
        now = directory_times(box)
        for path in was:
            if path != model.search_prefix and now.get(path, was[path]) != was[path]:
                raise Mismatch("modified", f"{path}: restored with {now[path]}, was {was[path]}", path=path)
    if not same_value(world, box, op, impl[1], expected[1]):
        raise Mismatch("answer", f"{describe(op)} answered {clip(impl[1])}, not {clip(expected[1])}")


def directory_times(box: Sandbox) -> dict:
    """The modification times of the directories in the tree."""
    out = {}
    stack = [(box.model.root, None)]
    with sandboxed():
        stack = [(box.model.root, box.vfs.get_node("/"))]
        while stack:
            node, actual = stack.pop()
            if node.kind != "d" or not isinstance(actual, get_api().VirtualDirectory):
                continue
            out[node.path] = actual.modified_at
            if node.loaded:
                found = {child.name: child for child in actual.iter_children(box.vfs)}
                stack += [(child, found.get(child.name)) for child in node.children.values()]
    return out


def env_free(exc) -> str:
    return clip(str(exc).replace(DISK.root, "<scratch>"))


def clip(value, size: int = 400) -> str:
    text = value if isinstance(value, str) else repr(value)
    text = text.replace(DISK.root, "<scratch>")
    return text if len(text) <= size else text[:size] + "…"


def describe(op: dict) -> str:
    skip = {"plan", "nest", "dt", "sb"}
    return " ".join(f"{k}={v!r}" if k != "k" else str(v) for k, v in op.items() if k not in skip)


def adopt_after_failure(world: World, box: Sandbox, op: dict) -> None:
    if op["k"] == "rm" and op.get("rec"):
        adopt_removal(world, box, op["p"])
    elif op["k"] == "mv":
        adopt_versions(world, box, op["p"])
    elif op["k"] == "cp":
        adopt_versions(world, box, op["q"])


def adopt_versions(world: World, box: Sandbox, path: str) -> None:
    """Entries put back after a failed directory move start again at version 1."""
    model = box.model
    if not model.obs.faults and not DISK.fired:
        return
    node = model.find_quiet(path)
    for item in node.files() if node is not None else ():
        mount = model.mount_of(item.path)
        if mount is None or mount.key(item.path) not in mount.entries:
            continue
        with sandboxed():
            try:
                actual = box.vfs.get_version(item.path)
            except Exception:
                continue
        if actual == 1 and item.version != 1:
            item.version = 1
            mount.entries[mount.key(item.path)][1] = 1


def adopt_removal(world: World, box: Sandbox, path: str) -> None:
    """A recursive removal may stop between whole, unprotected entries."""
    model = box.model
    top = model.find_quiet(path)
    if top is None:
        return
    vfs = box.vfs
    gone = []
    with sandboxed():
        plan, DISK.plan = DISK.plan, None
        for item in list(top.walk()):
            if any(n.loader and not n.loaded for n in parents_of(item)):
                continue
            if not exists_quiet(vfs, item):
                gone.append(item)
        DISK.plan = plan
    missing = {id(item) for item in gone}
    model.cwd_loose = model.cwd_loose or under(model.cwd, norm(path, model.cwd))
    for item in reversed(gone):
        if not item.policy["w"] or item.policy["a"]:
            raise Mismatch("protected", f"{item.path} was removed against its policy")
        parent = item.parent
        if parent is not None and (not parent.policy["w"] or parent.policy["a"]):
            raise Mismatch("protected", f"{item.path} was removed from a protected directory")
        if any(id(child) not in missing for child in item.children.values()):
            raise Mismatch("tree", f"{item.path} vanished with entries in it")
        if item.kind == "f":
            model.storage_drop(item.path)
            model.event("delete", item.path, None)
    for item in gone:
        item.parent.children.pop(item.name, None)
    model.obs.hook_pending = 0
    world.count("partial-removals")


def parents_of(item: Node):
    node = item.parent
    while node is not None:
        yield node
        node = node.parent


def exists_quiet(vfs, item: Node) -> bool:
    node = vfs.get_node("/")
    for part in item.path.split("/")[1:]:
        if part == "":
            continue
        children = {c.name: c for c in node.iter_children(vfs)} if hasattr(node, "iter_children") else {}
        node = children.get(part)
        if node is None:
            return False
    return True


def may_enter(box: Sandbox, op: dict, path: str) -> bool:
    """May this operation consult the directory provider of ``path``?"""
    if box.model.index:
        return True
    kind = op["k"]
    if kind in ("sh", "snap", "restore", "index", "export", "mat", "search", "sview", "glob"):
        return True
    strict = kind in (
        "write",
        "touch",
        "read",
        "exists",
        "version",
        "policy",
        "polmut",
        "meta",
        "mkdir",
        "mountf",
        "mountd",
    )
    for key in ("p", "q"):
        if op.get(key) is None:
            continue
        target = norm(op[key], box.model.cwd)
        if target != path and under(target, path):
            return True
        if not strict and (target == path or (kind not in ("ls", "cd") and under(path, target))):
            return True
    return False


# ---------------------------------------------------------------------------
# exports
# ---------------------------------------------------------------------------
def read_host(root: str) -> dict:
    """Relative path -> bytes, None for directories, ("link", target) for links."""
    found: dict = {}
    for directory, names, files in os.walk(root):
        for name in names + files:
            full = os.path.join(directory, name)
            rel = os.path.relpath(full, root)
            if os.path.islink(full):
                found[rel] = ("link", os.readlink(full))
            elif os.path.isdir(full):
                found[rel] = None
            else:
                with env._real_open(full, "rb") as handle:
                    found[rel] = handle.read()
    return found


def expected_export(model: Model, top: Node) -> dict:
    want: dict = {}
    base = top.path.rstrip("/")
    model.enter_all(top)
    for node in top.walk():
        if node is top:
            continue
        rel = node.path[len(base) + 1 :]
        if node.kind == "d":
            want[rel] = None
        elif node.prov is not None:
            values = model.obs.returned.get(node.prov)
            if not values:
                raise Refuse("provider" if node.prov in model.obs.read_failed else "not-asked")
            want[rel] = [value.encode("utf-8") for value in values]
        elif not encodable(node.content):
            raise Refuse("unencodable")
        else:
            want[rel] = node.content.encode("utf-8")
    return want


def encodable(text: str) -> bool:
    try:
        text.encode("utf-8")
    except UnicodeEncodeError:
        return False
    return True


def compare_export(got: dict, want: dict, what: str) -> None:
    for rel in sorted(set(got) | set(want)):
        if rel not in got:
            raise Mismatch("export", f"{what}: {rel} is missing on the host")
        if rel not in want:
            raise Mismatch("export", f"{what}: unexpected {rel} on the host")
        value = want[rel]
        if isinstance(value, list):
            if got[rel] not in value:
                raise Mismatch("export", f"{what}: {rel} is {got[rel]!r}")
        elif got[rel] != value:
            raise Mismatch("export", f"{what}: {rel} is {got[rel]!r}, not {value!r}")


def judge_export(world: World, box: Sandbox, op: dict, impl) -> None:
    model = box.model
    target = os.path.join(DISK.root, "out", "export")
    try:
        if impl[0] == "err":
            if model.obs.faults or DISK.fired:
                return
            try:
                top = model.resolve_dir(op["p"] or model.cwd)
                expected_export(model, top)
            except Refuse:
                return
            raise Mismatch("export", f"{describe(op)} failed: {impl[1]!r}")
        try:
            top = model.resolve_dir(op["p"] or model.cwd)
            want = expected_export(model, top)
        except Refuse as exc:
            raise Mismatch("export", f"{describe(op)} succeeded despite {exc.reason}") from None
        if op["k"] == "export":
            for rel, text in (op.get("pre") or {}).items():
                want.setdefault(rel, text.encode("utf-8"))
                while "/" in rel:
                    rel = rel.rsplit("/", 1)[0]
                    want.setdefault(rel, None)
            compare_export(read_host(target), want, "export")
        else:
            compare_export(world.materialised or {}, want, "materialize")
    finally:
        if os.path.isdir(target):
            shutil.rmtree(target)
        others = os.path.join(DISK.root, "out")
        left = os.listdir(others) if os.path.isdir(others) else []
        if left:
            raise Mismatch("escape", f"export wrote {left} beside its target")


# ---------------------------------------------------------------------------
# host processes
# ---------------------------------------------------------------------------
def make_process(box: Sandbox, op: dict):
    spec = op.get("proc")
    world = box.world

    def handler(popen, phase, stdin):
        world.count("processes")
        if spec is None:
            raise FileNotFoundError(2, "No such file or directory", popen._argv[0])
        if phase == "start":
            if spec.get("errno"):
                world.count("fault:process-start")
                raise OSError(spec["errno"], os.strerror(spec["errno"]))
            return None
        cwd = os.path.realpath(str(popen.kwargs.get("cwd") or ""))
        tmp = os.path.join(DISK.root, "tmp") + "/"
        if not cwd.startswith(tmp):
            world.note(Mismatch("escape", f"process started in {cwd}"))
            return 1, b"", b"bad cwd"
        root = tmp + cwd[len(tmp) :].split("/")[0]
        before = read_host(root)
        world.materialised = before
        world.process_cwd = cwd[len(root) :] or "/"
        world.process_stdin = stdin
        world.process_inherits = popen.kwargs.get("stdin") is None
        world.process_argv = [word.replace(root, "<copy>") for word in popen._argv]
        world.process_env = dict(popen.kwargs.get("env") or {})
        for step in spec.get("acts", []):
            if step["a"] == "die":
                break
            with contextlib.suppress(OSError):
                act(world, root, step)
        after = {rel: data for rel, data in read_host(root).items() if not isinstance(data, tuple)}
        world.host_changes = (before, after)
        world.run_nested("proc", box)
        if spec.get("code"):
            world.count("fault:process-exit")
        return spec.get("code", 0), spec.get("out", "").encode(), spec.get("err", "").encode()

    return handler


def act(world: World, root: str, step: dict) -> None:
    full = root + step["p"]
    kind = step["a"]
    if kind == "w":
        if os.path.islink(full):
            os.unlink(full)
        elif os.path.isdir(full):
            shutil.rmtree(full)
        world.host_write(full, step["t"].encode("utf-8") if "t" in step else bytes.fromhex(step["x"]))
    elif kind == "ap":
        with env._real_open(full, "rb") as handle:
            old = handle.read()
        world.host_write(full, old + step["t"].encode("utf-8"))
    elif kind == "ln":
        if os.path.isdir(full):
            return
        if os.path.lexists(full):
            os.unlink(full)
        os.symlink(step["to"] or os.path.basename(full), full)
    elif kind == "rm":
        os.unlink(full)
    elif kind == "mkdir":
        if os.path.lexists(full) and not os.path.isdir(full):
            os.unlink(full)
        os.makedirs(full)
    elif kind == "rmtree":
        shutil.rmtree(full)
    elif kind == "mv":
        if not holds_link(full):  # elsewhere it may point to something
            os.rename(full, root + step["q"])
    else:
        raise HarnessError(kind)


def holds_link(full: str) -> bool:
    return os.path.islink(full) or any(
        os.path.islink(os.path.join(where, name)) for where, names, files in os.walk(full) for name in names + files
    )


def apply_host(model: Model, before: dict, after: dict) -> None:
    """What the process did, applied within the sandbox's policies."""
    failure: Refuse | None = None
    removed = [p for p in before if p not in after or (after[p] is None) != (before[p] is None)]
    for rel in sorted(removed, key=lambda p: (-p.count("/"), p)):
        path = "/" + rel
        node = model.find(path)
        if node is None or (node.kind == "d" and node.children):
            continue
        try:
            model.remove(path)
        except Refuse as exc:
            failure = failure or exc
    for rel in sorted(after, key=lambda p: p.split("/")):
        if rel in before and before[rel] == after[rel]:
            continue
        path = "/" + rel
        try:
            if after[rel] is None:
                model.mkdir(path, True, True)
            else:
                model.write(path, after[rel].decode("utf-8", "ignore"))
        except Refuse as exc:
            failure = failure or exc
    if failure is not None:
        raise failure


# ---------------------------------------------------------------------------
# shell
# ---------------------------------------------------------------------------
def allowed_tokens(box: Sandbox, agent, seen: set) -> None:
    for node in box.model.root.files():
        if not node.policy["r"] or not view_allows(agent.view, node):
            continue
        if node.prov is not None:
            seen.update(TOKEN.findall(box.providers[node.prov]["t"]))
        else:
            seen.update(TOKEN.findall(node.content))


def judge_shell(world: World, box: Sandbox, op: dict, impl) -> None:
    agent = box.agents[op["a"]]
    model = box.model
    if impl[0] == "err":
        raise Mismatch("raise", f"exec raised {impl[1]!r}")
    code, stdout, stderr = impl[1]
    text = op.get("raw") or render(op["lines"])
    known = set(TOKEN.findall(text))
    for value in agent.env.values():
        known.update(TOKEN.findall(value))
    for value in agent.extra.values():
        known.update(TOKEN.findall(value))
    if op.get("proc"):
        known.update(TOKEN.findall(op["proc"].get("out", "") + op["proc"].get("err", "")))
    for value in (world.planned.get("p") or {}, world.planned.get("l") or {}):
        known.update(TOKEN.findall(value.get("msg", "")))
    allowed_tokens(box, agent, known)
    shell = ShellModel(model, agent)
    disk_fault = code != 0 and any(not name.startswith("short") for name in DISK.fired)

    def host(argv, path, stdin, env):
        target = norm(path or model.cwd, model.cwd)
        shell.visible(target)
        spec = op.get("proc")
        if spec is None or spec.get("errno"):
            raise Refuse("host")
        if world.host_changes is None:
            raise Refuse("host")
        if disk_fault and world.matches(box):
            raise Refuse("host")  # reading the results failed: nothing was applied
        if world.process_cwd != target:
            raise Mismatch("host", f"process ran in {world.process_cwd}, not {target}")
        if stdin.lines is None and not stdin.free and text_of(world.process_stdin) != stdin.text:
            raise Mismatch("host", f"process read {world.process_stdin!r}, not {stdin.text!r}")
        if world.process_inherits:
            raise Mismatch("host", "process reads the standard input of the application")
        check_argv(world, model, argv)
        for key, value in env.items():
            if world.process_env.get(key) != value:
                raise Mismatch(
                    "host", f"process got {key}={world.process_env.get(key)!r}, not {value!r}"
                )
        before, after = world.host_changes
        world.host_changes = None
        want = expected_export(model, model.root)
        if model.obs.nested:
            before_view = {k: v for k, v in before.items() if keep("/" + k)}
            want = {k: v for k, v in want.items() if keep("/" + k)}
        else:
            before_view = before
        compare_export(before_view, want, "host copy")
        apply_host(model, before, after)
        if spec.get("code"):
            raise Refuse("exit")
        return Out(spec.get("out", ""), err=spec.get("err", ""))

    shell.host = host
    if "raw" in op:
        ok, expected = None, Out(free=True)
    else:
        try:
            ok, expected = shell.run(op["lines"])
        except HarnessShape as exc:
            raise HarnessError(str(exc)) from None
    if shell.why == "partial":
        adopt_removal(world, box, shell.last_path)
    if shell.why == "storage" and shell.last_path:
        adopt_versions(world, box, shell.last_path)
    if shell.why == "not-asked" and code == 0:
        raise Mismatch(
            "loads", f"{text!r} answered without asking the provider", reason="not-asked"
        )
    what = f"[{op['a']}] {clip(text)}"
    if ok is True and code != 0:
        raise Mismatch("shell", f"{what} failed: {env_free(stderr)}")
    if ok is False and code == 0:
        raise Mismatch(
            "shell", f"{what} succeeded, should fail ({shell.why}): {clip(stdout)}", reason=shell.why
        )
    if ok is False and agent.limit is None and code != EXITS.get(shell.why, code):
        raise Mismatch("shell", f"{what} ended with {code}, not {EXITS[shell.why]}", reason=shell.why)
    if not isinstance(code, int) or not isinstance(stdout, str) or not isinstance(stderr, str):
        raise Mismatch("raise", f"{what}: malformed result")
    if code != 0 and not stderr and not stdout and not op.get("proc"):
        raise Mismatch("silent", f"{what} failed without a message")
    if agent.limit is not None:
        total = len((stdout + stderr).encode("utf-8", "replace"))
        notice = f"Output limit ({agent.limit} bytes) exceeded"
        if total > agent.limit and not (stdout == "" and code != 0 and is_notice(stderr, agent.limit)):
            raise Mismatch("limit", f"{what} returned {total} bytes, limit {agent.limit}")
        del notice
    allowed_tokens(box, agent, known)
    for token in TOKEN.findall(stdout + "\n" + stderr):
        if token not in known and not escape_hatch(op):
            raise Mismatch("leak", f"{what} output {token}, which {op['a']} may not see")
    if ok is True:
        compare_output(world, box, what, stdout, expected)
        if stderr != expected.err:
            raise Mismatch("shell", f"{what} reported {clip(stderr)}, not {clip(expected.err)}")


EXITS = {"exit 3": 3, "exit 7": 7, "unknown": 127}


def check_argv(world: World, model: Model, argv: list[str]) -> None:
    """Paths of the sandbox name the copy; everything else arrives as it was written."""

    def place(path: str) -> str | None:
        full = norm(path, model.cwd)
        parent = model.find_quiet(parent_of(full)) if full != "/" else None
        known = model.find_quiet(full) is not None
        if known or (parent is not None and parent.kind == "d" and parent is not model.root):
            return full
        return None

    def mapped(word: str) -> str:
        option, mark, path = word.rpartition("=") if word.startswith("--") else ("", "", word)
        full = place(path) if path.startswith("/") else None
        if full is not None and (mark or model.find_quiet(full) or re.fullmatch(r"[\w./-]+", path, re.A)):
            word = f"{option}{mark}<copy>{full}"
        return word

    want = [
        mapped(word) if word.startswith("/") else " ".join(mapped(part) for part in word.split(" "))
        for word in argv
    ]
    got = [tidy(word) for word in world.process_argv]
    if got != [tidy(word) for word in want]:
        raise Mismatch("host", f"process was started with {got}, not {want}")


def tidy(word: str) -> str:
    if word.startswith("<copy>"):
        return "<copy>" + norm(word[6:])
    return word


def text_of(data) -> str:
    return data.decode("utf-8", "replace") if isinstance(data, bytes) else data or ""


def is_notice(text: str, limit: int) -> bool:
    return len(text) <= 120 and str(limit) in text


def escape_hatch(op: dict) -> bool:
    if op.get("proc"):
        return True
    names = {"python", "python3", "host", "bash", "sh"}
    return any(stage.get("c") in names for line in op.get("lines", []) for stage in line)


def compare_output(world, box, what, stdout, expected: Out) -> None:
    if expected.starts is not None:
        found = stdout.split("\n")
        for begin in expected.starts:
            if not any(line.startswith(begin) for line in found):
                raise Mismatch("output", f"{what} printed {clip(stdout)}, without {begin!r}")
    if expected.free:
        return
    model = box.model
    if expected.lines is None:
        if stdout != expected.text:
            raise Mismatch("output", f"{what} printed {clip(stdout)}, not {clip(expected.text)}")
        return
    got = [line for line in stdout.split("\n") if line != ""]
    want = set(expected.lines)
    if expected.searched:
        unsure = [n.path + ":" for n in model.root.files() if model.uncertain(n)]
        got = [line for line in got if not any(line.startswith(p) for p in unsure)]
    if model.obs.nested:
        got = [line for line in got if not line.startswith(SIDE)]
        want = {line for line in want if not line.startswith(SIDE)}
    if len(got) != len(set(got)) and not expected.repeats:
        raise Mismatch("output", f"{what} printed a line twice: {clip(stdout)}")
    if set(got) != want:
        raise Mismatch("output", f"{what} printed {clip(stdout)}, not {clip(sorted(want))}")


# ---------------------------------------------------------------------------
# crashes
# ---------------------------------------------------------------------------
def after_crash(world: World, box: Sandbox, op: dict) -> None:
    """Only the backends survive; check them against what was acknowledged."""
    model = box.model
    kind = op["k"]
    allowed: dict[tuple[str, str], list] = {}  # (mount, key) -> acceptable contents, None = absent
    pairs: list[tuple] = []

    def slot(path):
        mount = model.mount_of(path)
        return (mount.ident, mount.key(path)) if mount is not None else None

    def permit(path, *contents):
        where = slot(path)
        if where is not None:
            allowed.setdefault(where, []).extend(contents)

    if kind == "write":
        node = model.find_quiet(op["p"])
        old = node.content if node is not None and node.kind == "f" and op.get("ap") else ""
        permit(norm(op["p"], model.cwd), old + op["t"])
    elif kind == "touch":
        permit(norm(op["p"], model.cwd), "")
    elif kind == "rm":
        node = model.find_quiet(op["p"])
        for item in node.files() if node is not None else ():
            permit(item.path, None)
    elif kind in ("mv", "cp"):
        node = model.find_quiet(op["p"])
        if node is not None:
            try:
                parent, name, _ = model.destination(norm(op["q"], model.cwd), node.name)
                new = join(parent.path, name)
            except Refuse:
                new = None
            if new is not None:
                for item in node.files():
                    fresh = new + item.path[len(node.path) :]
                    texts = [item.content] if item.prov is None else model.obs.returned.get(item.prov, [])
                    permit(fresh, *texts)
                    if kind == "mv":
                        permit(item.path, None)
                        where = slot(item.path)
                        mount = model.mount_of(item.path)
                        if where is not None and where[1] in mount.entries:
                            pairs.append((where, slot(fresh), item.content))
    reuse = {}
    for mount in model.mounts:
        actual = world.stored(box, mount)
        keys = set(actual) | set(mount.entries) | {k for i, k in allowed if i == mount.ident}
        for key in sorted(keys):
            now = actual[key][0] if key in actual else None
            before = mount.entries[key][0] if key in mount.entries else None
            if now == before or now in allowed.get((mount.ident, key), ["\0never"]):
                continue
            raise Mismatch(
                "durability",
                f"{describe(op)} interrupted: {mount.prefix}/{key} holds {now!r};"
                f" before {before!r}, acceptable {allowed.get((mount.ident, key))!r}",
            )
        reuse[mount.ident] = actual
    for source, target, content in pairs:
        if source is None or target is None:
            continue
        there = source[1] in reuse[source[0]] or target[1] in reuse[target[0]]
        if not there:
            raise Mismatch("durability", f"{describe(op)} interrupted: {source[1]} is in neither place")
    if any(clashing(entries) for entries in reuse.values()):
        raise EndRun()  # another client left a layout no sandbox can mount
    world.restart(box)
