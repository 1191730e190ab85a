"""Reference model of the shell commands, on top of ``model.Model``.

A command line is a list of stages ``{"c": name, "a": [args], "i": stdin path,
"o": stdout path, "ap": append, "env": {..}}``; ``render`` turns it into text.
"""

from __future__ import annotations

import contextlib
import datetime
import fnmatch
import re
import shlex
import urllib.parse

from .model import (
    Model,
    Node,
    Refuse,
    line_matches,
    norm,
    under,
    view_allows,
    view_allows_meta,  # noqa: F401
    view_allows_path,
    view_allows_policy,
)

BUILTINS = (
    "pwd cd ls cat touch mkdir rm cp mv tree write append echo printf wc grep rg search "
    "python python3 host bash sh help stat head tail find"
).split()


def render_stage(stage: dict) -> str:
    parts = [f"{key}={shlex.quote(value)}" for key, value in (stage.get("env") or {}).items()]
    if stage.get("c") is not None:
        parts.append(shlex.quote(stage["c"]))
    parts += [shlex.quote(arg) for arg in stage.get("a", [])]
    if stage.get("i") is not None:
        parts += ["<", shlex.quote(stage["i"])]
    if stage.get("o") is not None:
        parts += [">>" if stage.get("ap") else ">", shlex.quote(stage["o"])]
    return " ".join(parts)


def render(lines: list) -> str:
    return "\n".join(" | ".join(render_stage(stage) for stage in stages) for stages in lines)


class Fail(Exception):
    """The command reports failure (non-zero exit)."""

YES = ("1", "true", "yes", "on")
RECURSIVE = ("-r", "-R", "-rf", "--recursive")


class Out:
    """Expected output: exact text, or an unordered set of lines, or anything."""

    def __init__(
        self, text: str = "", lines: set | None = None, free: bool = False, err: str = ""
    ) -> None:
        self.text = text
        self.err = err
        self.lines = lines
        self.free = free
        self.searched = False  # lines of provider-backed files are not specified
        self.repeats = False
        self.printed: list | None = None  # the lines with repetitions, for the output limit
        self.starts: list[str] | None = None  # how the lines begin


class Agent:
    def __init__(self, spec: dict) -> None:
        self.name = spec["name"]
        self.view = spec.get("view") or {}  # a shell without a view has the default one
        self.allow = spec.get("allow")
        self.limit = spec.get("limit")
        self.own_python: str | None = None  # the application's own executor, and its "base"
        self.fallback = spec.get("fallback", False)
        self.env = dict(spec.get("env") or {})
        self.extra: dict[str, str] = dict(spec.get("extra") or {})


class ShellModel:
    def __init__(self, model: Model, agent: Agent) -> None:
        self.model = model
        self.agent = agent
        self.view = agent.view
        self.ran: list[str] = []  # commands that ran, in order
        self.why = ""
        self.looking = False  # at the results of a search-view query
        self.last_path = ""  # operand the last removal or relocation worked on

    # -- visibility -----------------------------------------------------
    def visible(self, path: str) -> None:
        full = norm(path, self.model.cwd)
        if not view_allows_path(self.view, full):
            raise Refuse("hidden")
        try:
            node = self.model.resolve(full)
        except Refuse as exc:
            if exc.reason == "notfound":
                return
            raise
        if not view_allows_policy(self.view, node.policy):
            raise Refuse("hidden")
        if self.view and self.view.get("m") and node.kind == "d":
            return
        if not view_allows(self.view, node):
            raise Refuse("hidden")

    def relocatable(self, path: str) -> None:
        self.visible(path)
        if not self.view or self.view.get("x") is None:
            return
        top = self.model.resolve(path)
        self.model.enter_all(top)
        for node in top.walk():
            self.visible(node.path)

    # -- running ----------------------------------------------------------
    def run(self, lines: list) -> tuple[bool, Out]:
        """Returns (succeeded, expected stdout)."""
        out = Out("")
        for stages in lines:
            try:
                out = self.run_line(stages)
            except Refuse as exc:
                self.why = exc.reason
                return False, Out(free=True)
            except Fail as exc:
                self.why = str(exc)
                return False, Out(free=True)
        return True, out

    def expand(self, token: str, env: dict) -> str:
        return re.sub(
            r"\$(\w+)|\${([^}]+)}", lambda m: env.get(m.group(1) or m.group(2), ""), token
        )

    def run_line(self, stages: list) -> Out:
        if len(stages) == 1 and stages[0].get("c") is None:
            for key, value in stages[0]["env"].items():
                self.agent.env[key] = self.expand(value, self.agent.env)
            return Out("")
        piped = Out("")
        errors = ""
        for stage in stages:
            env = dict(self.agent.env)
            assigned = {k: self.expand(v, env) for k, v in (stage.get("env") or {}).items()}
            env.update(assigned)
            name = self.expand(stage["c"], env)
            args: list[str] = []
            for arg in stage.get("a", []):
                arg = self.expand(arg, env)
                if any(ch in arg for ch in "*?[]"):
                    found = self.model.glob(arg, self.view)
                    args.extend(found or [arg])
                else:
                    args.append(arg)
            stdin = piped
            if stage.get("i") is not None:
                stdin = Out(self.one_file(self.expand(stage["i"], env)))
            if name not in BUILTINS and name not in self.agent.extra:
                if not self.agent.fallback:
                    raise Fail("unknown")
            if self.agent.allow is not None and name not in self.agent.allow:
                raise Fail("disallowed")
            self.ran.append(name)
            out = self.command(name, args, stdin, env)
            if name in BUILTINS or name in self.agent.extra:
                self.limit(out, out.err)  # a fallback process is limited by what the line prints
            errors += out.err
            out.err = ""  # not passed on through the pipe
            if stage.get("o") is not None:
                if out.free or out.lines is not None:
                    raise HarnessShape("redirect of unordered output")
                target = self.expand(stage["o"], env)
                self.no_search(target)
                self.visible(target)
                self.model.write(target, out.text, append=bool(stage.get("ap")))
                out = Out("")
            piped = out
        self.limit(piped, errors)
        piped.err = errors
        return piped

    def limit(self, out: Out, errors: str) -> None:
        if self.agent.limit is None or out.free:
            return
        lines = out.printed if out.printed is not None else out.lines
        text = "\n".join(lines) if lines is not None else out.text
        if len((text + errors).encode("utf-8", "replace")) > self.agent.limit:
            raise Fail("limit")

    def extra(self, text: str, args: list[str], stdin: Out, env: dict) -> Out:
        """Commands registered by the application."""
        if text.startswith(("!", "#", "%")):
            raise Fail({"#": "exit 7", "%": "exit 3"}.get(text[0], "extra command failed"))
        if text.startswith("?"):
            out, err = text[1:].split("|")
            return Out(out, err=err)
        if text == "@":
            if stdin.free or stdin.lines is not None:
                return Out(free=True)
            return Out(f"{self.model.cwd}|{env.get('V', '')}|{stdin.text}")
        if text == "**":  # takes the context too
            return Out(f"2 {' '.join(args)}")
        if text == "*":
            return Out(" ".join(args))
        return Out("" if text == "0" else text)

    def command(self, name: str, args: list[str], stdin: Out, env: dict) -> Out:
        if name in self.agent.extra:
            return self.extra(self.agent.extra[name], args, stdin, env)
        if name not in BUILTINS:
            return self.host([name, *args], None, stdin, env)
        self.env = env
        return getattr(self, "cmd_" + name)(args, stdin)

    # -- search view ---------------------------------------------------------
    def search_path(self, arg: str):
        """Split ``/@search?q=TEXT[&ignore_case=1][&path=/x][/nav]``."""
        prefix = self.model.search_prefix
        if prefix is not None and self.model.cwd == "/" and not arg.startswith("/"):
            arg = "/" + arg
        if prefix is None or not arg.startswith(prefix + "?"):
            return None
        tail = arg[len(prefix) + 1 :]
        nav = None
        if "&path=" in tail:
            tail, _, scope = tail.partition("&path=")
        else:
            scope = None
            if "/" in tail:
                tail, nav = tail.split("/", 1)
        query = {"q": "", "path": norm(scope) if scope is not None else None}
        for item in tail.split("&"):
            key, _, value = item.partition("=")
            if key == "q":
                query["q"] = urllib.parse.unquote_plus(value)
            elif key == "ignore_case":
                query["icase"] = value in YES
            elif key == "regex":
                query["regex"] = value in YES
        return query, nav

    @contextlib.contextmanager
    def scope(self, arg: str):
        """What ``arg`` names while it is being looked at: a query fills the search view."""
        parsed = self.search_path(arg)
        if parsed is None:
            yield arg
            return
        query, nav = parsed
        prefix = self.model.search_prefix
        top = self.model.resolve(prefix)
        found: dict[str, list[str]] = {}
        for path, number, line in sorted(self.model.search(query, self.view)):
            found.setdefault(path, []).append(f"{path}:{number}:{line}")
        for path, lines in found.items():
            source = self.model.resolve(path)
            node = top
            *between, name = path.split("/")[1:]
            for part in between:
                node = self.shown(node, part, "d", source)
            self.shown(node, name, "f", source).content = "\n".join(lines)
        self.looking = True
        try:
            yield prefix + ("/" + nav if nav else "")
        finally:
            self.looking = False
            top.children.clear()

    def shown(self, parent: Node, name: str, kind: str, source: Node) -> Node:
        node = parent.children.get(name)
        if node is None:
            node = Node(name, kind, self.model.now, parent)
            node.policy, node.meta = source.policy, source.meta
            node.loose = {"t"}
            parent.children[name] = node
        return node

    def no_search(self, arg: str) -> None:
        if self.search_path(arg) is not None:
            raise Fail("search view")

    def cmd_host(self, args, stdin):
        args = list(args)
        path = None
        while len(args) > 1 and args[0] in ("-p", "-C", "--path"):
            path, args = args[1], args[2:]
        if args and args[0] in ("-p", "-C", "--path"):
            raise Fail("usage")
        if args and args[0] == "--":
            args = args[1:]
        if not args:
            raise Fail("usage")
        return self.host(args, path, stdin, self.env)

    def cmd_bash(self, args, stdin):
        return self.host(["bash", *args], None, stdin, self.env)

    def cmd_sh(self, args, stdin):
        return self.host(["sh", *args], None, stdin, self.env)

    def cmd_python(self, args, stdin):
        """Snippets start from the same globals and builtins every time."""
        if not args:
            raise Fail("usage")
        code = " ".join(args[1:] if args[0] == "-c" and len(args) > 1 else args)
        printed = ""
        for step in code.split("; "):
            text, _, rest = step.partition("(")
            words = re.findall(r"'([^']*)'", rest)
            if step in ("print(zz)", "print(given)", "import os", "x = (") or text in ("raise ValueError", "open"):
                raise Fail("snippet")
            elif step == "print(len((5, 7)))":
                printed += "7\n" if "update(len=max)" in code else "2\n"
            elif step in ("print(double(4))", "print(base)"):
                if self.agent.own_python is None:
                    raise Fail("snippet")
                printed += "8\n" if "double" in step else self.agent.own_python + "\n"
            elif step == "print(vfs + fs)":
                printed += "15\n"
            elif step == "print(vfs.pwd())":
                printed += self.model.cwd + "\n"
            elif step == "print(vfs is fs)":
                printed += "True\n"
            elif text == "print" and rest.startswith("fs.read_file"):
                printed += self.model.read(words[0]) + "\n"
            elif text == "print":
                printed += words[0] + "\n"
            elif text in ("vfs.write_file", "vfs.append_file"):
                self.model.write(words[0], words[1], append="append" in text)
            elif text == "vfs.remove":
                self.last_path = words[0]
                self.model.remove(words[0], False)
            elif not re.match(r"(zz|vfs|fs) = |__builtins__", step):
                raise HarnessShape(code)
        return Out(printed)

    cmd_python3 = cmd_python
    host = None  # set by the harness: (argv, path, stdin, env) -> Out

    # -- commands ------------------------------------------------------------
    def cmd_pwd(self, args, stdin):
        return Out(self.model.cwd)

    def cmd_cd(self, args, stdin):
        if len(args) != 1:
            raise Fail("usage")
        self.visible(args[0])
        return Out(self.model.cd(args[0]))

    def cmd_ls(self, args, stdin):
        long = "-l" in args or "--long" in args
        targets = [a for a in args if a not in ("-l", "--long")] or [self.model.cwd]
        if any(a.startswith("-") for a in targets):
            if self.agent.fallback:
                return self.host(["ls", *args], None, stdin, self.env)
            raise Fail("usage")
        blocks = []
        for position, target in enumerate(targets):
            with self.scope(target) as place:
                self.visible(place)
                node = self.model.resolve(place)
                if node.kind == "f":
                    self.model.readable(node)
                    if not view_allows(self.view, node):
                        raise Refuse("hidden")
                    found = [node]
                else:
                    found = self.model.ls(place, self.view)
                if len(targets) > 1:
                    blocks.append(f"{target}:")
                if long:
                    blocks.append("\n".join(f"{n.kind if n.kind == 'd' else '-'} {n.path}" for n in found))
                else:
                    blocks.append("  ".join(n.name + ("/" if n.kind == "d" else "") for n in found))
        return Out("\n".join(b for b in blocks if b))

    def one_file(self, path: str) -> str:
        with self.scope(path) as place:
            self.visible(place)
            return self.model.read(place)

    def cmd_cat(self, args, stdin):
        if not args or args == ["-"]:
            return stdin
        return Out("".join(stdin.text if a == "-" else self.one_file(a) for a in args))

    def cmd_touch(self, args, stdin):
        if not args:
            raise Fail("usage")
        for path in args:
            self.no_search(path)
            self.visible(path)
            self.model.touch(path)
        return Out("")

    def cmd_mkdir(self, args, stdin):
        parents = "-p" in args or "--parents" in args
        paths = [a for a in args if a not in ("-p", "--parents")]
        if not paths:
            raise Fail("usage")
        for path in paths:
            self.no_search(path)
            self.visible(path)
            self.model.mkdir(path, parents, parents)
        return Out("")

    def cmd_rm(self, args, stdin):
        recursive = any(a in RECURSIVE for a in args)
        paths = [a for a in args if a not in RECURSIVE]
        if not paths:
            raise Fail("usage")
        for path in paths:
            self.no_search(path)
            self.visible(path)
            self.last_path = path
            self.model.remove(path, recursive)
        return Out("")

    def cmd_cp(self, args, stdin):
        recursive = any(a in RECURSIVE for a in args)
        operands = [a for a in args if a not in RECURSIVE]
        if len(operands) != 2:
            raise Fail("usage")
        for operand in operands:
            self.no_search(operand)
        self.relocatable(operands[0])
        self.visible(operands[1])
        self.last_path = operands[1]
        self.model.copy(operands[0], operands[1], recursive)
        return Out("")

    def cmd_mv(self, args, stdin):
        if len(args) != 2:
            raise Fail("usage")
        for operand in args:
            self.no_search(operand)
        self.relocatable(args[0])
        self.visible(args[1])
        self.last_path = args[0]
        self.model.move(args[0], args[1])
        return Out("")

    def cmd_write(self, args, stdin):
        if not args:
            raise Fail("usage")
        self.no_search(args[0])
        self.visible(args[0])
        words = [a for a in args[1:] if a not in ("--append", "--text")]
        self.model.write(args[0], " ".join(words), append="--append" in args)
        return Out("")

    def cmd_append(self, args, stdin):
        if len(args) < 2:
            raise Fail("usage")
        self.no_search(args[0])
        self.visible(args[0])
        self.model.write(args[0], " ".join(args[1:]), append=True)
        return Out("")

    def cmd_tree(self, args, stdin):
        if args:
            with self.scope(args[0]) as place:
                self.visible(place)
                return Out(self.model.tree(place, self.view))
        return Out(self.model.tree(self.model.cwd, self.view))

    def cmd_echo(self, args, stdin):
        if args and args[0] == "-n":
            return Out(" ".join(args[1:]))
        return Out(" ".join(args) + "\n")

    def cmd_printf(self, args, stdin):
        if not args:
            return Out("")
        text = args[0]
        if text.count("%s") == len(args) - 1 == text.count("%"):
            for value in args[1:]:
                text = text.replace("%s", value, 1)
        elif "%" in text or len(args) > 1:
            return Out(free=True)
        return Out(text.replace("\\n", "\n").replace("\\t", "\t"))

    def cmd_help(self, args, stdin):
        out = Out(free=True)
        out.starts = [f"  {name}" for name in [*BUILTINS, *self.agent.extra]]
        return out

    def cmd_wc(self, args, stdin):
        texts = [
            (stdin.text if a == "-" else self.one_file(a), a) for a in args if a not in ("-l", "-c")
        ]
        flags = [a for a in args if a in ("-l", "-c")]
        if not texts:
            texts = [(stdin.text, None)]
        rows = []
        for text, label in texts:
            row = []
            if "-l" in flags or not flags:
                row.append(str(len(text.splitlines())))
            if "-c" in flags or not flags:
                row.append(str(len(text.encode("utf-8"))))
            if label:
                row.append(label)
            rows.append(" ".join(row))
        return Out("\n".join(rows))

    def cmd_head(self, args, stdin):
        return self.part(args, stdin, lambda lines, n: lines[:n])

    def cmd_tail(self, args, stdin):
        return self.part(args, stdin, lambda lines, n: lines[-n:] if n else [])

    def part(self, args, stdin, cut):
        count = 10
        args = list(args)
        letters = False
        if args and args[0] in ("-n", "-c"):
            if len(args) < 2 or not args[1].isdigit():
                raise Fail("usage")
            letters = args[0] == "-c"
            count = int(args[1])
            args = args[2:]

        def show(text: str) -> str:
            return "".join(cut(text if letters else text.splitlines(keepends=True), count))

        if len(args) < 2:
            return Out(show(self.one_file(args[0]) if args and args[0] != "-" else stdin.text))
        blocks = []
        for position, path in enumerate(args):
            text = stdin.text if path == "-" else self.one_file(path)
            blocks += [f"==> {path} <==", show(text)]
            if position < len(args) - 1:
                blocks.append("")
        return Out("\n".join(blocks))

    def cmd_stat(self, args, stdin):
        if not args:
            raise Fail("usage")
        with self.scope(args[0]) as place:
            self.visible(place)
            return self.status(self.model.resolve(place))

    def status(self, node):
        size = 0
        if node.kind == "f":
            size = len(self.model.value(node))
        out = Out(free=True)
        if self.model.uncertain(node) and not self.looking:
            return out
        kind = "regular file" if node.kind == "f" else "directory"
        born, changed = (
            datetime.datetime.fromtimestamp(when).strftime("%Y-%m-%d %H:%M:%S")
            for when in (node.created, node.modified)
        )
        out.starts = [f"  File: {node.path}", f"  Size: {size:<10} Type: {kind}"]
        if node.kind == "f" and not node.loose:
            out.starts += [f"  Vers: {node.version:<10} ", f" Birth: {born}", f"Modify: {changed}"]
        return out

    def cmd_find(self, args, stdin):
        args = list(args)
        pattern = kind = None
        paths = []
        while args:
            token = args.pop(0)
            if token.startswith("-") and (token not in ("-name", "-type") or not args):
                raise Fail("usage")
            if token == "-name":
                pattern = args.pop(0)
            elif token == "-type":
                kind = args.pop(0)
                if kind not in "fd":
                    raise Fail("usage")
            else:
                paths.append(token)
        found: list[str] = []
        for path in paths or [self.model.cwd]:
            with self.scope(path) as place:
                self.visible(place)
                top = self.model.resolve(place)
                for node in self.walk_visible(top):
                    if kind and kind != node.kind:
                        continue
                    if pattern and not fnmatch.fnmatch(node.name, pattern):
                        continue
                    found.append(node.path)
        out = Out(lines=set(found))
        out.printed = found
        out.repeats = len(paths) > 1
        return out

    def walk_visible(self, node: Node):
        if not view_allows(self.view, node):
            return
        yield node
        if node.kind == "d":
            self.model.enter(node)
            for child in node.children.values():
                yield from self.walk_visible(child)

    def grep_options(self, args):
        query = {"q": None}
        recursive = numbers = False
        paths = []
        for token in args:
            if token in RECURSIVE:
                recursive = True
            elif token in ("-i", "--ignore-case"):
                query["icase"] = True
            elif token in ("-n", "--line-number"):
                numbers = True
            elif token == "--no-line-number":
                numbers = None
            elif token in ("-e", "--regex"):
                query["regex"] = True
            elif query["q"] is None:
                query["q"] = token
            else:
                paths.append(token)
        if query["q"] is None:
            raise Fail("usage")
        return query, recursive, numbers, paths

    def cmd_grep(self, args, stdin):
        query, recursive, numbers, paths = self.grep_options(args)
        lines: list[str] = []
        if not paths:
            hits = [
                (f"{n}:" if numbers else "") + line
                for n, line in enumerate(stdin.text.splitlines(), 1)
                if line_matches(query, line)
            ]
            return Out("\n".join(hits))
        for path in paths:
            if path == "-":
                lines += [
                    (f"{n}:" if numbers else "") + line
                    for n, line in enumerate(stdin.text.splitlines(), 1)
                    if line_matches(query, line)
                ]
                continue
            with self.scope(path) as place:
                for node in self.grep_files(place, recursive):
                    for number, line in enumerate(self.model.value(node).splitlines(), 1):
                        if line_matches(query, line):
                            lines.append(
                                f"{node.path}:{number}:{line}" if numbers else f"{node.path}:{line}"
                            )
        out = Out(lines=set(lines))
        out.printed = lines
        out.repeats = True
        return out

    def grep_files(self, path, recursive):
        self.visible(path)
        top = self.model.resolve(path)
        self.model.readable(top)
        if top.kind == "f":
            files = [top]
        elif recursive:
            self.model.enter_all(top)
            files = list(top.files())
        else:
            self.model.enter(top)
            files = [c for c in top.children.values() if c.kind == "f"]
        return [n for n in files if n.policy["r"] and view_allows(self.view, n)]

    def cmd_rg(self, args, stdin):
        return self.cmd_grep(["-r", *args], stdin)

    def cmd_search(self, args, stdin):
        query, _, numbers, paths = self.grep_options(args)
        lines: list[str] = []
        for path in paths or [self.model.cwd]:
            query["path"] = norm(path, self.model.cwd)
            for found, number, line in self.model.search(query, self.view):
                lines.append(f"{found}:{line}" if numbers is None else f"{found}:{number}:{line}")
        out = Out(lines=set(lines))
        out.printed = lines
        out.searched = True
        out.repeats = len(paths) > 1 or numbers is None
        return out


class HarnessShape(Exception):
    """The generator produced a line the shell model does not define."""
