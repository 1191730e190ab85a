"""Command-line sessions (C21): ``sandfs exec`` and interleaved ``sandfs shell``.

Every session is the real ``main``; an interactive one runs in a thread of its
own that hands control back whenever it waits for input, so the recorded order
of operations is the only interleaving.  The reference is a sandbox built by
hand from the documented pieces on a twin of the host directories, and, for
plain writes and removals, a map of what each host file must hold.
"""

from __future__ import annotations

import copy
import hashlib
import io
import json
import os
import random
import re
import shutil
import sys
import threading

from . import env
from .engine import Outcome, guarded
from .env import CLOCK, DISK, PROCESSES, SimCrash, outside, sandboxed
from .universe import Mismatch, get_api

QUITS = [":q", "exit", "quit", "  exit  "]
TEXTS = ["one", "two words", "zähler", "x" * 300, "tok line", "3", "", "a #b", "1; 2", "c\\d", " in ", "exit", "t\tb", "$V"]
NAMES = ["x", "y", "d/z", "d/e/w", "new", "n.tmp"]
PLACES = ["/w", "/w/in", "/data", "w2", "/a:b", "/w/"]
ROOTS = 4  # two host directories with files, one that does not exist yet, and one that is a file


def quote(text: str) -> str:
    return "'" + text + "'"


def generate(rng: random.Random, profile: dict) -> dict:
    config: dict = {
        "clock": 1_000_000.0,
        "init": [
            {name: rng.choice(TEXTS) + "\n" for name in NAMES if rng.random() < 0.6} for _ in range(2)
        ],
    }
    ops: list[dict] = []
    live: dict[int, list] = {}
    opened = 0
    for _ in range(rng.randint(*profile["ops"])):
        roll = rng.random()
        op: dict
        if roll < 0.25:
            op = {"k": "exec", **flags(rng)}
            op["c"] = command(rng, [place for place, _ in op["m"]] or ["/w"])
        elif roll < 0.38 or not live:
            op = {"k": "open", "s": opened, **flags(rng)}
            live[opened] = [place for place, _ in op["m"]] or ["/w"]
            opened += 1
        elif roll < 0.88:
            s = rng.choice(sorted(live))
            op = {"k": "line", "s": s, "c": command(rng, live[s])}
        elif roll < 0.94:
            s = rng.choice(sorted(live))
            del live[s]
            op = {"k": "end", "s": s, "how": rng.choice([*QUITS, "eof", "eof", "int", "int", "kill"])}
        else:
            op = {"k": "ext", "r": rng.randrange(3), "p": rng.choice(NAMES), "t": rng.choice(TEXTS)}
            if rng.random() < 0.3:
                op["t"] = None
        if rng.random() < 0.4:
            op["dt"] = rng.choice([0, 1, 1, 60, -30])
        if op["k"] in ("exec", "open", "line") and rng.random() < profile["faults"]:
            kind = rng.choice(["crash", "crash", "eio", "enospc", "short", "int"])
            if op["k"] != "line" and kind == "int":
                kind = "eacces"
            op["plan"] = {"at": rng.choice([0, 0, 1, 2, 3, 4, 6, 9, 14]), "kind": kind}
        if op["k"] in ("exec", "line") and rng.random() < 0.15:
            op["proc"] = rng.choice([{"code": 3, "err": "bad\n"}, {"errno": 2}, {"out": "many\n" * 5}])
        if op["k"] == "exec" and rng.random() < 0.5:
            op["argv"] = rng.choice(["sys", "last"])
        ops.append(op)
    return {"config": config, "ops": ops}


def flags(rng: random.Random) -> dict:
    """The mounts are [sandbox place, host directory] pairs."""
    count = rng.choice([0, 1, 1, 1, 2, 2, 2, 3])
    places = [rng.choice(PLACES) for _ in range(count)]
    roots = rng.sample([0, 1, 2], count)
    if count and rng.random() < 0.1:
        roots[0] = rng.choice([0, 1, 2, 3])
    out: dict = {"m": [[place, root] for place, root in zip(places, roots, strict=True)]}
    if rng.random() < 0.3:
        out["search"] = True
    if rng.random() < 0.3:
        out["host"] = True
    if rng.random() < 0.05:
        out["bad"] = rng.choice([0, 1, 2])  # where an argument that is no mount stands
    return out


def command(rng: random.Random, places: list[str]) -> str:
    def path() -> str:
        if rng.random() < 0.15:
            return rng.choice(["/free", "/free/a", "x", "d/z", "/none/x", "/tmp"])
        return rng.choice(places) + "/" + rng.choice(NAMES)

    roll = rng.random()
    text = rng.choice(TEXTS)
    if roll < 0.2:
        return f"write {path()} {quote(text)}"
    if roll < 0.3:
        return f"append {path()} {quote(text)}"
    if roll < 0.36:
        return f"rm {path()}"
    if roll < 0.42:
        return f"{rng.choice(['cp', 'mv'])} {path()} {path()}"
    if roll < 0.46:
        return f"echo {quote(text)} {rng.choice(['>', '>>'])} {path()}"
    if roll < 0.58:
        return f"cat {path()}"
    if roll < 0.66:
        return rng.choice(["pwd", "ls", "tree /", "ls -l /", "help", "env", "echo $V", "stat " + path()])
    if roll < 0.74:
        return rng.choice(["cd /", "cd ..", "cd nowhere", f"cd {rng.choice(places)}", "cd /w && pwd", "mkdir /free", "cd d"])
    if roll < 0.8:
        return rng.choice(["V=5", "V=$V$V", "V=/w/x", "cat $V", "echo $V | wc", "echo out && nosuch"])
    if roll < 0.86:
        return rng.choice(["search tok /", "ls /@search?q=tok", "grep -n tok " + path(), "rg one /", "find / -name x"])
    if roll < 0.93:
        return rng.choice(["work a b", "nosuch", "host work", "bash -c 'work'", "cat | nosuch", "touch " + path()])
    return rng.choice(["", "   ", "'open quote", "cat <", "python3 -c 'print(1); 1/0'", "python3 -c 'print(2)'", "write", "quit now", "|"])


class Console:
    """Standard input of a session: waiting for a line gives control back."""

    encoding = "utf-8"

    def __init__(self, session: "Session") -> None:
        self.session = session

    def readline(self, *_):
        return self.session.wait()

    def __iter__(self):
        return self

    def __next__(self):
        text = self.readline()
        if not text:
            raise StopIteration
        return text

    def isatty(self) -> bool:
        return False

    def flush(self) -> None:
        pass


class Session:
    """One run of ``main``."""

    def __init__(self, argv: list[str], through_sys: bool = False) -> None:
        self.argv = argv
        self.through_sys = through_sys
        self.out = io.StringIO()
        self.err = io.StringIO()
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.said: object = None  # the next input: text, or an exception to raise
        self.ended = False
        self.waiting = False
        self.code: object = "running"
        self.failure: BaseException | None = None
        self.thread = threading.Thread(target=self.body, daemon=True)
        self.thread.start()

    def body(self) -> None:
        self.go.acquire()
        try:
            if isinstance(self.said, BaseException):
                raise self.said
            with sandboxed():
                if self.through_sys:
                    keep, sys.argv = sys.argv, ["sandfs", *self.argv]
                    try:
                        get_api().main()
                    finally:
                        sys.argv = keep
                else:
                    get_api().main(list(self.argv))
            self.code = None
        except SystemExit as exc:
            self.code = exc.code
        except BaseException as exc:  # noqa: BLE001 - judged by the caller
            self.failure = exc
            self.code = "failed"
        self.ended = True
        self.back.release()

    def wait(self) -> str:
        """The session waits for its next line."""
        self.waiting = True
        active, DISK.active = DISK.active, False
        self.back.release()
        self.go.acquire()
        DISK.active = active
        self.waiting = False
        if isinstance(self.said, BaseException):
            raise self.said
        return self.said

    def turn(self, said=None) -> tuple[str, str]:
        """Let the session run until it waits again or ends."""
        self.said = said
        self.out.seek(0)
        self.out.truncate()
        self.err.seek(0)
        self.err.truncate()
        keep = sys.stdout, sys.stderr, sys.stdin
        sys.stdout, sys.stderr, sys.stdin = self.out, self.err, Console(self)
        active = DISK.active
        try:
            self.go.release()
            self.back.acquire()
        finally:
            sys.stdout, sys.stderr, sys.stdin = keep
            DISK.active = active
        if self.ended:
            self.thread.join(5)
        return self.out.getvalue(), self.err.getvalue()


class Twin:
    """The sandbox the session should be equivalent to."""

    def __init__(self, op: dict, ground: "Terminal") -> None:
        ns = get_api()
        vfs = self.vfs = ns.VFS()
        if "bad" in op:
            raise ValueError("not a mount")
        for place, root in op["m"]:
            vfs.mount_storage(place, ns.FS(ground.twin(root)), policy=ns.NodePolicy(writable=True))
        if op.get("search"):
            vfs.enable_full_text_index()
            vfs.enable_search_view()
        self.shell = ns.Shell(vfs, host_fallback=bool(op.get("host")))
        self.op = op
        self.session: Session | None = None


class Terminal:
    def __init__(self, config: dict) -> None:
        self.config = config
        self.stats: dict[str, int] = {}
        self.trace: list = []
        self.states: set = set()
        self.live: dict[int, Twin] = {}
        self.proc: dict = {}
        CLOCK.now = config["clock"]
        env.fresh_scratch()
        DISK.begin()
        for base in (self.root(3), self.twin(3)):
            self.put(os.path.dirname(base), os.path.basename(base), "no directory\n")
        for number, files in enumerate(config["init"]):
            for base in (self.root(number), self.twin(number)):
                os.makedirs(base)
                for key, text in files.items():
                    self.put(base, key, text)
        PROCESSES.handler = self.process
        PROCESSES.started = []

    def root(self, number: int) -> str:
        return os.path.join(DISK.root, "fs", f"h{number}")

    def twin(self, number: int) -> str:
        return os.path.join(DISK.root, "fs", f"t{number}")

    def count(self, name: str) -> None:
        self.stats[name] = self.stats.get(name, 0) + 1

    def put(self, base: str, key: str, text: str | None) -> None:
        full = os.path.join(base, key)
        if text is None:
            if os.path.isfile(full):
                os.unlink(full)
            return
        try:
            os.makedirs(os.path.dirname(full), exist_ok=True)
            if os.path.isdir(full):
                return
        except (FileExistsError, NotADirectoryError):
            return
        with env._real_open(full, "wb") as handle:
            handle.write(text.encode("utf-8"))
        env._real_utime(full, ns=(CLOCK.time_ns(), CLOCK.time_ns()))

    def contents(self, base: str) -> dict:
        found = {}
        for where, _, names in os.walk(base):
            for name in names:
                full = os.path.join(where, name)
                key = os.path.relpath(full, base)
                with env._real_open(full, "rb") as handle:
                    data = handle.read()
                if not re.search(r"sandfs-tmp|t\d{7}", key):
                    found[key] = data.decode("utf-8", "replace")
        return found

    def process(self, popen, phase, stdin):
        if phase == "start":
            if "errno" in self.proc:
                self.count("fault:no-process")
                raise OSError(self.proc["errno"], os.strerror(self.proc["errno"]))
            return None
        return self.proc.get("code", 0), self.proc.get("out", "worked\n").encode(), self.proc.get("err", "").encode()

    # -- one operation ---------------------------------------------------
    def execute(self, op: dict) -> None:
        self.proc = dict(op.get("proc") or {})
        kind = op["k"]
        if kind == "ext":
            for base in (self.root(op["r"]), self.twin(op["r"])):
                self.put(base, op["p"], op["t"])
            return
        if kind in ("line", "end") and op["s"] not in self.live:
            return
        before = [self.contents(self.root(n)) for n in range(ROOTS)]
        if kind == "exec":
            self.run_exec(op)
        elif kind == "open":
            self.run_open(op)
        elif kind == "line":
            self.run_line(op)
        else:
            self.run_end(op)
        if "bad" in op and os.path.isdir(self.root(2)):
            os.makedirs(self.twin(2), exist_ok=True)
        self.compare(op, before)
        state = [kind, self.trace[-1], self.contents(self.root(0)), self.contents(self.root(1))]
        self.states.add(hashlib.sha256(json.dumps(state, sort_keys=True).encode()).hexdigest()[:12])

    def argv(self, op: dict) -> list[str]:
        out = []
        for place, root in op["m"]:
            out += ["--mount", f"{self.root(root)}:{place}"]
        if "bad" in op:
            out[2 * op["bad"] : 2 * op["bad"]] = ["--mount", self.root(0)]
        if op.get("search"):
            out.append("--enable-search")
        if op.get("host"):
            out.append("--host")
        return out

    def expected(self, plan, function):
        """(status, value) of the reference under the same fault."""
        DISK.begin(plan)
        try:
            with sandboxed():
                return "ok", function()
        except (SimCrash, KeyboardInterrupt):
            return "stopped", None
        except Exception as exc:
            return "err", exc
        finally:
            DISK.dead = False
            DISK.plan = None

    def act(self, op: dict, session: Session, said=None) -> tuple[str, str]:
        DISK.begin(op.get("plan"))
        PROCESSES.started = []
        try:
            out, err = session.turn(said)
        finally:
            for name in DISK.fired:
                self.count("fault:disk-" + name)
            self.fired = list(DISK.fired)
            DISK.dead = False
            DISK.plan = None
        self.began = list(PROCESSES.started)
        PROCESSES.started = []
        if DISK.escapes:
            raise Mismatch("escape", f"{op['k']} reached {DISK.escapes[0]}")
        return self.plain(out), self.plain(err)

    def plain(self, text: str) -> str:
        text = re.sub(re.escape(DISK.root) + r"/fs/[ht](\d)", r"<host\1>", text)
        return re.sub(re.escape(DISK.root) + r"[^\s'\"]*", "<scratch>", re.sub(r"t\d{7}", "<name>", text))

    def run_exec(self, op: dict) -> None:
        argv = self.argv(op)
        argv = ["exec", op["c"], *argv] if op.get("argv") == "last" else ["exec", *argv, op["c"]]
        if op["c"].startswith("-"):
            return
        session = Session(argv, op.get("argv") == "sys")
        out, err = self.act(op, session)
        self.stray(op)
        if not session.ended:
            raise Mismatch("cli", f"exec {op['c']!r} waits for input")
        status, value = self.expected(op.get("plan"), lambda: Twin(op, self).shell.exec(op["c"]))
        self.judge(op, session, status, value, out, err)
        if status == "ok":
            if session.code != value.exit_code and not (session.code is None and value.exit_code == 0):
                raise Mismatch("cli", f"exec {op['c']!r} exits with {session.code!r}, its exit code is {value.exit_code}")
            if out != self.plain(value.stdout):
                raise Mismatch("cli", f"exec {op['c']!r} prints {out[-200:]!r}, not {value.stdout[-200:]!r}")
        self.trace.append(["exec", status, session.code if isinstance(session.code, int) else str(session.code), len(out)])

    def judge(self, op: dict, session: Session, status: str, value, out: str, err: str) -> None:
        what = f"{op['k']} {op.get('c', '')!r}"
        if status == "ok" and session.failure is not None:
            raise Mismatch("cli", f"{what} died of {session.failure!r}")
        if status == "err" and session.failure is None and session.code in (0, None, "running"):
            raise Mismatch("cli", f"{what} went on although the sandbox could not be built ({value!r})")
        if status == "err" and op["k"] != "line" and (out or ("bad" in op and self.began)):
            raise Mismatch("cli", f"{what} printed {out[-200:]!r} although the sandbox could not be built ({value!r})")
        if status == "ok" and value is not None and hasattr(value, "stderr") and err != self.plain(value.stderr):
            raise Mismatch("cli", f"{what} reports {err[-200:]!r}, not {value.stderr[-200:]!r}")

    def stray(self, op: dict) -> None:
        """Only host, bash and sh, and with --host unknown names, start processes."""
        asked = bool(re.search(r"\b(host|bash|sh)\b", op.get("c", "")))
        if self.began and not asked and not (self.live[op["s"]].op if op["k"] == "line" else op).get("host"):
            raise Mismatch("cli", f"{op['k']} {op.get('c', '')!r} started {self.began[0]} without --host")

    def prompt(self, op: dict, out: str, printed: str, cwd: str) -> None:
        rest = out[len(printed) :] if out.startswith(printed) else None
        if rest is None:
            raise Mismatch("cli", f"{op.get('c', 'start')!r} prints {out[-200:]!r}, not {printed[-200:]!r}")
        if cwd not in rest or len(rest) > len(cwd) + 4:
            raise Mismatch("cli", f"after {op.get('c', 'start')!r} the prompt is {rest!r} in {cwd}")

    def run_open(self, op: dict) -> None:
        session = Session(["shell", *self.argv(op)])
        out, err = self.act(op, session)
        self.stray({**op, "c": ""})
        status, value = self.expected(op.get("plan"), lambda: Twin(op, self))
        self.judge(op, session, status, None, out, err)
        if status == "ok":
            if session.ended:
                raise Mismatch("cli", f"the session ended at once with {session.code!r}")
            self.prompt(op, out, "", value.vfs.pwd())
            value.session = session
            self.live[op["s"]] = value
            self.count("sessions")
        elif not session.ended:
            session.turn(SimCrash())
            raise Mismatch("cli", f"the session started although the sandbox could not be built ({value!r})")
        self.trace.append(["open", status])

    def run_line(self, op: dict) -> None:
        twin = self.live[op["s"]]
        session = twin.session
        line = op["c"]
        out, err = self.act(op, session, line + "\n")
        self.stray(op)
        if line.strip() in (":q", "exit", "quit"):
            status, value = "quit", None
        else:
            status, value = self.expected(op.get("plan"), lambda: twin.shell.exec(line))
        self.judge(op, session, status, value, out, err)
        if status == "ok":
            if session.ended:
                raise Mismatch("cli", f"{line!r} ended the session with {session.code!r}")
            with sandboxed():
                cwd = twin.vfs.pwd()
            self.prompt(op, out, self.plain(value.stdout), cwd)
        elif status in ("stopped", "quit"):
            del self.live[op["s"]]
            if not session.ended:
                session.turn(SimCrash())
                raise Mismatch("cli", f"the session outlived {line!r} ({self.fired})")
            if not any(name.startswith("crash") for name in self.fired):
                self.parted(op, session)
        self.trace.append(["line", op["s"], status, getattr(value, "exit_code", None), len(out)])

    def parted(self, op: dict, session: Session) -> None:
        if session.failure is not None or session.code not in (0, None):
            raise Mismatch("cli", f"{op} ended the session with {session.failure or session.code!r}")

    def run_end(self, op: dict) -> None:
        twin = self.live.pop(op["s"])
        session = twin.session
        how = op["how"]
        said: object = {"eof": "", "int": KeyboardInterrupt(), "kill": SimCrash()}.get(how, how + "\n")
        out, err = self.act(op, session, said)
        self.count("fault:session-" + (how if how in ("eof", "int", "kill") else "quit"))
        if not session.ended:
            session.turn(SimCrash())
            raise Mismatch("cli", f"the session outlived {how!r}")
        if how != "kill":
            self.parted(op, session)
            if out.strip() or err.strip():
                raise Mismatch("cli", f"{how!r} prints {(out + err)[-200:]!r}")
        self.trace.append(["end", op["s"], how])

    # -- the host directories ----------------------------------------------
    def compare(self, op: dict, before: list[dict]) -> None:
        what = f"{op['k']} {op.get('c', '')!r} ({self.fired or 'no fault'})"
        after = [self.contents(self.root(n)) for n in range(ROOTS)]
        if os.path.isdir(self.root(3)) or os.path.getsize(self.root(3)) != 13:
            raise Mismatch("host", f"{what} changed a host file that is no mounted directory")
        for n in range(ROOTS):
            want = self.contents(self.twin(n))
            for key in sorted({*after[n], *want}):
                if after[n].get(key) != want.get(key):
                    raise Mismatch(
                        "host", f"after {what} the host file {key} holds {after[n].get(key)!r:.80}, not {want.get(key)!r:.80}"
                    )
        mounts = op["m"] if "m" in op else self.mounts_of(op)
        for n in range(ROOTS):
            if n not in [root for _, root in mounts] and after[n] != before[n]:
                raise Mismatch("host", f"{what} changed a host directory that was not mounted")
        left = env._real_listdir(os.path.join(DISK.root, "tmp"))
        if left and not self.fired:
            raise Mismatch("tmp", f"{what} left a temporary copy behind")
        if left:
            shutil.rmtree(os.path.join(DISK.root, "tmp"))
            os.mkdir(os.path.join(DISK.root, "tmp"))
        self.plainly(op, what, mounts, before, after)

    def mounts_of(self, op: dict) -> list:
        twin = self.live.get(op["s"])
        return self.last_mounts[op["s"]] if twin is None else twin.op["m"]

    def plainly(self, op: dict, what: str, mounts: list, before: list[dict], after: list[dict]) -> None:
        """Plain writes and removals, independently of the twin."""
        if op["k"] == "open":
            self.last_mounts[op["s"]] = op["m"]
        match = re.fullmatch(r"(write|append|rm|cat) (/\S*)(?: '([^']*)')?", op.get("c", ""))
        if match is None:
            if op.get("c", "").partition(" ")[0] in ("cat", "ls", "pwd", "cd", "grep", "rg", "search", "stat", "tree", "help"):
                if ">" not in op["c"] and after != before:
                    raise Mismatch("host", f"{what} changed a host directory")
            return
        verb, path, text = match.groups()
        path = re.sub("/+", "/", path)
        if "$" in path + (text or "") or len({full(place) for place, _ in mounts}) < len(mounts):
            return  # the twin settles variables, and what mounting twice at one place means
        best = max((m for m in mounts if path.startswith(full(m[0]) + "/")), key=lambda m: len(full(m[0])), default=None)
        changes = [(n, key) for n in range(ROOTS) for key in {*before[n], *after[n]} if before[n].get(key) != after[n].get(key)]
        if self.fired:  # leftovers of an interrupted write
            changes = [(n, k) for n, k in changes if k in before[n] or not os.path.basename(k).startswith(".")]
        if best is None or verb == "cat":
            if changes:
                raise Mismatch("host", f"{what} changed {changes[0]}")
            return
        place, number = best
        key = path[len(full(place)) + 1 :]
        old = before[number].get(key)
        if verb == "rm":
            new, legal = None, all(k == key or k.startswith(key + "/") for _, k in changes)
        else:
            new = text if verb == "write" else (old or "") + (text or "")
            legal = all((n, k) == (number, key) for n, k in changes)
        now = after[number].get(key)
        if not legal or (verb != "rm" and now not in (old, new)):
            raise Mismatch("host", f"{what} left {changes}")
        last = self.trace[-1]
        succeeded = last[0] in ("exec", "line") and last[1 if last[0] == "exec" else 2] == "ok" and last[-2] in (0, "None")
        if succeeded and now != new:
            raise Mismatch("host", f"{what} succeeded, the host file holds {now!r:.80}, not {new!r:.80}")
        if last[0] == "line" and last[2] == "ok" and last[3] != 0 and verb != "rm" and now != old:
            raise Mismatch("host", f"{what} failed, but changed the host file")

    last_mounts: dict

    def close(self) -> None:
        for twin in list(self.live.values()):
            if twin.session is not None and not twin.session.ended:
                twin.session.turn(SimCrash())
        self.live = {}


def full(place: str) -> str:
    return "/" + place.strip("/")


class CliFamily:
    def __init__(self, name: str, profile: dict) -> None:
        self.name = name
        self.profile = {"ops": (8, 30), "faults": 0.2, **profile}

    def run(self, seed: int) -> Outcome:
        case = {"family": self.name, "seed": seed, **generate(random.Random(seed), self.profile)}
        return self.replay(json.loads(json.dumps(case)))

    def replay(self, case: dict) -> Outcome:
        outcome = Outcome(case)
        holder: list[Terminal] = []

        def go() -> None:
            ground = Terminal(copy.deepcopy(case["config"]))
            ground.last_mounts = {}
            holder.append(ground)
            for op in copy.deepcopy(case["ops"]):
                CLOCK.advance(op.get("dt", 0))
                ground.fired = []
                ground.count("ops")
                ground.execute(op)

        CLOCK.total = 0.0
        try:
            guarded(go, outcome)
        finally:
            if holder:
                with outside():
                    holder[0].close()
        PROCESSES.handler = None
        outcome.simulated = CLOCK.total
        outcome.digest = "none"
        if holder:
            ground = holder[0]
            outcome.stats = ground.stats
            outcome.states = ground.states
            outcome.nontrivial = ground.stats.get("ops", 0) >= 5
            outcome.digest = hashlib.sha256(json.dumps([case["config"], ground.trace]).encode()).hexdigest()[:16]
        return outcome

    def shrink_args(self, case: dict):
        for index, op in enumerate(case["ops"]):
            for key in ("plan", "dt", "proc", "argv", "search", "host", "bad"):
                if key in op:
                    variant = copy.deepcopy(case)
                    del variant["ops"][index][key]
                    yield variant
            for drop in range(len(op.get("m", []))):
                variant = copy.deepcopy(case)
                del variant["ops"][index]["m"][drop]
                yield variant
        for number in range(2):
            for key in case["config"]["init"][number]:
                variant = copy.deepcopy(case)
                del variant["config"]["init"][number][key]
                yield variant
