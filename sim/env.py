"""The simulated environment: clock, disk, host processes.

Everything sandfs can observe outside its own memory goes through here:

* ``time.time`` / ``time.time_ns`` read ``CLOCK``, which only the harness moves;
* the disk is a private scratch directory.  Every call of the code under test
  that touches it passes an interposer (``sys.addaudithook`` for name-space
  operations, a wrapped ``open`` for data) which counts it, can fail it, can cut
  a write short or can "kill the process" there; directory order, modification
  times and temporary names are made deterministic;
* a mutating call whose target lies outside the scratch directory is recorded
  and refused, so an escaping write can do no harm here;
* ``subprocess.Popen`` is replaced by a scripted process.
"""

from __future__ import annotations

import builtins
import errno
import io
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import warnings

os.environ["TZ"] = "UTC"
time.tzset()

REPO = os.environ.get("SANDFS_SIM_REPO", "/repo")

_real_open = io.open
_real_scandir = os.scandir
_real_listdir = os.listdir
_real_utime = os.utime
_real_popen = subprocess.Popen
_real_time = time.time
_real_os_write = os.write


class HarnessError(Exception):
    """The harness itself is wrong: never a property violation."""


class SimCrash(BaseException):
    """The simulated process dies at this point."""


class Clock:
    def __init__(self) -> None:
        self.now = 1_000_000.0
        self.total = 0.0  # simulated seconds covered

    def time(self) -> float:
        return self.now

    def time_ns(self) -> int:
        return int(self.now * 1_000_000_000)

    def advance(self, delta: float) -> None:
        self.now += delta
        self.total += abs(delta)


CLOCK = Clock()


class Disk:
    """Interposer state.  ``active`` is set only while code under test runs."""

    CREATE = ("open-w", "mkdir", "rename", "write", "link", "symlink")

    def __init__(self) -> None:
        self.root = ""  # scratch directory
        self.active = False
        self.busy = False
        self.reset()

    def reset(self) -> None:
        self.dead = False
        self.count = 0
        self.plan: dict | None = None  # {"at": k, "kind": ...}
        self.fired: list[str] = []
        self.log: list[tuple[str, str]] = []
        self.escapes: list[tuple[str, str]] = []
        self.opened: list[tuple[str, str]] = []
        self.foreign: list[str] = []

    def begin(self, plan: dict | None = None) -> None:
        self.count = 0
        self.plan = plan
        self.fired = []
        self.log = []
        self.opened = []
        self.foreign = []
        self.escapes = []
        self.dead = False

    def inside(self, path: str) -> bool:
        return path == self.root or path.startswith(self.root + "/")

    def rel(self, path: str) -> str:
        return path[len(self.root) :] if self.inside(path) else path

    def mtime(self) -> int:
        return CLOCK.time_ns()

    def step(self, kind: str, path: str) -> str | None:
        """Account for one disk operation; may raise.  Returns a write mode."""
        if self.dead:
            raise SimCrash()
        index = self.count
        self.count += 1
        self.log.append((kind, self.rel(path)))
        plan = self.plan
        if plan is None or index != plan["at"]:
            return None
        fault = plan["kind"]
        if fault == "crash":
            self.fired.append("crash@" + kind)
            if kind == "write":
                return "crash"
            self.dead = True
            raise SimCrash()
        if fault == "int" and kind != "write":
            self.fired.append("interrupt@" + kind)
            raise KeyboardInterrupt()
        if kind == "write":
            if fault == "int":
                self.fired.append("interrupt@write")
                return "int"
            if fault == "short":
                self.fired.append("short-write")
                return "short"
            self.fired.append("torn-write-" + fault)
            return fault
        if fault == "short":
            return None
        if fault == "enospc" and kind not in self.CREATE:
            fault = "eio"
        self.fired.append(fault + "@" + kind)
        raise OSError(getattr(errno, fault.upper()), os.strerror(getattr(errno, fault.upper())))


DISK = Disk()

_MUTATING = {
    "os.remove": (0,),
    "os.rename": (0, 1),
    "os.mkdir": (0,),
    "os.rmdir": (0,),
    "os.chmod": (0,),
    "os.chown": (0,),
    "os.utime": (0,),
    "os.symlink": (1,),
    "os.link": (0, 1),
    "os.truncate": (0,),
    "os.setxattr": (0,),
    "os.removexattr": (0,),
}
_PROCESS = {
    "subprocess.Popen",
    "os.system",
    "os.exec",
    "os.posix_spawn",
    "os.spawn",
    "os.fork",
    "os.forkpty",
    "os.kill",
    "os.killpg",
    "pty.spawn",
    "socket.connect",
    "socket.bind",
}
_WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _locate(path, dir_fd, follow: bool) -> str | None:
    if isinstance(path, int):
        try:
            return os.readlink(f"/proc/self/fd/{path}")
        except OSError:
            return None
    if path is None:
        return None
    text = os.fsdecode(path)
    if not os.path.isabs(text) and isinstance(dir_fd, int) and dir_fd >= 0:
        text = os.path.join(os.readlink(f"/proc/self/fd/{dir_fd}"), text)
    text = os.path.abspath(text) if follow else os.path.join(
        os.path.abspath(os.path.dirname(text) or "."), os.path.basename(text)
    )
    if follow:
        return os.path.realpath(text)
    return os.path.join(os.path.realpath(os.path.dirname(text)), os.path.basename(text))


def _audit(event: str, args: tuple) -> None:
    disk = DISK
    if not disk.active or disk.busy:
        return
    if event == "open":
        path, _, flags = args
        if not isinstance(path, (str, bytes)) and not hasattr(path, "__fspath__"):
            return
        disk.busy = True
        try:
            where = _locate(path, None, True)
        finally:
            disk.busy = False
        writing = bool((flags or 0) & _WRITE_FLAGS)
        if where is None:
            return
        if not disk.inside(where):
            if writing and where != "/dev/null":
                disk.escapes.append(("open", where))
                raise PermissionError(errno.EACCES, "outside the simulation", where)
            if not where.endswith((".py", ".pyc", ".so")):
                disk.foreign.append(where)
            return
        disk.opened.append(("w" if writing else "r", disk.rel(where)))
        disk.step("open-w" if writing else "open-r", where)
        return
    targets = _MUTATING.get(event)
    if targets is not None:
        where = None
        disk.busy = True
        try:
            places = [
                _locate(args[i], args[-1] if len(args) > i + 1 else None, False) for i in targets
            ]
        finally:
            disk.busy = False
        for place in places:
            if place is not None:
                where = place
                if not disk.inside(place):
                    disk.escapes.append((event, place))
                    raise PermissionError(errno.EACCES, "outside the simulation", place)
        if where is not None:
            for place in places:
                if place is not None:
                    disk.opened.append(("m", disk.rel(place)))
            disk.step(event[3:], where)
        return
    if event in ("os.scandir", "os.listdir"):
        disk.busy = True
        try:
            where = _locate(args[0] if args and args[0] is not None else ".", None, True)
        finally:
            disk.busy = False
        if where is not None and disk.inside(where):
            disk.opened.append(("l", disk.rel(where)))
            disk.step("scandir", where)
        return
    if event in _PROCESS:
        disk.escapes.append((event, str(args[:1])))
        raise PermissionError(errno.EACCES, "outside the simulation", event)


class _SimRaw(io.FileIO):
    """A file whose reads and writes can fail, stop short or kill the process."""

    def write(self, data):  # type: ignore[override]
        disk = DISK
        if not disk.active and not disk.dead:
            return super().write(data)
        if disk.dead:
            return len(data)
        mode = disk.step("write", str(self.name))
        if mode is None:
            return super().write(data)
        half = bytes(data)[: max(1, len(data) // 2)] if len(data) else b""
        if mode == "short" and len(data) > 1:
            return super().write(half)
        if mode == "short":
            return super().write(data)
        super().write(half)
        if mode == "crash":
            disk.dead = True
            raise SimCrash()
        if mode == "int":
            raise KeyboardInterrupt()
        raise OSError(getattr(errno, mode.upper()), os.strerror(getattr(errno, mode.upper())))

    def readall(self):
        if DISK.active:
            DISK.step("read", str(self.name))
        return super().readall()

    def readinto(self, buffer):
        if DISK.active:
            DISK.step("read", str(self.name))
        return super().readinto(buffer)

    def close(self):
        if not self.closed and self.writable() and not DISK.dead:
            busy, DISK.busy = DISK.busy, True
            try:
                _real_utime(self.fileno(), ns=(DISK.mtime(), DISK.mtime()))
            except OSError:
                pass
            finally:
                DISK.busy = busy
        super().close()


def sim_os_write(fd, data):
    disk = DISK
    if not disk.active and not disk.dead:
        return _real_os_write(fd, data)
    try:
        where = os.readlink(f"/proc/self/fd/{fd}")
    except OSError:
        where = ""
    if not disk.inside(where):
        return _real_os_write(fd, data)
    if disk.dead:
        return len(data)
    mode = disk.step("write", where)
    if mode is None:
        return _real_os_write(fd, data)
    half = bytes(data)[: max(1, len(data) // 2)] if len(data) else b""
    if mode == "short":
        return _real_os_write(fd, half if len(data) > 1 else data)
    _real_os_write(fd, half)
    if mode == "crash":
        disk.dead = True
        raise SimCrash()
    if mode == "int":
        raise KeyboardInterrupt()
    raise OSError(getattr(errno, mode.upper()), os.strerror(getattr(errno, mode.upper())))


def sim_fsync(fd):
    if DISK.active:
        try:
            where = os.readlink(f"/proc/self/fd/{fd if isinstance(fd, int) else fd.fileno()}")
        except OSError:
            where = ""
        if DISK.inside(where):
            DISK.step("fsync", where)
    return None


def sim_open(
    file,
    mode="r",
    buffering=-1,
    encoding=None,
    errors=None,
    newline=None,
    closefd=True,
    opener=None,
):
    if not DISK.active or isinstance(file, int) or opener is not None:
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    where = os.path.abspath(os.fsdecode(file))
    if not DISK.inside(where):
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    raw_mode = mode.replace("b", "").replace("t", "").replace("U", "")
    raw = _SimRaw(where, raw_mode)
    if binary and buffering == 0:
        return raw
    if "+" in raw_mode:
        buffered = io.BufferedRandom(raw)
    elif raw.writable():
        buffered = io.BufferedWriter(raw)
    else:
        buffered = io.BufferedReader(raw)
    if binary:
        return buffered
    text = io.TextIOWrapper(
        buffered, encoding or "utf-8", errors, newline, line_buffering=(buffering == 1)
    )
    text.mode = mode
    return text


class _SortedScandir:
    def __init__(self, path) -> None:
        with _real_scandir(path) as entries:
            self._entries = sorted(entries, key=lambda entry: entry.name)
        self._iter = iter(self._entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._iter)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def close(self) -> None:
        self._iter = iter(())


def sim_scandir(path="."):
    return _SortedScandir(path)


def sim_listdir(path="."):
    return sorted(_real_listdir(path))


class _Names:
    def __init__(self) -> None:
        self.count = 0

    def __iter__(self):
        return self

    def __next__(self) -> str:
        self.count += 1
        return f"t{self.count:07d}"


class Processes:
    """Scripted host processes.

    ``handler(argv, cwd, stdin_bytes, env) -> (returncode, stdout, stderr)`` runs
    with the disk interposer off (it is the process, not sandfs); it may raise
    OSError to model a process that cannot be started.
    """

    def __init__(self) -> None:
        self.handler = None
        self.started: list[list[str]] = []


PROCESSES = Processes()


class SimPopen:
    def __init__(self, args, **kwargs) -> None:
        self.args = args
        self.kwargs = kwargs
        self.pid = 4242
        self.returncode: int | None = None
        self._out: tuple[bytes, bytes] | None = None
        self.stdin = self.stdout = self.stderr = None
        argv = [args] if isinstance(args, (str, bytes)) else [str(a) for a in args]
        self._argv = argv
        self._text = bool(
            kwargs.get("text")
            or kwargs.get("encoding")
            or kwargs.get("errors")
            or kwargs.get("universal_newlines")
        )
        cwd = kwargs.get("cwd")
        active, DISK.active = DISK.active, False
        try:
            self._check_strings(argv, kwargs.get("env"))
            PROCESSES.started.append(argv)
            if PROCESSES.handler is None:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", argv[0])
            if cwd is not None and not os.path.isdir(cwd):
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", str(cwd))
            PROCESSES.handler(self, "start", b"")
        finally:
            DISK.active = active

    @staticmethod
    def _check_strings(argv, environment) -> None:
        """What the real constructor refuses: NUL bytes and unencodable text."""
        for key, value in (environment or {}).items():
            if "=" in os.fsdecode(os.fsencode(key)):
                raise ValueError("illegal environment variable name")
            if b"\0" in os.fsencode(key) + os.fsencode(value):
                raise ValueError("embedded null byte")
        for word in argv:
            if b"\0" in os.fsencode(word):
                raise ValueError("embedded null byte")

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.wait()

    def _decode(self, data: bytes):
        if not self._text:
            return data
        text = data.decode(self.kwargs.get("encoding") or "utf-8", self.kwargs.get("errors") or "strict")
        return text.replace("\r\n", "\n").replace("\r", "\n")

    def communicate(self, input=None, timeout=None):
        if self._out is None:
            data = input if isinstance(input, bytes) else (input or "").encode("utf-8", "replace")
            active, DISK.active = DISK.active, False
            try:
                code, out, err = PROCESSES.handler(self, "run", data)
            finally:
                DISK.active = active
            self.returncode = code
            self._out = (out, err)
        out, err = self._out
        return (
            self._decode(out) if self.kwargs.get("stdout") == subprocess.PIPE else None,
            self._decode(err) if self.kwargs.get("stderr") == subprocess.PIPE else None,
        )

    def wait(self, timeout=None):
        self.communicate()
        return self.returncode

    def poll(self):
        return self.returncode

    def kill(self):
        if self.returncode is None:
            self.returncode = -9
            self._out = (b"", b"")

    terminate = kill

    def send_signal(self, _):
        self.kill()


_booted = False


def boot(scratch: str) -> None:
    """Install the seams, once per process, then import sandfs from /repo."""
    global _booted
    DISK.root = os.path.realpath(scratch)
    if _booted:
        return
    _booted = True
    time.time = CLOCK.time
    time.time_ns = CLOCK.time_ns
    os.scandir = sim_scandir
    os.listdir = sim_listdir
    os.write = sim_os_write
    os.fsync = sim_fsync
    os.fdatasync = sim_fsync
    builtins.open = sim_open
    io.open = sim_open
    subprocess.Popen = SimPopen
    shutil._use_fd_functions = False
    tempfile._name_sequence = _Names()
    tempfile.tempdir = os.path.join(DISK.root, "tmp")
    sys.pycache_prefix = os.path.join(DISK.root, "pyc-unused")
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")  # snippets may be odd Python
    sys.path.insert(0, REPO)
    import sandfs
    import sandfs.cli  # noqa: F401  (parts of the library the workloads reach)

    where = os.path.realpath(sandfs.__file__)
    if not where.startswith(os.path.realpath(REPO) + "/"):
        raise HarnessError(f"sandfs imported from {where}, not from {REPO}")
    sys.addaudithook(_audit)


def fresh_scratch() -> None:
    """Empty the scratch directory between runs (harness side)."""
    active, DISK.active = DISK.active, False
    root = DISK.root
    if "sandfs-sim" not in root:
        raise HarnessError(f"refusing to clean {root}")
    for name in _real_listdir(root):
        full = os.path.join(root, name)
        if os.path.isdir(full) and not os.path.islink(full):
            shutil.rmtree(full)
        else:
            os.unlink(full)
    os.mkdir(os.path.join(root, "tmp"))
    tempfile._name_sequence = _Names()
    tempfile.tempdir = os.path.join(root, "tmp")
    DISK.active = active
    DISK.reset()


class sandboxed:
    """Context in which the code under test runs: seams are live."""

    def __enter__(self):
        self._previous = DISK.active
        DISK.active = True
        return self

    def __exit__(self, *exc):
        DISK.active = self._previous


class outside:
    """Context in which harness code called back from sandfs runs."""

    def __enter__(self):
        self._previous = DISK.active
        DISK.active = False
        return self

    def __exit__(self, *exc):
        DISK.active = self._previous


MAIN_THREAD = threading.main_thread()
