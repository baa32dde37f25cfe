"""A program executed in a child process that is killed at a chosen point of its execution, or whose files are copied at all of them."""
import hashlib
import json
import os
import pickle
import shutil
import signal
import sys

from vf.core import HarnessError, Violation, _from_repo, _shape, require, tb_tail

import mixtera.utils.utils as _utils

CODE = os.path.dirname(os.path.dirname(os.path.abspath(_utils.__file__)))


class Points:
    """Watches the points (source lines of the code under test, accesses to files under `root`) that are passed."""

    def __init__(self, root, record=None, target=None, states=None):
        self.root, self.record, self.target, self.states = str(root), record, target, states
        self.known, self.busy = set(), False
        self.seen = {}
        self.armed = False
        sys.addaudithook(self._audit)

    def hit(self, key):
        if self.states is not None:
            if not self.busy:
                self.busy = True
                try:
                    self._save(key)
                finally:
                    self.busy = False
            return
        n = self.seen[key] = self.seen.get(key, 0) + 1
        if self.record is not None:
            if n == 1:
                os.write(self.record, (key + "\n").encode())
        elif self.target is not None and key == self.target[0] and n == self.target[1]:
            os.killpg(0, signal.SIGKILL)

    def _save(self, key):
        """Copies the files if this is a new state: this is what a process killed here leaves behind."""
        if (state := fingerprint(self.root)) is None or state in self.known:
            return
        copy = os.path.join(self.states, f"{len(os.listdir(self.states)):04}-{os.getpid()}")
        try:
            shutil.copytree(self.root, copy + ".tmp")
        except (OSError, shutil.Error):  # another process is writing
            shutil.rmtree(copy + ".tmp", ignore_errors=True)
            return
        if fingerprint(copy + ".tmp") == state == fingerprint(self.root):
            self.known.add(state)
            with open(copy + ".point", "w") as f:
                f.write(key)
            os.rename(copy + ".tmp", copy)
        else:
            shutil.rmtree(copy + ".tmp")

    def _audit(self, event, args):
        if self.busy or not self.armed or not event.startswith(("open", "os.", "shutil.")) or not args:
            return
        path = args[0]
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if isinstance(path, (str, os.PathLike)) and os.fspath(path).startswith(self.root):
            self.hit(f"{event} {os.fspath(path)[len(self.root):]}")

    def _line(self, frame, event, arg):
        if event == "line" and self.armed:
            self.hit(f"{frame.f_code.co_filename[len(CODE) + 1:]}:{frame.f_lineno}")
        return self._line

    def _call(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(CODE):
            return self._line
        return None

    def arm(self):
        self.armed = True
        sys.settrace(self._call)

    def disarm(self):
        sys.settrace(None)
        self.armed = False


def fingerprint(root):
    """The directories and files with their content, or None if they change meanwhile."""
    out = []
    try:
        for path, dirs, files in os.walk(root):
            out.append(path[len(root):])
            for name in files:
                with open(os.path.join(path, name), "rb") as f:
                    out.append(f"{path[len(root):]}/{name} {hashlib.md5(f.read()).hexdigest()}")
    except OSError:
        return None
    return hashlib.md5("\n".join(sorted(out)).encode()).digest()


def run(program, root, record=None, target=None, states=None):
    """program(points, tell) in a child. Returns (what it told, whether it was killed).

    record: file that gets the points passed; target: the point to be killed at;
    states: directory that gets a copy of root for every state it has at one of the points (and the point)."""
    fd = os.open(record, os.O_WRONLY | os.O_CREAT | os.O_APPEND) if record else None
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            points = Points(root, fd, target, states)
            out = []

            def tell(x):
                os.write(w, (json.dumps(x) + "\n").encode())

            try:
                program(points, tell)
            except Violation as e:
                out = ["!violation", str(e)]
            except BaseException as e:  # noqa: BLE001
                points.disarm()
                out = ["!violation" if _from_repo(e) or _shape(e) else "!harness", f"{type(e).__name__}: {e}\n{tb_tail(e, 10)}"]
            tell(out or ["!done"])
        finally:
            os._exit(0)
    os.close(w)
    if fd is not None:
        os.close(fd)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    finally:
        for kill in (os.killpg, os.kill):
            try:
                kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.waitpid(pid, 0)
    lines = data.decode().splitlines(keepends=True)
    told = [json.loads(x) for x in lines if x.endswith("\n")]
    last = told.pop() if told and told[-1] and told[-1][0] in ("!done", "!violation", "!harness") else None
    if last is None:
        require(target is not None, "the process executing the code under test died")
        return told, True
    if last[0] == "!violation":
        raise Violation(last[1])
    if last[0] == "!harness":
        raise HarnessError(last[1])
    return told, False
