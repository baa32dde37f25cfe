"""Interpreters with chosen hash seeds, started once per run, that fork a child for every request.

parent: z = Zygotes(module, seeds); z.start() before sharding.   shard: z.call(i, payload) -> value
The module's `serve(payload)` runs in a fresh fork of an interpreter that has imported the module and nothing else happened in.
"""
import importlib
import json
import os
import signal
import socket
import struct
import subprocess
import sys
import time

from vf.core import HarnessError, Violation, scratch_root, tb_tail


def _recv(c):
    head = b""
    while len(head) < 8:
        part = c.recv(8 - len(head))
        if not part:
            return None
        head += part
    n = struct.unpack("<q", head)[0]
    data = bytearray()
    while len(data) < n:
        part = c.recv(n - len(data))
        if not part:
            return None
        data += part
    return json.loads(data.decode())


def _send(c, value):
    data = json.dumps(value).encode()
    c.sendall(struct.pack("<q", len(data)) + data)


class Zygotes:
    def __init__(self, module, seeds, env=None):
        self.module = module
        self.seeds = list(seeds)
        self.env = env or {}
        self.paths = []

    def start(self):
        procs = []
        for i, seed in enumerate(self.seeds):
            path = str(scratch_root() / f"zygote{i}.sock")
            env = dict(os.environ, PYTHONHASHSEED=str(seed), **self.env)
            procs.append(subprocess.Popen([sys.executable, "-m", "vf.zygote", self.module, path, str(os.getpid())], env=env,
                                          stdin=subprocess.DEVNULL,
                                          stdout=None if os.environ.get("VF_DEBUG") else subprocess.DEVNULL,
                                          stderr=None if os.environ.get("VF_DEBUG") else subprocess.DEVNULL))
            self.paths.append(path)
        t0 = time.monotonic()
        for path, p in zip(self.paths, procs):
            while not os.path.exists(path):
                if p.poll() is not None or time.monotonic() - t0 > 120:
                    raise HarnessError(f"zygote {path} did not start ({p.poll()})")
                time.sleep(0.02)
        self.procs = procs

    def call(self, i, payload):
        with socket.socket(socket.AF_UNIX) as c:
            c.connect(self.paths[i])
            _send(c, payload)
            out = _recv(c)
        if out is None:
            raise Violation("the process executing the code under test died")
        kind, value = out
        if kind == "violation":
            raise Violation(value)
        if kind == "harness":
            raise HarnessError(value)
        return value


def main():
    import ctypes

    module, path, parent = sys.argv[1:4]
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # ends with the run
    if os.getppid() != int(parent):
        os._exit(0)
    import vf.boot  # noqa: F401

    mod = importlib.import_module(module)
    if hasattr(mod, "zygote_init"):
        mod.zygote_init()
    s = socket.socket(socket.AF_UNIX)
    s.bind(path + ".tmp")
    s.listen(64)
    os.rename(path + ".tmp", path)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        c, _ = s.accept()
        if os.fork():
            c.close()
            continue
        try:
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            s.close()
            payload = _recv(c)
            if payload is not None:
                from vf.core import _from_repo, _shape

                try:
                    out = ["ok", mod.serve(payload)]
                except Violation as e:
                    out = ["violation", str(e)]
                except BaseException as e:  # noqa: BLE001
                    out = ["violation" if _from_repo(e) or _shape(e) else "harness", f"{type(e).__name__}: {e}\n{tb_tail(e, 10)}"]
                _send(c, out)
        finally:
            os._exit(0)


if __name__ == "__main__":
    main()
