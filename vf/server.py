"""Runs a real Mixtera server in a forked child on the loopback network."""
import contextlib
import gc
import os
import signal
import socket
import time

from vf.core import HarnessError


def free_port():
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


class Server:
    def __init__(self, directory, patch=None):
        self.directory = directory
        for _ in range(5):
            self.port = free_port()
            self.pid = os.fork()
            if self.pid == 0:
                self._child(patch)
            if self._wait_up():
                return
            self.stop()
        raise HarnessError("could not start a server")

    def _child(self, patch):
        try:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            gc.enable()
            if patch:
                patch()
            from mixtera.network.server import MixteraServer

            MixteraServer(self.directory, "127.0.0.1", self.port).run()
        except BaseException:  # noqa: BLE001
            if os.environ.get("VF_DEBUG"):
                import traceback

                traceback.print_exc()
        finally:
            os._exit(0)

    def alive(self):
        if self.pid is None:
            return False
        p, _ = os.waitpid(self.pid, os.WNOHANG)
        if p:
            self.pid = None
            return False
        return True

    def _wait_up(self):
        end = time.monotonic() + 30
        while time.monotonic() < end:
            if not self.alive():
                return False
            with contextlib.suppress(OSError), socket.create_connection(("127.0.0.1", self.port), 1):
                return True
            time.sleep(0.01)
        return False

    def stop(self):
        if self.pid is not None:
            with contextlib.suppress(ProcessLookupError):
                os.kill(self.pid, signal.SIGKILL)
            with contextlib.suppress(ChildProcessError):
                os.waitpid(self.pid, 0)
            self.pid = None
