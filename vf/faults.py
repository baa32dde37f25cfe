"""Faults of the file system, injected by failing the accesses Python announces to audit hooks."""
import multiprocessing as mp
import os
import sys


class Fault:
    """From the n-th on, accesses to files below a directory fail (also in processes forked meanwhile), until it is lifted."""

    hooked = False
    root = None
    left = None

    def __init__(self, root, n):
        self.n = n
        if not Fault.hooked:
            Fault.hooked = True
            sys.addaudithook(Fault.audit)
        self.left = Fault.left = mp.Value("i", n or 0)
        Fault.root = str(root) if n else None

    @classmethod
    def audit(cls, event, args):
        if cls.root is None or not event.startswith(("open", "os.", "shutil.")) or not args:
            return
        path = os.fsdecode(args[0]) if isinstance(args[0], bytes) else args[0]
        if isinstance(path, (str, os.PathLike)) and os.fspath(path).startswith(cls.root):
            with cls.left.get_lock():
                cls.left.value -= 1
                if cls.left.value > 0:
                    return
            raise OSError(28, "No space left on device (injected)")

    def lift(self):
        """In this process (the process that persists a checkpoint keeps failing). Whether an access failed."""
        Fault.root = None

    def fired(self):
        return bool(self.n) and self.left.value <= 0
