"""Faults at the k-th use of a seam: functions of libraries that are called, files that are opened and written."""
import builtins
import errno
import os


class Fault(OSError):
    pass


class _File:
    """A file whose writes count; the failing one writes half of its data first."""

    def __init__(self, f, plan, path):
        self._f, self._plan, self._path = f, plan, path

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        return self._f.__exit__(*a)

    def __iter__(self):
        return iter(self._f)

    def write(self, data):
        try:
            self._plan.hit("write to " + os.path.basename(self._path))
        except Fault:
            try:
                self._f.write(data[: len(data) // 2])
            except Exception:
                pass
            raise
        return self._f.write(data)


class Plan:
    """Counts the uses of seams while it is active, and fails the k-th one."""

    def __init__(self, root, seams, at=None, files=True):
        self.root, self.seams, self.at, self.files = os.path.realpath(root), seams, at, files
        self.n, self.log, self.fired = 0, [], None

    def hit(self, what):
        self.n += 1
        self.log.append(what)
        if self.at is not None and self.n == self.at:
            self.fired = what
            raise Fault(errno.EIO, "injected fault: " + what)

    def __enter__(self):
        plan = self
        self._saved = []
        for obj, name in self.seams:
            if not hasattr(obj, name):
                continue
            orig = getattr(obj, name)
            self._saved.append((obj, name, orig))

            def wrap(orig=orig, name=name):
                def f(*a, **kw):
                    plan.hit(name)
                    return orig(*a, **kw)

                return f

            setattr(obj, name, wrap())
        self._open = builtins.open
        if self.files:

            def fopen(file, mode="r", *a, **kw):
                try:
                    path = os.path.realpath(os.fspath(file))
                except TypeError:
                    return plan._open(file, mode, *a, **kw)
                if not path.startswith(plan.root + os.sep):
                    return plan._open(file, mode, *a, **kw)
                plan.hit("open " + os.path.basename(path) + " " + mode)
                f = plan._open(file, mode, *a, **kw)
                return _File(f, plan, path) if any(c in mode for c in "wax+") and "b" not in mode else f

            builtins.open = fopen
        return self

    def __exit__(self, *a):
        builtins.open = self._open
        for obj, name, orig in reversed(self._saved):
            setattr(obj, name, orig)
        return False
