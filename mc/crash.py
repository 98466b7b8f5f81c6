"""Ends a call at a chosen point: raises at the k-th visit of a function entry of irtorch, identified by the call stack."""
import ast
import os
import sys
import torch

PASSIVE = {"__get__", "__set__", "size", "dim", "numel", "__len__", "is_floating_point", "stride", "is_complex", "storage_offset", "__repr__", "__format__", "__hash__", "backward_hooks", "data_ptr",
           "is_contiguous", "element_size", "get_device", "is_inference", "untyped_storage", "__torch_function__"}
ROOT = "/repo/irtorch/"
_HANDLERS = {}


class Interrupt(KeyboardInterrupt):
    pass


class Fault(RuntimeError):
    pass


def handlers(path):
    """Line ranges of clean-up code (except and finally): an interrupt of the clean-up itself cannot be guarded against."""
    if path not in _HANDLERS:
        out = []
        try:
            tree = ast.parse(open(path).read())
        except OSError:
            tree = ast.parse("")
        for n in ast.walk(tree):
            if isinstance(n, ast.Try):
                for h in n.handlers:
                    out.append((h.lineno, h.end_lineno))
                if n.finalbody:
                    out.append((n.finalbody[0].lineno, n.finalbody[-1].end_lineno))
        _HANDLERS[path] = out
    return _HANDLERS[path]


class Tracer:
    """Visits of call stacks in order; raises `exc` at visit number `at` of the stack `where` when given."""

    def __init__(self, where=None, at=0, exc=None):
        self.where, self.at, self.exc = where, at, exc
        self.visits, self.order, self.fired = {}, [], False

    def stack(self, frame, entered=True):
        sig = []
        while frame is not None:
            f = os.path.realpath(frame.f_code.co_filename) if "irtorch" in frame.f_code.co_filename else ""
            if f.startswith(ROOT):
                line = frame.f_lineno
                if (sig or not entered) and any(a <= line <= b for a, b in handlers(f)):
                    return None
                sig.append((f[len(ROOT):], frame.f_code.co_name, line))
            frame = frame.f_back
        return tuple(sig)

    def __call__(self, frame, event, arg):
        if event != "call" or "irtorch" not in frame.f_code.co_filename or self.fired:
            return None
        if not os.path.realpath(frame.f_code.co_filename).startswith(ROOT) or frame.f_code.co_flags & 0x20 or frame.f_code.co_name in ("<module>", "<listcomp>", "<genexpr>", "__getattr__", "__len__", "__del__"):
            return None
        sig = self.stack(frame)
        if sig is None:
            return None
        n = self.visits.get(sig, 0)
        self.visits[sig] = n + 1
        if n == 0:
            self.order.append(sig)
        if self.where == sig and self.at == n and self.exc is not None:
            self.fired = True
            sys.settrace(None)
            raise self.exc("stopped here")
        return None

    def run(self, f):
        old = sys.gettrace()
        sys.settrace(self)
        try:
            return f()
        finally:
            sys.settrace(old)


class Ops(torch.overrides.TorchFunctionMode):
    """The same at torch operations: the operation fails (out of memory, bad shapes) instead of being done."""

    def __init__(self, where=None, at=0, exc=None):
        super().__init__()
        self.where, self.at, self.exc = where, at, exc
        self.visits, self.order, self.fired, self.off = {}, [], False, False
        self.t = Tracer()

    def __torch_function__(self, func, types, args=(), kwargs=None):
        name = getattr(func, "__name__", str(func))
        if not self.fired and name not in PASSIVE:
            sig = self.t.stack(sys._getframe(1), False)
            if sig:
                sig = ((name, "", 0),) + sig
                n = self.visits.get(sig, 0)
                self.visits[sig] = n + 1
                if n == 0:
                    self.order.append(sig)
                if self.where == sig and self.at == n and self.exc is not None:
                    self.fired = True
                    raise self.exc("stopped here")
        return func(*args, **(kwargs or {}))

    def run(self, f):
        with self:
            return f()


def points(f, per_stack=2, limit=None, tracer=Tracer):
    """The crash points of a call: every distinct call stack at its first (and last) visit."""
    t = tracer()
    result = t.run(f)
    out = []
    for sig in t.order:
        n = t.visits[sig]
        for k in sorted({0, n - 1, n // 2} if per_stack > 2 else {0, n - 1} if per_stack > 1 else {0}):
            out.append((sig, k))
    return result, out[:limit] if limit else out


def label(sig, k):
    if sig[0][2] == 0:
        return f"operation {sig[0][0]} in {sig[1][1]} ({sig[1][0]})" + (f" from {sig[2][1]}" if len(sig) > 2 else "") + f", visit {k + 1}"
    return f"{sig[0][1]} in {sig[0][0]}" + (f" from {sig[1][1]}" if len(sig) > 1 else "") + f", visit {k + 1}"
