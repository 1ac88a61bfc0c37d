"""Model of one worker thread feeding one queue.

`Thread.start()` runs the target to its end; what it puts into the queue is handed to the harness (e.on_put).  The consumer sees an arbitrary
item of the stream, then the next of the same stream, or the end marker if one was put.  Until `join()`, the effects the worker had after it
put its first end marker may or may not be visible to the consumer: both are explored."""
from __future__ import annotations
import types
from .engine import E, PathEnd, Abort
from .values import *   # noqa: F403
from .values import U, is_sym
from .models_xml import closure, TextList
from . import runtime


class Token(Sym):
    """an arbitrary item put into the queue"""
    __slots__ = ()

    def __repr__(self):
        return "<an item of the queue>"

    def vc_kind(self):
        return ("poison",)      # not looked at after it was handed on

    def __getattr__(self, n):
        if n.startswith("vc_"):
            raise AttributeError(n)
        U(f"the consumer looks at {n} of the items it relays")


class Queue(Sym):
    __slots__ = ("marks", "closed", "thread", "pending", "ended")

    def __init__(self, *a, **k):
        self.marks, self.closed, self.thread, self.pending, self.ended = [], False, None, None, False
        E().queues.append(self)

    def put(self, x, *a, **k):
        e = E()
        if e.is_item(x):
            if self.closed:
                e.fail("thread: nothing is put after the end marker")
            e.on_put(x)
            return
        if not any(x is m for m in self.marks):
            self.marks.append(x)
        if not self.closed:
            self.closed = True
            if e.threads and e.threads[-1].running:
                e.threads[-1].snapshot()

    put_nowait = put

    def get(self, *a, **k):
        e = E()
        if self.pending is not None:
            e.fail("thread: every item taken from the queue is handed on")
        if self.ended:
            e.fail("thread: reading never hangs", "the queue is read after its end marker")
        if not self.marks:
            if e.choose(2, "get") == 0:
                self.pending = Token()
                return self.pending
            e.fail("thread: reading never hangs", "no end marker was put into the queue")
        i = e.choose(1 + len(self.marks), "get")
        if i == 0:
            self.pending = Token()
            return self.pending
        self.ended = True
        return self.marks[i - 1]


def iter_model(f, *sentinel):
    if not sentinel:
        m = runtime.MODELS.get(iter)
        return m(f) if m else iter(f)
    s = sentinel[0]
    q = getattr(f, "__self__", None)
    if type(q) is not Queue:
        return iter(f, s)

    def g():
        e = E()
        if e.choose(2, "relay") == 0:
            t = q.pending = Token()
            yield t
            if q.pending is not None:
                e.fail("thread: every item taken from the queue is handed on")
            raise PathEnd()
        if not any(s is m for m in q.marks):
            e.fail("thread: reading never hangs", "no end marker was put into the queue")
        if any(s is not m for m in q.marks):
            U("several end markers")
        q.ended = True
    return g()


class Thread(Sym):
    __slots__ = ("target", "args", "kwargs", "running", "snap", "late", "started", "joined", "exc")

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self.target, self.args, self.kwargs = target, tuple(args), dict(kwargs or {})
        self.running = self.started = self.joined = False
        self.snap = self.late = None
        E().threads.append(self)

    def vc_setattr(self, n, v):
        if n not in ("daemon", "name"):
            U(f"thread.{n}")

    def state(self):
        e = E()
        cells = []
        f = self.target.__func__ if isinstance(self.target, types.MethodType) else self.target
        for c in closure([f]).values():
            try:
                cells.append((c, c.cell_contents))
            except ValueError:
                cells.append((c, None))
        return cells, [(o, list(o.items)) for o in e.heap if type(o) is TextList and o.items is not None], len(e.attr_log)

    def snapshot(self):
        if self.snap is None:
            self.snap = self.state()

    @staticmethod
    def restore(st):
        for c, v in st[0]:
            c.cell_contents = v
        for o, items in st[1]:
            o.items = list(items)

    def start(self):
        e = E()
        if self.started:
            e.fail("thread: started once")
        self.started = self.running = True
        try:
            runtime.h_call(self.target, *self.args, **self.kwargs)
        except Abort:
            raise
        except BaseException:   # noqa: BLE001
            pass                # reported by threading.excepthook, lost for the caller
        self.running = False
        if self.snap is not None and e.choose(2, "late") == 1:
            if len(e.attr_log) != self.snap[2]:
                U("attributes changed by the thread after its end marker")
            self.late = self.state()
            self.restore(self.snap)

    def join(self, timeout=None):
        if timeout is not None:
            U("join with a timeout")
        self.joined = True
        if self.late is not None:
            self.restore(self.late)
            self.late = None

    def __getattr__(self, n):
        U(f"thread.{n}")
