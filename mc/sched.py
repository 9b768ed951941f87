"""A controlled scheduler for two real threads.  Only one of them ever runs; every executed source line of the library
is a point where the running thread can be preempted in favour of the other one."""
from __future__ import annotations

import os
import sys
import threading


class Stuck(Exception):
    pass


def library_dir():
    import robpy
    return os.path.dirname(os.path.realpath(robpy.__file__)) + os.sep


class Tracer:
    """counts the line events of library frames in the current thread and calls hook(k, where) at each of them"""

    def __init__(self, root, hook):
        self.root, self.hook, self.k, self.on = root, hook, 0, True
        self.inside = {}

    def start(self):
        sys.settrace(self._call)

    def stop(self):
        self.on = False
        sys.settrace(None)

    def _call(self, frame, event, arg):
        if not self.on:
            return None
        f = frame.f_code.co_filename
        mine = self.inside.get(f)
        if mine is None:
            mine = self.inside[f] = os.path.realpath(f).startswith(self.root)
        return self._line if mine else None

    def _line(self, frame, event, arg):
        if not self.on:
            return None
        if event == "line":
            k = self.k
            self.k += 1
            self.hook(k, (frame.f_code.co_filename, frame.f_lineno))
        return self._line


def record(fn, root):
    """runs fn alone in a thread -> (result, list of locations, one per point)"""
    where, box = [], {}

    def body():
        t = Tracer(root, lambda k, w: where.append(w))
        t.start()
        try:
            box["r"] = fn()
        except BaseException as e:  # noqa: BLE001
            box["e"] = e
        finally:
            t.stop()
    th = threading.Thread(target=body)
    th.start()
    th.join()
    if "e" in box:
        raise box["e"]
    return box["r"], where


def preempt(fa, fb, switches, root, timeout=120.0):
    """Runs fa and fb in two threads. switches = (k,) : A runs to its point k, B runs to its end, A continues.
    switches = (k, m): A to k, B to m, A to its end, B continues.  -> (result or exception of A, of B, reached)"""
    k = switches[0]
    m = switches[1] if len(switches) > 1 else None
    go_a, go_b = threading.Event(), threading.Event()
    box = {}
    reached = [False, False]

    def body_a():
        def hook(i, w):
            if i == k:
                reached[0] = True
                ta.stop()
                go_b.set()
                if not go_a.wait(timeout):
                    raise Stuck("thread B does not give control back")
        ta = Tracer(root, hook)
        ta.start()
        try:
            box["a"] = fa()
        except BaseException as e:  # noqa: BLE001
            box["a"] = e
        finally:
            ta.stop()
            box["a_done"] = True
            go_b.set()
            done_a.set()

    def body_b():
        go_b.wait(timeout)

        def hook(i, w):
            if i == m:
                reached[1] = True
                tb.stop()
                go_a.set()
                if not done_a.wait(timeout):
                    raise Stuck("thread A does not end")
        tb = Tracer(root, hook)
        if m is not None:
            tb.start()
        try:
            box["b"] = fb()
        except BaseException as e:  # noqa: BLE001
            box["b"] = e
        finally:
            tb.stop()
            go_a.set()
    done_a = threading.Event()
    a, b = threading.Thread(target=body_a, daemon=True), threading.Thread(target=body_b, daemon=True)
    a.start()
    b.start()
    a.join(2 * timeout)
    b.join(2 * timeout)
    return box.get("a", Stuck("thread A never ended")), box.get("b", Stuck("thread B never ended")), reached
