"""Controlled execution of the real code, one line of agnpy at a time.

``schedule`` runs several computations in threads of which only one advances at a time: a plan says
after how many lines of agnpy each of them hands over to another one. Enumerating the plans visits
every interleaving up to a number of preemptions.

``interrupt`` stops a computation at a given line of agnpy, as the user or a failing computation does.
"""
import ast
import functools
import os
import sys
import threading
import agnpy

ROOT = os.path.dirname(os.path.abspath(agnpy.__file__)) + os.sep
INF = 10**12


def _inside(frame):
    return frame.f_code.co_filename.startswith(ROOT)


@functools.lru_cache(None)
def protecting(filename):
    """lines of a file that restore something, or are about to protect it: an interruption just there
    is lost by any program (``try:`` after what has to be undone, ``with``, ``finally``, ``except``)"""
    out = set()
    with open(filename) as f:
        tree = ast.parse(f.read())
    for n in ast.walk(tree):
        if isinstance(n, ast.Try):
            out.add(n.lineno)
            for m in n.finalbody + n.handlers:
                out.update(range(m.lineno, m.end_lineno + 1))
        elif isinstance(n, ast.With):
            out.update(range(n.lineno, n.body[0].lineno))
    return out


class Interrupted(KeyboardInterrupt):
    pass


def count(fn, marks=None, lines=None):
    """(result, number of lines of agnpy executed); marks: list filled with the lines that are the
    first of a function, or the first after one has returned; lines: list filled with the lines
    at which an interruption may be expected to be handled"""
    n = [0]
    inside = [None]

    def line(frame, event, arg):
        if event == "line":
            if marks is not None and frame is not inside[0]:
                marks.append(n[0])
            inside[0] = frame
            if lines is not None and frame.f_lineno not in protecting(frame.f_code.co_filename):
                lines.append(n[0])
            n[0] += 1
        return line

    old = sys.gettrace()
    sys.settrace(lambda frame, event, arg: line if _inside(frame) else None)
    try:
        r = fn()
    finally:
        sys.settrace(old)
    return r, n[0]


def interrupt(fn, i, exc=Interrupted):
    """run fn, raising at its i-th line (from 0). Returns True if it was interrupted."""
    n = [0]

    def line(frame, event, arg):
        if event == "line":
            n[0] += 1
            if n[0] == i + 1:
                sys.settrace(None)
                raise exc()
        return line

    old = sys.gettrace()
    sys.settrace(lambda frame, event, arg: line if _inside(frame) else None)
    try:
        fn()
    except exc:
        return True
    finally:
        sys.settrace(old)
    return False


class schedule:
    """schedule(fns, plan).results : plan is a list of (thread, lines to execute); what is left
    after the plan runs to its end, one thread after the other"""

    PATIENCE = 20  # seconds; afterwards a thread waits for another one: all of them run freely

    def __init__(self, fns, plan):
        self.n = len(fns)
        self.fns = fns
        self.plan = list(plan) + [(k, INF) for k in range(self.n)]
        self.sem = [threading.Semaphore(0) for _ in fns]
        self.done = [False] * self.n
        self.free = False
        self.results = [None] * self.n
        self.errors = [None] * self.n
        self.end = threading.Event()
        threads = [threading.Thread(target=self.body, args=(k,), daemon=True) for k in range(self.n)]
        for t in threads:
            t.start()
        self.next(None)
        if not self.end.wait(self.PATIENCE):
            self.free = True
            for s in self.sem:
                s.release()
            self.end.wait()
        for t in threads:
            t.join()

    def next(self, me):
        """hand over to the thread of the next segment of the plan"""
        while self.plan:
            k, n = self.plan.pop(0)
            if self.done[k] or n <= 0:
                continue
            self.left = n
            if k == me:
                return
            self.sem[k].release()
            if me is not None and not self.done[me]:
                self.sem[me].acquire()
            return

    def body(self, k):
        self.sem[k].acquire()

        def to_the_end():
            return self.left > INF // 2 and not any(t == k and n < INF for t, n in self.plan)

        def line(frame, event, arg):
            if event == "line" and not self.free:
                if self.left <= 0:
                    self.next(k)
                self.left -= 1
                if to_the_end():  # no need to be followed any longer
                    sys.settrace(None)
                    return None
            return line

        if not to_the_end():
            sys.settrace(lambda frame, event, arg: line if _inside(frame) else None)
        try:
            self.results[k] = self.fns[k]()
        except BaseException as e:
            self.errors[k] = e
        finally:
            sys.settrace(None)
            self.done[k] = True
            if all(self.done):
                self.end.set()
            elif not self.free:
                self.next(k)
