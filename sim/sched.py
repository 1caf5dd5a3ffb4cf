"""Deterministic thread scheduler: real threads, exactly one of which runs at any time.

A thread may be descheduled at every source line of pypfopt and around every solver / linear-algebra call.
Who runs next is drawn from the run's PRNG (or read from the recorded list of switches when replaying), never
from the operating system.
"""
import random
import threading

from . import core, seams


class Scheduler:
    def __init__(self, fns, schedule, limit=400_000, on_step=None):
        self.fns = fns
        self.n = len(fns)
        self.follow = None
        if "preempt" in schedule:
            self.follow = {int(s): int(t) for s, t in schedule["preempt"]}
            self.rng, self.p = None, 0
        else:
            self.rng = random.Random(schedule["seed"])
            self.p = schedule["p"]
        self.limit = limit
        self.on_step = on_step
        self.step = 0
        self.trace = []
        self.locks = [threading.Lock() for _ in fns]
        for lk in self.locks:
            lk.acquire()
        self.main = threading.Lock()
        self.main.acquire()
        self.done = [False] * self.n
        self.results = [None] * self.n
        self.ident = {}
        self.current = None
        self.where = []

    def _body(self, i):
        self.locks[i].acquire()
        self.ident[threading.get_ident()] = i
        try:
            self.results[i] = ("ok", self.fns[i]())
        except BaseException as e:  # noqa
            self.results[i] = ("exc", e)
        self.done[i] = True
        self.ident.pop(threading.get_ident(), None)
        nxt = self._choose(forced=True)
        if nxt is None:
            self.main.release()
        else:
            self.current = nxt
            self.locks[nxt].release()

    def _runnable(self):
        return [j for j in range(self.n) if not self.done[j]]

    def _choose(self, forced=False):
        """Called at every scheduling point; returns the thread to switch to (or None to stay)."""
        self.step += 1
        r = self._runnable()
        if not r:
            return None
        if self.follow is not None:
            t = self.follow.get(self.step)
            if t is not None and t in r:
                return t if (forced or t != self.current) else None
            return r[0] if forced else None
        if forced:
            t = self.rng.choice(r)
            self.trace.append([self.step, t])
            return t
        if len(r) > 1 and self.rng.random() < self.p:
            t = self.rng.choice([j for j in r if j != self.current])
            self.trace.append([self.step, t])
            return t
        return None

    def point(self, where=None):
        i = self.ident.get(threading.get_ident())
        if i is None:
            return
        if self.step > self.limit:
            raise core.StepLimit()
        if self.on_step is not None:
            self.on_step(self.step)
        t = self._choose()
        if t is None or t == i:
            return
        self.where.append(where)
        self.current = t
        self.locks[t].release()
        self.locks[i].acquire()

    def run(self):
        ths = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ths:
            t.start()
        seams.begin()
        seams.LIMIT = 10**12
        seams.STEPS = 0
        seams.LINE_HOOK = lambda code, line: self.point((code.co_name, line - code.co_firstlineno))
        seams.yield_hook = lambda site: self.point((site, 0))
        seams.TID = lambda: self.ident.get(threading.get_ident())
        try:
            first = self._choose(forced=True)
            self.current = first
            self.locks[first].release()
            self.main.acquire()
        finally:
            seams.LINE_HOOK = None
            seams.yield_hook = None
            seams.TID = None
            seams.end()
        for t in ths:
            t.join(20)
        return self.results
