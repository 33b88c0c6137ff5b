"""Deterministic scheduler for studies running in several threads: exactly one thread runs at a time, and the baton is
handed over (by a seeded choice) at line events inside the code under test."""
import os
import sys
import threading

import boot

PREFIX = os.path.join(os.path.realpath(boot.REPO), 'bayesloop') + os.sep
STALL = 3.0    # seconds without progress after which a waiting thread takes over (the running one waits for a lock)


class Scheduler(object):
    def __init__(self, rng, n, p):
        self.rng, self.n, self.p = rng, n, p
        self.cond = threading.Condition()
        self.alive = set(range(n))
        self.turn = int(rng.integers(n))
        self.progress = 0
        self.switches = 0
        self.trace = []
        self.files = {}
        self.me = threading.local()

    def wait(self, k):
        """Called with the condition held."""
        seen = self.progress
        while self.turn != k:
            if not self.cond.wait(STALL):
                if self.progress == seen:
                    self.turn = k
                    break
                seen = self.progress
        self.progress += 1

    def line(self, frame, event, arg):
        if event != 'line':
            return self.line
        k = self.me.k
        with self.cond:
            self.progress += 1
            if self.turn != k:
                self.wait(k)
            others = sorted(self.alive - {k})
            if others and self.rng.random() < self.p:
                self.turn = others[int(self.rng.integers(len(others)))]
                self.switches += 1
                if len(self.trace) < 200:
                    self.trace.append((k, frame.f_code.co_name, frame.f_lineno))
                self.cond.notify_all()
                self.wait(k)
        return self.line

    def call(self, frame, event, arg):
        if event != 'call':
            return None
        f = frame.f_code.co_filename
        if f not in self.files:
            self.files[f] = os.path.realpath(f).startswith(PREFIX)
        return self.line if self.files[f] else None

    def thread(self, k, fn, out):
        self.me.k = k
        with self.cond:
            self.wait(k)
        sys.settrace(self.call)
        try:
            out[k] = ('ok', fn())
        except BaseException as e:
            out[k] = ('error', e)
        finally:
            sys.settrace(None)
            with self.cond:
                self.alive.discard(k)
                if self.turn == k and self.alive:
                    self.turn = sorted(self.alive)[int(self.rng.integers(len(self.alive)))]
                self.cond.notify_all()

    def run(self, fns):
        out = [None] * len(fns)
        ts = [threading.Thread(target=self.thread, args=(k, fn, out), daemon=True) for k, fn in enumerate(fns)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return out
