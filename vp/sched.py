"""Running threads over the code under test under many schedules.

'free'    threads run as the interpreter schedules them, with the smallest
          switch interval
'line'    one thread at a time; at points drawn by the seeded generator, on
          lines of the code under test, control passes to another thread
'opcode'  the same between byte codes

A thread that holds control and blocks on a lock of the code under test loses
control after a while, so that schedules cannot make the code hang by
themselves.  Threads which all sleep and make no progress are reported as
blocked."""
import hashlib
import os
import sys
import threading
import time

from vp.harness import REPO

PREFIX = os.path.join(REPO, 'ndg') + os.sep
PATIENCE = 0.05         # seconds a thread in control may be blocked
BLOCKED = 15.0          # seconds without progress of sleeping threads


class Blocked(Exception):
    pass


def states():
    """Scheduling states of the threads of this process but the main one"""
    out = []
    me = os.getpid()
    for tid in os.listdir('/proc/self/task'):
        if int(tid) == me:
            continue
        try:
            with open('/proc/self/task/%s/stat' % tid) as f:
                out.append(f.read().rsplit(')', 1)[1].split()[0])
        except OSError:
            pass
    return out


class Scheduler:
    def __init__(self, rng, mode, mean, budget=4000):
        self.rng = rng
        self.mode = mode
        self.mean = mean
        self.budget = budget        # control is passed on at most so often
        self.switches = 0
        self.lines = 0
        self.trail = hashlib.blake2b(digest_size=8)
        self.places = set()

    def _next(self):
        return 1 + int(self.rng.expovariate(1.0 / self.mean))

    def run(self, bodies):
        """@return: list of results of the bodies, in order"""
        n = len(bodies)
        results = [None] * n
        self.alive = set(range(n))
        self.gates = [threading.Semaphore(0) for _ in range(n)]
        self.count = self._next()
        self.current = None
        self.stuck = set()          # waiting on a lock of the code under test
        barrier = threading.Barrier(n)
        done = [0]

        def body(i):
            free = self.mode == 'free'
            barrier.wait()
            if not free:
                self._wait(i)
                sys.settrace(lambda f, e, a: self._trace(i, f, e))
            try:
                results[i] = bodies[i]()
            finally:
                if not free:
                    sys.settrace(None)
                    self.alive.discard(i)
                    self._pass(i, None)
                done[0] += 1

        threads = [threading.Thread(target=body, args=(i,), daemon=True)
                   for i in range(n)]
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6 if self.mode == 'free' else 5e-4)
        try:
            for t in threads:
                t.start()
            if self.mode != 'free':
                self.current = first = self.rng.randrange(n)
                self.gates[first].release()
            last, since = None, time.time()
            for t in threads:
                while t.is_alive():
                    t.join(.1)
                    now = (self.lines, done[0])
                    if now != last or any(s != 'S' for s in states()):
                        last, since = now, time.time()
                    elif time.time() - since > BLOCKED:
                        raise Blocked()
        finally:
            sys.setswitchinterval(old)
        return results

    def _trace(self, i, frame, event):
        if not frame.f_code.co_filename.startswith(PREFIX):
            return None
        if self.mode == 'opcode':
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return lambda f, e, a: self._point(i, f, e)

    def _point(self, i, frame, event):
        self.lines += 1
        self.stuck.discard(i)
        self.count -= 1
        if self.count <= 0 and self.switches < self.budget:
            self.count = self._next()
            others = sorted(self.alive - {i} - self.stuck)
            if others:
                j = self.rng.choice(others)
                where = (frame.f_code.co_name, frame.f_lineno)
                self.places.add(where)
                self.trail.update(repr((i, j, where)).encode())
                self._pass(i, j)
                self._wait(i)
        return lambda f, e, a: self._point(i, f, e)

    def _pass(self, i, j):
        if j is None:
            others = sorted(self.alive - self.stuck) or sorted(self.alive)
            if not others:
                return
            j = self.rng.choice(others)
        self.switches += 1
        self.current = j
        self.gates[j].release()

    def _wait(self, i):
        seen = -1
        while not self.gates[i].acquire(timeout=PATIENCE):
            if self.current is None:
                continue
            if self.current == i or self.lines == seen:
                if self.current != i:
                    self.stuck.add(self.current)
                self.current = i        # who is in control does not move
                return
            seen = self.lines
