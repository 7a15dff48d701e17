"""Runs functions in threads under a generated schedule.

One thread runs at a time.  At every line executed inside the code under test a
counter advances; when it reaches the next of the given switch points the thread
hands over to the named other one.  A run is therefore a function of the code
and of the schedule.  Locks made by the code under test hand over to another
thread instead of waiting for one that sleeps.  (A thread that waits in another
way would wait for ever: after a while without progress every thread is let go.)
This module has to be imported before the code under test is.
"""
import os
import sys
import threading

from lib.pbt import REPO

CODE = os.path.join(os.path.realpath(REPO), 'asn1crypto') + os.sep
PATIENCE = 2.0
ACTIVE = []
LOCAL = threading.local()


class CoopLock(object):
    def __init__(self, real):
        self.real = real

    def acquire(self, blocking=True, timeout=-1):
        if self.real.acquire(False):
            return True
        if not blocking:
            return False
        k = 0
        while ACTIVE and not ACTIVE[0].free and getattr(LOCAL, 'index', None) is not None:
            s, i = ACTIVE[0], LOCAL.index
            k += 1
            if not s.leave(i, k):
                break
            s.wait(i)
            if self.real.acquire(False):
                return True
        return self.real.acquire(True, timeout)

    def release(self):
        self.real.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *args):
        self.release()


def _coop(make):
    def factory(*args):
        real = make(*args)
        name = sys._getframe(1).f_code.co_filename
        return CoopLock(real) if os.path.realpath(name).startswith(CODE) else real
    return factory


if 'asn1crypto.core' not in sys.modules:
    threading.Lock, threading.RLock = _coop(threading.Lock), _coop(threading.RLock)


class Schedule(object):
    def __init__(self, switches):
        """switches: ((steps to let pass, which of the other threads), ...)"""
        self.switches = list(switches)
        self.left = self.switches[0][0] if self.switches else None
        self.steps = 0
        self.at = []
        self.free = False

    def run(self, fns):
        """-> [('ok', result) or ('raises', exception)]"""
        self.n = len(fns)
        self.turn = [threading.Semaphore(0) for _ in fns]
        self.done = [False] * self.n
        self.current = 0
        out = [None] * self.n
        known = {}
        ACTIVE[:] = [self]

        def body(i):
            def local(frame, event, arg):
                if event == 'line' and not self.free:
                    self.tick(i, frame)
                return local

            def trace(frame, event, arg):
                name = frame.f_code.co_filename
                mine = known.get(name)
                if mine is None:
                    mine = known[name] = os.path.realpath(name).startswith(CODE)
                return local if mine else None

            LOCAL.index = i
            self.wait(i)
            sys.settrace(trace)
            try:
                out[i] = ('ok', fns[i]())
            except Exception as e:
                out[i] = ('raises', e)
            finally:
                sys.settrace(None)
                self.done[i] = True
                self.leave(i, 0)

        threads = [threading.Thread(target=body, args=(i,)) for i in range(self.n)]
        for t in threads:
            t.daemon = True
            t.start()
        self.turn[0].release()
        for t in threads:
            t.join()
        del ACTIVE[:]
        return out

    def tick(self, i, frame):
        self.steps += 1
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        _, who = self.switches.pop(0)
        self.left = self.switches[0][0] if self.switches else None
        self.at.append('%s:%d' % (frame.f_code.co_name, self.steps))
        if self.leave(i, who):
            self.wait(i)

    def leave(self, i, who):
        others = [j for j in range(self.n) if j != i and not self.done[j]]
        if not others:
            return False
        self.turn[others[who % len(others)]].release()
        return True

    def wait(self, i):
        while not self.free:
            seen = self.steps
            if self.turn[i].acquire(timeout=PATIENCE):
                return
            if seen == self.steps:
                # whoever has the turn is blocked
                self.free = True
