"""Threads of the code under test, one of which advances at a time.

The instrumented code calls `point()` before every statement and between the
evaluation and the storing of every attribute or item.  At such points the
running thread may be preempted; which points those are is chosen by the
solver, within a bound on the number of preemptions.  A thread that blocks (on
a lock, an event, a join) or ends is left anyway.

The threads are real threads that pass a baton, so that the same code serves
the symbolic run and the concrete replay.
"""

import threading

from . import env


class Killed(BaseException):
    """The path is over; the remaining threads unwind."""


class Task:
    def __init__(self, k, fn, daemon=False):
        self.k, self.fn = k, fn
        self.baton = threading.Semaphore(0)
        self.done = False
        self.blocked = None         # a function: may it go on?
        self.deadline = None        # when it goes on anyway
        self.result = None
        self.error = None
        self.control = None
        self.daemon = daemon
        self.thread = None


class Sched:
    """`cx` decides; `preempt` is the number of preemptions explored."""

    MAX = 1 << 16

    def __init__(self, cx, preempt=1, part=None, name="switch", free=True,
                 lapse=0):
        self.lapse = lapse          # time that passes at a preemption
        self.free = free            # any thread goes on when one stops
        self.cx, self.left, self.name = cx, preempt, name
        self.part = part
        self.tasks = []
        self.current = None
        self.n = 0                  # points since the last switch
        self.nswitch = 0
        self.nforced = 0
        self.target = None
        self.main = threading.Semaphore(0)
        self.killing = False
        self.active = False
        self.quiet = 0
        self.deadlock = False
        self.preempted = 0
        self.only = None            # task that may be preempted
        self.idle = None            # called when every task sleeps

    # -- tasks ---------------------------------------------------------------

    def add(self, fn, daemon=False):
        t = Task(len(self.tasks), fn, daemon)
        self.tasks.append(t)
        return t

    def run(self, first=None):
        """Run everything; the harness continues when all have ended."""
        w = self.cx.w
        w.sched, w.on_point = self, self.point
        self.active = True
        try:
            self.choose_target()
            self.current = self.tasks[0] if first is None else first
            self.resume(self.current)
            self.main.acquire()
        finally:
            self.active = False
            w.on_point = None
            self.kill()
            w.sched = None
        for t in self.tasks:
            if t.control is not None:
                raise t.control
        if self.deadlock:
            raise env.Deadlock()

    def resume(self, t):
        if t.thread is None:
            t.thread = threading.Thread(target=self.body, args=(t,),
                                        daemon=True)
            t.thread.start()
        t.baton.release()

    def body(self, t):
        t.baton.acquire()
        try:
            if not self.killing:
                t.result = t.fn()
        except Killed:
            pass
        except Exception as err:
            err.__traceback__ = None
            t.error = err
        except BaseException as err:
            t.control = err
        t.fn = None
        t.done = True
        if self.killing:
            self.main.release()
        elif t.control is not None:
            self.main.release()
        else:
            try:
                self.leave(t)
            except BaseException as err:
                t.control = err
                self.main.release()

    def kill(self):
        self.killing = True
        for t in self.tasks:
            if t.thread is not None:
                if not t.done:
                    t.baton.release()
                    self.main.acquire()
                t.thread.join()

    # -- switching -------------------------------------------------------------

    def runnable(self, t):
        return not t.done and (
            t.blocked is None or t.blocked() or
            t.deadline is not None and t.deadline <= self.cx.w.clock)

    def others(self, t):
        return [x for x in self.tasks if x is not t and self.runnable(x)]

    def choose_target(self):
        """The number of points after which the running task is preempted."""
        self.n = 0
        self.target = None
        if self.left > 0:
            self.target = self.cx.int("%s%d" % (self.name, self.nswitch + 1),
                                      0, self.MAX)
            if self.part and self.nswitch == 0:
                k, of = self.part
                self.cx.assume(self.target % of == k)

    def point(self):
        """Before a statement."""
        if self.quiet or not self.active:
            return
        t = self.current
        if t.thread is not threading.current_thread():
            return
        if self.target is None or (self.only is not None
                                   and t is not self.only):
            return
        ready = self.others(t)
        if not ready and not (self.lapse and [
                x for x in self.tasks if x is not t and not x.done
                and x.deadline is not None
                and x.deadline <= self.cx.w.clock + self.lapse]):
            return
        n, self.n = self.n, self.n + 1
        if self.target == n:
            self.left -= 1
            self.nswitch += 1
            if self.lapse:
                w = self.cx.w
                w.clock = w.clock + self.cx.int(
                    "lapse%d" % self.nswitch, 0, self.lapse)
                ready = self.others(t)
                if not ready:
                    self.target = None
                    return
            self.preempted += 1
            self.choose_target()
            self.switch(t, self.pick(ready))

    def pick(self, ready, forced=False):
        if len(ready) == 1:
            return ready[0]
        if forced and not self.free:
            k = self.current.k
            return ([x for x in ready if x.k > k] or ready)[0]
        self.nforced += 1
        return ready[self.cx.choice("%snext%d.%d" % (
            self.name, self.nforced, len(ready)), len(ready))]

    def switch(self, t, to):
        self.current = to
        self.resume(to)
        t.baton.acquire()
        if self.killing:
            raise Killed()

    def leave(self, t):
        """`t` has ended."""
        to = self.next(t)
        if to is None:
            self.main.release()
        else:
            self.current = to
            self.resume(to)

    def next(self, t):
        """Who goes on when `t` cannot."""
        ready = self.others(t)
        if ready:
            return self.pick(ready, True)
        alive = [x for x in self.tasks if not x.done]
        if not [x for x in alive if not x.daemon]:
            return None
        asleep = [x for x in alive if x.deadline is not None]
        if asleep:
            to = asleep[0]
            for x in asleep[1:]:
                if x.deadline < to.deadline:
                    to = x
            w = self.cx.w
            if to.deadline > w.clock:
                w.clock = to.deadline
            to.deadline = None
            to.blocked = None
            return to
        self.deadlock = True
        return None

    def block(self, test, deadline=None):
        """The running task waits until test(), or until the deadline."""
        t = self.current
        if self.killing:
            raise Killed()
        while not test():
            t.blocked, t.deadline = test, deadline
            ready = self.others(t)
            to = self.next(t)
            if to is None:
                # nobody is left to wake it up
                self.main.release()
                t.baton.acquire()
                raise Killed()
            if to is not t:
                self.switch(t, to)
            t.blocked = t.deadline = None
            if deadline is not None and deadline <= self.cx.w.clock:
                return bool(test())
        return True

    def sleep(self, until):
        self.block(lambda: False, until)

    def mine(self):
        return (self.active and self.current is not None
                and self.current.thread is threading.current_thread())
