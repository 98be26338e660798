"""
A controlled scheduler for threads of the code under test.  Exactly one thread
runs at a time; it can be stopped before any source line of kamrecsys code, so
a schedule is a list of (thread, number of lines) followed by running every
thread to its end.
"""
import sys
import threading

from . import fault

STUCK = 5.      # seconds without progress: the thread waits for another one


class Killed(BaseException):
    pass


class Thread(object):

    def __init__(self, op):
        self.op = op
        self.go = threading.Semaphore(0)
        self.stopped = threading.Semaphore(0)
        self.left = None        # lines until the next stop; None: no stop
        self.lines = 0
        self.done = False
        self.waiting = False    # blocked outside of our control
        self.dead = False
        self.result = self.error = None
        self.where = None
        self.t = threading.Thread(target=self.main)
        self.t.daemon = True

    def main(self):
        self.go.acquire()
        sys.settrace(self.trace)
        try:
            self.result = self.op()
        except Killed:
            pass
        except BaseException as e:
            self.error = e
        finally:
            sys.settrace(None)
            self.done = True
            self.stopped.release()

    def trace(self, frame, event, arg):
        if not fault.mine(frame.f_code):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == 'line':
            if self.left == 0:
                self.where = '%s:%d' % (frame.f_code.co_name, frame.f_lineno)
                self.stopped.release()
                self.go.acquire()
                if self.dead:
                    raise Killed()
            self.lines += 1
            if self.left is not None:
                self.left -= 1
        return self.local

    def advance(self, n):
        """run for n lines (None: to the end); False if it got stuck"""
        if self.done:
            return True
        if not self.waiting:
            self.left = n
            self.go.release()
        else:
            self.left = n
        ok = self.stopped.acquire(timeout=STUCK)
        self.waiting = not ok
        return ok


def run(ops, plan):
    """-> list of (result, error) of every operation under this schedule"""
    ts = [Thread(op) for op in ops]
    for t in ts:
        t.t.start()
    for i, n in plan:
        ts[i].advance(n)
    left = [i for i, _ in plan[::-1]] + list(range(len(ts)))
    for _ in range(3):
        for i in left:
            if not ts[i].done:
                ts[i].advance(None)
    stuck = [i for i, t in enumerate(ts) if not t.done]
    for t in ts:
        t.dead = True
        t.go.release()
    for t in ts:
        if t.done:
            t.t.join()
    return ([(t.result, t.error) for t in ts], [t.lines for t in ts], stuck,
            [t.where for t in ts])


def plans(lines, bound):
    """all schedules of two threads with at most `bound` preemptions"""
    yield [(0, None), (1, None)]
    yield [(1, None), (0, None)]
    for a in (0, 1):
        b = 1 - a
        for k in range(1, lines[a]):
            yield [(a, k), (b, None), (a, None)]
            if bound > 1:
                for m in range(1, lines[b]):
                    yield [(a, k), (b, m), (a, None), (b, None)]
