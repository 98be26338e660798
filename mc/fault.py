"""Interruption of the code under test at every call or line boundary."""
import os
import sys

from . import core


class Interrupted(BaseException):
    """what the injected interruption raises (like KeyboardInterrupt)"""


ROOTS = None


def under_test(filename):
    global ROOTS
    if ROOTS is None:
        ROOTS = tuple(os.path.join(p, d) for p in (
            os.path.realpath(core.REPO),
            os.path.realpath(os.environ.get('MC_SCRATCH', core.REPO)))
            for d in ('kamrecsys' + os.sep, 'scripts' + os.sep))
    return filename.startswith(ROOTS) or os.path.realpath(
        filename).startswith(ROOTS)


_cache = {}


def mine(code):
    f = code.co_filename
    r = _cache.get(f)
    if r is None:
        r = _cache[f] = under_test(f)
    return r


class at(object):
    """with at(n, 'line') as a: ... raises Interrupted before the n-th line
    (or call) of code under test; n=None only counts"""

    def __init__(self, n, what='line', exc=Interrupted):
        self.n, self.what, self.exc = n, what, exc
        self.count = 0
        self.fired = None

    def hit(self, frame):
        i = self.count
        self.count += 1
        if self.n is not None and i == self.n:
            sys.settrace(None)
            self.fired = '{}:{}'.format(os.path.basename(
                frame.f_code.co_filename), frame.f_lineno)
            raise self.exc()

    def trace(self, frame, event, arg):
        if not mine(frame.f_code):
            return None
        if event == 'call' and self.what == 'call':
            self.hit(frame)
            return None
        return self.local if self.what == 'line' else None

    def local(self, frame, event, arg):
        if event == 'line':
            self.hit(frame)
        return self.local

    def __enter__(self):
        sys.settrace(self.trace)
        return self

    def __exit__(self, et, ev, tb):
        sys.settrace(None)
        return et is not None and issubclass(et, self.exc)
