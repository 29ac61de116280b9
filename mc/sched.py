"""A controlled scheduler: real threads, preempted exactly at chosen line (or opcode) events of pykalman code.

Only one thread runs at a time.  A scenario is a pair (or more) of operations and a list of preemption
points: thread 0 runs until its k-th event inside the package, then the next thread runs, ...  A thread
that does not get on (because it waits for a lock another one holds) makes the scheduler go back to the
other one after a grace period, so locking code is not mistaken for a deadlock.
"""
import os
import sys
import threading

from .core import REPO

PKG = os.path.join(os.path.realpath(REPO), "pykalman") + os.sep
GRACE = 2.0         # seconds after which a thread is taken to be blocked


class Task:
    def __init__(self, fn, stop=None, opcodes=False, record=False):
        self.fn, self.stop, self.opcodes = fn, stop, opcodes
        self.events = 0
        self.trail = [] if record else None
        self.where = None
        self.result = None
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)          # released when paused or done
        self.done = False
        self.thread = None

    def _global(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG) or "/tests/" in frame.f_code.co_filename:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            if self.trail is not None:
                self.trail.append((frame.f_code.co_filename, frame.f_lasti if self.opcodes else 0, frame.f_lineno))
            if self.events == self.stop:
                self.where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"
                self.back.release()
                self.go.acquire()
                if self.trail is None:
                    sys.settrace(None)              # nothing more to see in this thread
                    return None
            self.events += 1
        return self._local

    def _run(self):
        self.go.acquire()
        if self.stop is not None or self.trail is not None:
            sys.settrace(self._global)
        try:
            self.result = (True, self.fn())
        except BaseException as e:  # noqa: BLE001
            self.result = (False, e)
        finally:
            sys.settrace(None)
            self.done = True
            self.back.release()

    def start(self):
        self.thread = threading.Thread(target=self._run, daemon=True)
        self.thread.start()

    def alone(self, timeout=None):
        """Run to the end; False if that takes longer than the timeout."""
        self.start()
        self.go.release()
        self.thread.join(timeout)
        return self.done

    def resume(self):
        """Let the thread run until it pauses, ends, or seems blocked.  True if it paused or ended."""
        global GRACE
        self.go.release()
        if self.back.acquire(timeout=GRACE):
            return True
        GRACE = 0.05        # the code uses locks: do not wait so long again
        return False


def points(fn, most=None, opcodes=False):
    """The preemption points of an operation: indices of its events, at most `most` first occurrences and the last
    one of each place in the code (all if None).  Returns (points, number of events, result)."""
    if opcodes:
        Task(fn, None, True, True).alone()          # the interpreter needs one run to switch opcode events on
    t = Task(fn, None, opcodes, True)
    t.alone()
    seen, last, pts = {}, {}, []
    for i, w in enumerate(t.trail):
        seen[w] = seen.get(w, 0) + 1
        last[w] = i
        if most is None or seen[w] <= most:
            pts.append(i)
    return sorted(set(pts) | set(last.values())), len(t.trail), t.result


def run(ops, stops, opcodes=False):
    """Run ops[0] up to its event stops[0], then ops[1] up to stops[1], ...; then each on to its end, in order.

    A stop of None means to the end.  Returns the tasks; result is None for one that never ended."""
    tasks = [Task(f, s, opcodes) for f, s in zip(ops, stops)]
    for t in tasks:
        t.start()
    waiting = []
    for t in tasks:
        if not t.resume():
            waiting.append(t)               # blocked by one paused before it
    for t in tasks:
        if not t.done and t not in waiting:
            if not t.resume():
                waiting.append(t)
    for t in waiting:
        if not t.done:
            t.back.acquire(timeout=20)
            if not t.done:
                t.go.release()
                t.back.acquire(timeout=20)
    return tasks
