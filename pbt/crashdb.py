"""
A stand-in for a sqlite3 connection that can stop the "process" at a chosen
database step.  Once it has crashed every further use fails and the real
connection has been closed without committing, as when a process dies.

It can also make a number of consecutive steps fail with the errors of an
engine which is out of disk space, locked out or cannot read the disk.
"""

from contextlib import contextmanager
from sqlite3 import OperationalError


class Crash(Exception):
    """The simulated process has died."""


class CrashPlan:
    """
    Counts database steps and says when to crash.

    :ivar at: crash right before the step with this number (None: never).
    """

    def __init__(self, at=None):
        self.at = at
        self.steps = 0
        self.crashed = False
        self.on_commit = None
        self.trouble = None
        self.faults = 0

    def disturb(self, kind, after, count):
        """
        From the step after the next ``after`` ones on, and until ``count``
        more steps were made, the engine reports an error for those that
        ``kind`` of trouble (full, locked, unreadable) concerns.
        """
        self.trouble = (kind, self.steps + after, self.steps + after + count)

    def calm(self):
        self.trouble = None

    @contextmanager
    def undisturbed(self):
        """No trouble here, and steps made here do not bring its end closer."""
        trouble, self.trouble = self.trouble, None
        before = self.steps
        try:
            yield
        finally:
            if trouble is not None:
                kind, start, end = trouble
                used = self.steps - before
                self.trouble = (kind, start + used, end + used)

    def error(self, kind, what):
        """The error the engine reports for the current step, or None."""
        if self.trouble is None:
            return None
        trouble, start, end = self.trouble
        if not start < self.steps <= end:
            return None
        word = what.split()[0].upper() if what.split() else ""
        if trouble == "full" and (
            kind == "commit" or word in ("INSERT", "UPDATE", "DELETE", "CREATE")
        ):
            text = "database or disk is full"
        elif trouble == "locked" and (kind == "commit" or word == "BEGIN"):
            text = "database is locked"
        elif trouble == "unreadable" and kind in ("execute", "executemany", "commit"):
            text = "disk I/O error"
        else:
            return None
        self.faults += 1
        return OperationalError(text)

    def arm(self, after):
        self.at = self.steps + after

    def disarm(self):
        self.at = None


class CrashCursor:
    def __init__(self, conn, real):
        self.__dict__["_c"] = conn
        self.__dict__["_real"] = real

    def execute(self, *a):
        self._c._step("execute", a[0])
        self._real.execute(*a)
        return self

    def executemany(self, *a):
        self._c._step("executemany", a[0])
        self._real.executemany(*a)
        return self

    def __getattr__(self, name):
        return getattr(self._real, name)

    def __setattr__(self, name, value):
        setattr(self._real, name, value)

    def __iter__(self):
        return iter(self._real)


class CrashConnection:
    def __init__(self, real, plan):
        self.__dict__["_real"] = real
        self.__dict__["_plan"] = plan

    def _step(self, kind, what=""):
        p = self._plan
        if p.crashed:
            raise Crash("the process is dead")
        p.steps += 1
        if p.at is not None and p.steps > p.at:
            self._die()
            raise Crash(f"crash before {kind} {what}")
        error = p.error(kind, what)
        if error is not None:
            raise error

    def _committed(self):
        if self._plan.on_commit is not None:
            self._plan.on_commit()

    def _die(self):
        self._plan.crashed = True
        try:
            self._real.rollback()
        except Exception:
            pass
        self._real.close()

    def cursor(self, *a, **kw):
        if self._plan.crashed:
            raise Crash("the process is dead")
        return CrashCursor(self, self._real.cursor(*a, **kw))

    def execute(self, *a):
        return self.cursor().execute(*a)

    def executemany(self, *a):
        return self.cursor().executemany(*a)

    def commit(self):
        self._step("commit")
        self._real.commit()
        self._committed()
        self._step("after commit")

    def rollback(self):
        self._step("rollback")
        self._real.rollback()

    def iterdump(self):
        if self._plan.crashed:
            raise Crash("the process is dead")
        return self._real.iterdump()

    def close(self):
        if not self._plan.crashed:
            self._real.close()

    def __enter__(self):
        if self._plan.crashed:
            raise Crash("the process is dead")
        self._real.__enter__()
        return self

    def __exit__(self, *exc):
        if self._plan.crashed:
            return False
        if exc[0] is None:
            self._step("commit")
            r = self._real.__exit__(*exc)
            self._committed()
            self._step("after commit")
            return r
        return self._real.__exit__(*exc)

    def __getattr__(self, name):
        return getattr(self._real, name)
