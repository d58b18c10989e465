"""Interrupts: an exception that arrives from outside (as of a signal handler: KeyboardInterrupt, a timeout) at a chosen
line of the code under test."""
import sys

from . import core, locks

TOOL = 4


class Interrupt(BaseException):
    pass


class Interrupter:
    def __init__(self):
        self.left = None        # lines until the interrupt; None: count only
        self.lines = 0
        m = sys.monitoring
        m.use_tool_id(TOOL, "verif-fault")
        m.register_callback(TOOL, m.events.LINE, self._line)

    def _line(self, code, line):
        if not code.co_filename.startswith(core.SRC):
            return sys.monitoring.DISABLE
        self.lines += 1
        if self.left is not None:
            self.left -= 1
            if self.left < 0 and line not in locks.entrances(code.co_filename):
                self.left = None
                self.at = f"{code.co_qualname}:{line}"
                raise Interrupt

    def run(self, f, left=None):
        """-> (what happened: "interrupted", "raised" or "returned"; lines seen)"""
        self.left, self.lines, self.at = left, 0, None
        m = sys.monitoring
        m.set_events(TOOL, m.events.LINE)
        try:
            try:
                # (in a generator: the interpreter may forget to pop the exception being handled when the interrupt
                # hits an except clause, and a generator has a stack of its own)
                for _ in _own(f):
                    pass
            finally:
                m.set_events(TOOL, 0)
                self.left = None
        except Interrupt:
            return "interrupted", self.lines
        except Exception:
            return "raised", self.lines
        return ("swallowed" if self.at else "returned"), self.lines


def _own(f):
    yield
    f()


def get(_one=[]):
    if not _one:
        _one.append(Interrupter())
    return _one[0]
