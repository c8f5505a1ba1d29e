class Violation(Exception):
    """The property is broken.  `kind` is the violation class kept fixed while
    minimising; `msg` says what was observed."""

    def __init__(self, kind, msg=""):
        super().__init__("%s: %s" % (kind, msg))
        self.kind = kind
        self.msg = msg


class HarnessError(Exception):
    """The simulator itself failed (not the code under test)."""


class SimCrash(BaseException):
    """The simulated process is dead: raised at the crash point to unwind the
    real stack.  Everything the dead process does while unwinding is ignored."""


class SimKilled(BaseException):
    """Unwinds the thread of a killed simulated task."""


class SimAbort(BaseException):
    """Unwinds the main task once the kernel has recorded a failure."""


def check(cond, kind, msg="", *args):
    if not cond:
        raise Violation(kind, (msg % args) if args else msg)
