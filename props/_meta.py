"""Small helpers shared by the property modules."""


def solo(ctx, fn, **kw):
    """Runs fn as the only task of a kernel (virtual clock, simulated pids)."""
    kw.setdefault("strategy", ("random", 1.0))
    k = ctx.kernel(**kw)
    try:
        return k.run(fn)
    finally:
        ctx.absorb(k)


class LogTrap:
    """A logger that keeps the exceptions pfrl reports through it."""

    def __init__(self):
        import logging

        self.records = []

        class L(logging.Logger):
            # the runner disables logging globally
            def isEnabledFor(self, level):
                return level >= logging.ERROR

            def __deepcopy__(self, memo):
                return self

        self.logger = L("trap")
        trap = self

        class H(logging.Handler):
            def emit(self, record):
                if record.levelno >= logging.ERROR:
                    import traceback

                    text = record.getMessage()
                    if record.exc_info and record.exc_info[1] is not None:
                        text += " " + "".join(traceback.format_exception(*record.exc_info))[-1200:]
                    trap.records.append(text)

            def createLock(self):
                self.lock = None

            def acquire(self):
                pass

            def release(self):
                pass

        self.logger.addHandler(H())

    def __deepcopy__(self, memo):
        return self
