"""Replaces, before pfrl is imported, every source of nondeterminism it can
reach by the simulator's own: processes, threads, pipes, locks, clocks,
signals, file locks and downloads.  The shims dispatch to the current kernel;
outside a run (kernel None) harmless ones fall through to the real thing.
"""
import datetime as _dt
import os
import signal as _signal
import sys
import time as _time

from . import kernel as kn
from .errors import HarnessError, SimKilled

real = {}
_installed = False


def _caller_is_pfrl(depth=2):
    name = sys._getframe(depth).f_globals.get("__name__", "")
    return name.split(".")[0] == "pfrl" and kn.K is not None


class _Ctx:
    """multiprocessing context / module facade"""

    Process = kn.SimProcess
    Lock = kn.SimLock
    RLock = kn.SimRLock
    Event = kn.SimEvent
    Condition = kn.SimCondition
    Semaphore = kn.SimSemaphore
    BoundedSemaphore = kn.SimSemaphore
    Queue = kn.SimQueue
    SimpleQueue = kn.SimSimpleQueue
    JoinableQueue = kn.SimQueue

    @staticmethod
    def Pipe(duplex=True):
        return kn.sim_pipe(duplex)

    @staticmethod
    def Value(typecode, *args, lock=True, ctx=None):
        return kn.SimValue(typecode, *args, lock=lock)

    @staticmethod
    def RawValue(typecode, *args):
        return kn.SimValue(typecode, *args, lock=False)

    @staticmethod
    def get_context(method=None):
        return _Ctx

    @staticmethod
    def current_process():
        k = kn.K
        p = kn.SimProcess()
        p._proc = k.current.proc
        p.name = p._proc.name
        return p

    @staticmethod
    def get_start_method(allow_none=False):
        return "fork"

    @staticmethod
    def set_start_method(method, force=False):
        pass

    @staticmethod
    def cpu_count():
        return 4

    @staticmethod
    def active_children():
        k = kn.K
        out = []
        for pr in k.procs:
            if pr.parent is k.current.proc and pr.alive:
                p = kn.SimProcess()
                p._proc = pr
                out.append(p)
        return out


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import copy  # noqa
    import multiprocessing
    import multiprocessing.connection
    import multiprocessing.synchronize
    import queue
    import threading
    import urllib.request

    import filelock
    import numpy  # noqa
    import torch
    import torch.multiprocessing

    for m in (multiprocessing, torch.multiprocessing):
        for name in ("Process", "Lock", "RLock", "Event", "Condition", "Semaphore", "BoundedSemaphore", "Queue",
                     "SimpleQueue", "JoinableQueue", "Pipe", "Value", "RawValue", "get_context", "current_process",
                     "set_start_method", "get_start_method", "active_children", "cpu_count"):
            setattr(m, name, getattr(_Ctx, name))
    multiprocessing.connection.Pipe = _Ctx.Pipe
    real["conn_wait"] = multiprocessing.connection.wait
    multiprocessing.connection.wait = kn.sim_wait

    # --- threads: pfrl subclasses threading.Thread at import time
    real["Thread"] = threading.Thread
    threading.Thread = kn.SimThread
    real["current_thread"] = threading.current_thread

    def current_thread():
        k = kn.K
        if k is None or k.current is None:
            return threading._main_thread
        t = k.current
        o = getattr(t, "thread_obj", None)
        if o is None:
            o = kn.SimThread(name="MainThread" if t is t.proc.main_task else t.name)
            o._task = t
            t.thread_obj = o
        return o

    threading.current_thread = current_thread
    threading.currentThread = current_thread

    def factory(name, realobj, sim):
        real[name] = realobj

        def make(*a, **k):
            if _caller_is_pfrl():
                return sim(*a, **k)
            return realobj(*a, **k)

        return make

    threading.Lock = factory("Lock", threading.Lock, kn.SimLock)
    threading.RLock = factory("RLock", threading.RLock, kn.SimRLock)
    threading.Event = factory("Event", threading.Event, kn.SimEvent)
    threading.Condition = factory("Condition", threading.Condition, kn.SimCondition)
    threading.Semaphore = factory("Semaphore", threading.Semaphore, kn.SimSemaphore)
    queue.Queue = factory("Queue", queue.Queue, lambda *a, **k: kn.SimQueue(*a, thread=True, **k))
    queue.SimpleQueue = factory("SimpleQueue", queue.SimpleQueue, lambda *a, **k: kn.SimQueue(*a, thread=True, **k))

    # --- clocks
    for name in ("time", "sleep", "monotonic", "perf_counter", "process_time"):
        real[name] = getattr(_time, name)

    def sim_time():
        k = kn.K
        return real["time"]() if k is None else k.wall()

    def sim_mono():
        k = kn.K
        return real["monotonic"]() if k is None else k.now + 5000.0

    def sim_sleep(dt):
        k = kn.K
        if k is None:
            return real["sleep"](dt)
        return k.sleep(dt)

    _time.time = sim_time
    _time.sleep = sim_sleep
    _time.monotonic = sim_mono
    _time.perf_counter = sim_mono
    _time.process_time = sim_mono

    rdt = _dt.datetime
    real["datetime"] = rdt

    class _Meta(type(rdt)):
        def __instancecheck__(cls, o):
            return isinstance(o, rdt)

    class SimDatetime(rdt, metaclass=_Meta):
        @classmethod
        def now(cls, tz=None):
            k = kn.K
            if k is None:
                return rdt.now(tz)
            return rdt.fromtimestamp(k.wall(), tz or _dt.timezone.utc).replace(tzinfo=tz)

        @classmethod
        def today(cls):
            return cls.now()

        @classmethod
        def utcnow(cls):
            return cls.now()

    SimDatetime.__name__ = "datetime"
    _dt.datetime = SimDatetime
    for name in ("strftime", "localtime", "gmtime", "ctime"):
        real["t_" + name] = getattr(_time, name)
    _time.localtime = lambda s=None: real["t_gmtime"](sim_time() if s is None else s)
    _time.gmtime = lambda s=None: real["t_gmtime"](sim_time() if s is None else s)
    _time.strftime = lambda fmt, t=None: real["t_strftime"](fmt, _time.gmtime() if t is None else t)

    # --- signals, pids
    real["signal"] = _signal.signal

    def sim_signal(sig, handler):
        k = kn.K
        if k is None:
            return real["signal"](sig, handler)
        p = k.current.proc
        old = p.sigs.get(sig, _signal.SIG_DFL)
        p.sigs[sig] = handler
        return old

    _signal.signal = sim_signal
    for name in ("getpid", "getpgrp", "getppid", "killpg", "kill", "getpgid", "_exit", "fork"):
        real["os_" + name] = getattr(os, name)

    def getpid():
        k = kn.K
        return real["os_getpid"]() if k is None else k.current.proc.pid

    def getppid():
        k = kn.K
        if k is None:
            return real["os_getppid"]()
        return k.current.proc.parent.pid if k.current.proc.parent else 1

    def getpgrp():
        return real["os_getpgrp"]() if kn.K is None else 1000

    def kill(pid, sig):
        k = kn.K
        if k is None:
            return real["os_kill"](pid, sig)
        if pid <= 0:
            return killpg(1000, sig)
        for p in k.procs:
            if p.pid == pid:
                if sig:
                    k.point("kill")
                    k.send_signal(p, sig)
                return
        raise ProcessLookupError(3, "No such process")

    def killpg(pgid, sig):
        k = kn.K
        if k is None:
            return real["os_killpg"](pgid, sig)
        if pgid != 1000:
            raise ProcessLookupError(3, "No such process")
        me = k.current.proc
        k.log("killpg", int(sig))
        for p in list(k.procs):
            if p is not me:
                k.send_signal(p, sig)
        k.send_signal(me, sig)

    def sim_fork():
        if kn.K is None:
            return real["os_fork"]()
        raise HarnessError("os.fork inside a simulated run")

    def sim_exit(code):
        k = kn.K
        if k is None:
            real["os__exit"](code)
        raise SystemExit(code)

    os.getpid, os.getppid, os.getpgrp, os.getpgid = getpid, getppid, getpgrp, lambda p: getpgrp()
    os.kill, os.killpg, os.fork, os._exit = kill, killpg, sim_fork, sim_exit

    # --- file locks
    for name in ("FileLock", "UnixFileLock", "SoftFileLock"):
        if hasattr(filelock, name):
            real[name] = getattr(filelock, name)
            setattr(filelock, name, kn.SimFileLock)

    # --- network: installed per run by the scenario
    real["urlretrieve"] = urllib.request.urlretrieve
    real["urlopen"] = urllib.request.urlopen

    def urlretrieve(url, filename=None, reporthook=None, data=None):
        k = kn.K
        net = getattr(k, "net", None) if k is not None else None
        if net is None:
            raise HarnessError("network used outside a simulated network: %s" % url)
        return net.urlretrieve(url, filename, reporthook)

    def urlopen(url, *a, **kw):
        k = kn.K
        net = getattr(k, "net", None) if k is not None else None
        if net is None:
            raise HarnessError("network used outside a simulated network: %s" % url)
        return net.urlopen(url)

    urllib.request.urlretrieve = urlretrieve
    urllib.request.urlopen = urlopen

    # --- file system seam
    from . import disk

    disk.install()

    # --- exceptions raised from __del__ while a dead process is being unwound
    real["unraisable"] = sys.unraisablehook

    def quiet(args):
        if isinstance(args.exc_value, (SimKilled, HarnessError)) or disk.CUR is not None or kn.K is not None:
            return
        real["unraisable"](args)

    sys.unraisablehook = quiet
