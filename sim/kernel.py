"""Deterministic kernel: simulated processes and threads, virtual clock, IPC.

Every simulated task runs the real pfrl code on a real thread, but exactly one
thread holds the baton at any time; it is handed over only at intercepted
operations (locks, pipes, events, shared values, sleeps, environment calls and,
if enabled, source lines of chosen files) and the choice sequence decides who
gets it.
"""
import _thread
import copy
import ctypes
import logging
import pickle
import random
import signal as _signal
import sys
import traceback
import types

from .errors import HarnessError, SimAbort, SimKilled, Violation

_allocate_lock = _thread.allocate_lock
_start_new_thread = _thread.start_new_thread

TICK = 1e-6

K = None  # the current kernel, or None outside a run


def current_kernel():
    return K


def _np():
    import numpy

    return numpy


def _torch():
    import torch

    return torch


class Proc:
    def __init__(self, kernel, pid, name, parent):
        self.kernel = kernel
        self.pid = pid
        self.name = name
        self.parent = parent
        self.alive = True
        self.exitcode = None
        self.tasks = []
        self.main_task = None
        self.rng = None
        self.sigs = dict(parent.sigs) if parent else {}
        self.error = None  # traceback text of the uncaught exception
        self.exc = None
        self.killed_by = None
        self.cwd = None
        self.held = 0  # locks held by its tasks

    def __deepcopy__(self, memo):
        return self


class Task:
    def __init__(self, kernel, tid, name, proc):
        self.kernel = kernel
        self.tid = tid
        self.name = name
        self.proc = proc
        self.baton = _allocate_lock()
        self.baton.acquire()
        self.state = "ready"  # ready, blocked, done, killed
        self.cond = None
        self.deadline = None
        self.label = ""
        self.pending = None  # exception to raise at next resume
        self.exc = None
        self.error = None
        self.started = False
        self.prio = 0
        self.stall_until = 0.0
        self.in_trace = False
        self.finished = False

    def __deepcopy__(self, memo):
        return self


class Kernel:
    def __init__(self, choices, step_cap=60000, strategy=None, trace_files=None,
                 trace_p=0.0, trace_opcodes=False):
        self.ch = choices
        self.now = 0.0
        self.epoch = 1.6e9
        self.skew = 0.0
        self.steps = 0
        self.step_cap = step_cap
        self.tasks = []
        self.procs = []
        self.next_pid = 1000
        self.current = None
        self.frozen = False
        self.failure = None
        self.on_stuck = None
        self.sched_hash = 0
        self.switches = 0
        self.trace = []
        self.trace_files = trace_files
        self.trace_p = trace_p
        self.trace_opcodes = trace_opcodes
        self.trace_lines = 0
        self.strategy = strategy or ("random", 1.0)
        self.consecutive = 0
        self.pipes = []
        self.queues = []
        self.filelocks = {}
        self.faults = {}
        self.probes = {}
        self.pipe_capacity = None
        self.pipe_bytes = None
        self.kill_plan = None  # fn(task, label) -> None or "kill"
        self.dead_objs = []

    def __deepcopy__(self, memo):
        return self

    # ------------------------------------------------------------ bookkeeping
    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def log(self, *what):
        if len(self.trace) < 4000:
            self.trace.append((round(self.now, 6), self.current.name if self.current else "-",
                               " ".join(str(w) for w in what)))

    def wall(self):
        return self.epoch + self.now + self.skew

    # ---------------------------------------------------------------- running
    def run(self, fn):
        """Runs fn as the main task of the main process on this real thread."""
        global K
        if K is not None:
            raise HarnessError("nested kernels")
        K = self
        proc = self._new_proc("main", None)
        task = self._new_task("main", proc)
        proc.main_task = task
        task.started = True
        self.current = task
        old_trace = sys.gettrace()
        try:
            if self.trace_files:
                sys.settrace(self._tracer)
            try:
                return fn()
            except SimAbort:
                raise self.failure
            except SimKilled:
                # the main process itself was killed (e.g. kill_all)
                return ("killed", proc.killed_by)
            finally:
                sys.settrace(old_trace)
                task.state = "done"
        finally:
            try:
                self._shutdown(task)
            finally:
                K = None

    def _shutdown(self, main):
        """Unwinds every task that is still parked, with all effects disabled."""
        self.frozen = True
        for t in self.tasks:
            if t is main or t.finished or not t.started:
                continue
            self.current = t
            t.pending = SimKilled()
            t.baton.release()
            main.baton.acquire()  # handed back by _task_body when it ends
        self.current = main

    def _new_proc(self, name, parent):
        p = Proc(self, self.next_pid, name, parent)
        self.next_pid += 1
        self.procs.append(p)
        return p

    def _new_task(self, name, proc):
        t = Task(self, len(self.tasks), name, proc)
        t.prio = self.ch.draw(1000, "prio") if self.strategy[0] == "pct" else 0
        self.tasks.append(t)
        proc.tasks.append(t)
        return t

    def spawn(self, name, proc, body):
        """Starts a task; body() runs when the scheduler first picks it."""
        t = self._new_task(name, proc)
        t.started = True
        _start_new_thread(self._task_body, (t, body))
        return t

    def _task_body(self, t, body):
        t.baton.acquire()
        try:
            if not self.frozen:
                if self.trace_files:
                    sys.settrace(self._tracer)
                try:
                    body()
                finally:
                    sys.settrace(None)
        except (SimKilled, SimAbort):
            pass
        except BaseException as e:  # harness bug: bodies catch their own
            if not self.frozen and self.failure is None:
                self.failure = HarnessError("task %s: %r\n%s" % (t.name, e, traceback.format_exc()))
        t.finished = True
        was_killed = t.state == "killed"
        t.state = "killed" if was_killed else "done"
        t.cond = None
        if self.frozen:
            t.state = "done"
            self.tasks[0].baton.release()
            return
        if self.failure is not None:
            self._abort_main(t)
            return
        nxt = self._pick(None, "exit")
        if nxt is None:
            self._abort_main(t)
            return
        self._handover(nxt)

    def _abort_main(self, t):
        main = self.tasks[0]
        main.pending = SimAbort()
        self._handover(main)

    # ------------------------------------------------------------- scheduling
    def _runnable(self):
        out = []
        now = self.now
        for t in self.tasks:
            st = t.state
            if st == "ready":
                if t.stall_until <= now:
                    out.append(t)
            elif st == "blocked":
                if t.pending is not None or (t.cond is not None and t.cond()) or (
                    t.deadline is not None and t.deadline <= now
                ):
                    out.append(t)
        return out

    def _next_deadline(self):
        best = None
        for t in self.tasks:
            if t.state == "blocked" and t.deadline is not None:
                d = t.deadline
            elif t.state == "ready" and t.stall_until > self.now:
                d = t.stall_until
            else:
                continue
            if best is None or d < best:
                best = d
        return best

    def _pick(self, cur, label):
        """Chooses the next task; None means the run must be aborted."""
        for _ in range(100):
            run = self._runnable()
            if run:
                break
            d = self._next_deadline()
            if d is not None:
                self.now = max(self.now, d) + 1e-9
                continue
            if self.on_stuck is not None and self.on_stuck():
                continue
            main = self.tasks[0]
            if main.state == "killed":
                # everything that can still run has run; the main process is dead
                main.pending = SimKilled()
                return main
            self.failure = Violation("deadlock", self.describe())
            return None
        else:
            self.failure = HarnessError("scheduler stuck: " + self.describe())
            return None
        if len(run) == 1:
            nxt = run[0]
        else:
            nxt = self._choose(cur, run)
        if nxt is cur:
            self.consecutive += 1
        else:
            self.consecutive = 0
            self.switches += 1
        self.sched_hash = hash((self.sched_hash, nxt.tid, len(label))) & 0xFFFFFFFFFFFFFFFF
        return nxt

    def _choose(self, cur, run):
        kind, arg = self.strategy
        if self.steps > self.step_cap // 3:
            # liveness is judged under a fair schedule
            kind = "random"
        if cur is not None and cur in run:
            others = [t for t in run if t is not cur]
            if self.consecutive > 60:
                return others[self.ch.draw(len(others), "sched")]
            if kind == "sticky":
                # 0 = stay
                if not self.ch.chance(arg, "preempt"):
                    return cur
                return others[self.ch.draw(len(others), "sched")]
            if kind == "pct":
                best = max(run, key=lambda t: (t.prio, -t.tid))
                if self.ch.chance(arg, "demote"):
                    best.prio = min(t.prio for t in self.tasks) - 1
                    best = max(run, key=lambda t: (t.prio, -t.tid))
                return best
            run = [cur] + others
            return run[self.ch.draw(len(run), "sched")]
        if kind == "pct":
            return max(run, key=lambda t: (t.prio, -t.tid))
        return run[self.ch.draw(len(run), "sched")]

    def _handover(self, nxt):
        self._switch_proc(self.current, nxt)
        self.current = nxt
        nxt.baton.release()

    def _switch_proc(self, a, b):
        if a is b or a.proc is b.proc:
            return
        a.proc.rng = (random.getstate(), _np().random.get_state(), _torch().get_rng_state())
        if b.proc.rng is not None:
            r = b.proc.rng
            random.setstate(r[0])
            _np().random.set_state(r[1])
            _torch().set_rng_state(r[2])

    def describe(self):
        return "; ".join(
            "%s:%s%s" % (t.name, t.state, "(" + t.label + ")" if t.state == "blocked" else "")
            for t in self.tasks if t.state not in ("done",)
        )

    def _check_alive(self):
        if self.frozen:
            raise SimKilled()

    def point(self, label=""):
        """A yield point of the current task."""
        cur = self.current
        if self.frozen:
            raise SimKilled()
        self.steps += 1
        self.now += TICK
        if self.steps > self.step_cap:
            self.failure = Violation("no-progress", "run exceeded %d steps: %s" % (self.step_cap, self.describe()))
            self._fail(cur)
        if self.kill_plan is not None:
            self.kill_plan(cur, label)
        cur.label = label
        nxt = self._pick(cur, label)
        if nxt is None:
            self._fail(cur)
        if nxt is not cur:
            self._handover(nxt)
            cur.baton.acquire()
        self._resume(cur)

    def _fail(self, cur):
        if cur is self.tasks[0]:
            raise SimAbort()
        self.tasks[0].pending = SimAbort()
        self._handover(self.tasks[0])
        cur.baton.acquire()
        raise SimKilled()

    def _resume(self, cur):
        cur.state = "ready"
        cur.cond = None
        cur.deadline = None
        if cur.pending is not None:
            e, cur.pending = cur.pending, None
            raise e
        if self.frozen:
            raise SimKilled()

    def block(self, cond, label="", timeout=None):
        """Blocks the current task until cond() or timeout; returns cond()."""
        cur = self.current
        if self.frozen:
            raise SimKilled()
        self.steps += 1
        self.now += TICK
        if self.steps > self.step_cap:
            self.failure = Violation("no-progress", "run exceeded %d steps: %s" % (self.step_cap, self.describe()))
            self._fail(cur)
        if self.kill_plan is not None:
            self.kill_plan(cur, label)
        cur.state = "blocked"
        cur.cond = cond
        cur.label = label
        cur.deadline = None if timeout is None else self.now + max(0.0, timeout)
        nxt = self._pick(cur, label)
        if nxt is None:
            cur.state = "ready"
            self._fail(cur)
        if nxt is not cur:
            self._handover(nxt)
            cur.baton.acquire()
        self._resume(cur)
        return cond is None or cond()

    def sleep(self, dt):
        if dt is None or dt < 0:
            raise ValueError("sleep length must be non-negative")
        self.block(lambda: False, "sleep", dt)

    # ------------------------------------------------------------ line tracing
    def _tracer(self, frame, event, arg):
        fn = frame.f_code.co_filename
        for suffix in self.trace_files:
            if fn.endswith(suffix):
                if self.trace_opcodes:
                    frame.f_trace_opcodes = True
                return self._local_trace
        return None

    def _local_trace(self, frame, event, arg):
        if event in ("line", "opcode"):
            cur = self.current
            if self.frozen or cur is None or cur.in_trace:
                return self._local_trace
            if _in_comprehension(frame):
                # CPython 3.12 mishandles exceptions raised by a trace function
                # inside an inlined comprehension (they skip the handlers)
                return self._local_trace
            self.trace_lines += 1
            cur.in_trace = True
            try:
                if self.ch.chance(self.trace_p, "line"):
                    self.point("L%d" % frame.f_lineno)
            finally:
                cur.in_trace = False
        return self._local_trace

    # --------------------------------------------------------------- processes
    def kill_proc(self, proc, sig):
        """Delivers a fatal signal: the process vanishes where it stands."""
        if not proc.alive:
            return
        proc.alive = False
        proc.exitcode = -sig
        proc.killed_by = sig
        for q in self.queues:
            q._visible()
            q.feeds.pop(proc.pid, None)
        me = self.current
        for t in proc.tasks:
            if t.state != "done":
                t.state = "killed"
        self._release_proc(proc)
        self.log("KILLED", proc.name, sig)
        if me.proc is proc:
            nxt = self._pick(None, "killed")
            if nxt is None:
                if me is self.tasks[0]:
                    raise SimAbort()
                self._abort_main(me)
            elif nxt is me:
                raise SimKilled()
            else:
                self._handover(nxt)
            me.baton.acquire()
            if me.pending is not None:
                e, me.pending = me.pending, None
                raise e
            raise SimKilled()

    def _release_proc(self, proc):
        for pe in self.pipes:
            pe.holders.discard(proc.pid)
        for path in list(self.filelocks):
            if self.filelocks[path][0] is proc:
                del self.filelocks[path]

    def send_signal(self, proc, sig):
        if not proc.alive:
            return
        h = proc.sigs.get(sig, _signal.SIG_DFL)
        if h == _signal.SIG_IGN:
            return
        if sig == _signal.SIGINT:
            t = proc.main_task
            if t.state in ("ready", "blocked"):
                t.pending = KeyboardInterrupt()
            return
        if callable(h):
            return
        self.kill_proc(proc, int(sig))


_exc_tables = {}


def _in_comprehension(frame):
    code = frame.f_code
    table = _exc_tables.get(code)
    if table is None:
        import dis

        table = []
        push = dis.opmap["PUSH_EXC_INFO"]
        for e in dis._parse_exception_table(code):
            if code.co_code[e.target] != push:
                table.append((e.start, e.end))
                table.append((e.target, e.target + 10))
        _exc_tables[code] = table
    i = frame.f_lasti
    for a, b in table:
        if a <= i <= b:
            return True
    return False


# ----------------------------------------------------------------- fork copying
def _copy_cell_contents(fn, memo):
    cells = []
    for c in fn.__closure__:
        try:
            v = c.cell_contents
        except ValueError:
            cells.append(types.CellType())
            continue
        key = ("cell", id(c))
        if key in memo:
            cells.append(memo[key])
            continue
        nc = types.CellType()
        memo[key] = nc
        nc.cell_contents = copy.deepcopy(v, memo)
        cells.append(nc)
    return tuple(cells)


def _copy_function(fn, memo):
    if fn.__closure__ is None and not fn.__defaults__ and not fn.__kwdefaults__:
        return fn
    new = types.FunctionType(fn.__code__, fn.__globals__, fn.__name__, None, None if fn.__closure__ is None else tuple(
        types.CellType() for _ in fn.__closure__))
    memo[id(fn)] = new
    if fn.__closure__ is not None:
        new = types.FunctionType(fn.__code__, fn.__globals__, fn.__name__, None, _copy_cell_contents(fn, memo))
        memo[id(fn)] = new
    new.__defaults__ = copy.deepcopy(fn.__defaults__, memo)
    new.__kwdefaults__ = copy.deepcopy(fn.__kwdefaults__, memo)
    new.__dict__.update(fn.__dict__)
    new.__qualname__ = fn.__qualname__
    memo.setdefault("keep", []).append(fn)
    return new


def _ident(x, memo):
    return x


def fork_copy(obj):
    """What a forked child sees: private copies of everything except shared
    memory tensors and kernel objects."""
    torch = _torch()
    d = copy._deepcopy_dispatch
    saved = {}

    def put(t, f):
        saved[t] = d.get(t)
        d[t] = f

    put(types.FunctionType, _copy_function)
    put(_thread.LockType, _ident)
    put(types.ModuleType, _ident)
    put(types.GeneratorType, _ident)
    put(logging.Logger, _ident)
    put(logging.RootLogger, _ident)
    t_old = torch.Tensor.__deepcopy__
    p_old = torch.nn.Parameter.__deepcopy__

    def t_copy(self, memo):
        if id(self) in memo:
            return memo[id(self)]
        if self.is_shared() and self.is_leaf:
            new = self.detach()
            new.requires_grad_(self.requires_grad)
            memo[id(self)] = new
            if self.grad is not None:
                new.grad = copy.deepcopy(self.grad, memo)
            return new
        return t_old(self, memo)

    def p_copy(self, memo):
        if id(self) in memo:
            return memo[id(self)]
        if self.is_shared():
            new = torch.nn.Parameter(self.data, self.requires_grad)
        else:
            new = torch.nn.Parameter(self.data.clone(memory_format=torch.preserve_format), self.requires_grad)
        memo[id(self)] = new
        if self.grad is not None:
            new.grad = self.grad if self.grad.is_shared() else self.grad.clone()
        return new

    def o_copy(self, memo):
        # (__setstate__ would convert parts of the state, fork() does not)
        new = type(self).__new__(type(self))
        memo[id(self)] = new
        for a, v in self.__dict__.items():
            # wrapped methods put on the instance are rebuilt by none: share them
            new.__dict__[a] = v if isinstance(v, types.MethodType) else copy.deepcopy(v, memo)
        return new

    torch.Tensor.__deepcopy__ = t_copy
    torch.nn.Parameter.__deepcopy__ = p_copy
    torch.optim.Optimizer.__deepcopy__ = o_copy
    try:
        return copy.deepcopy(obj, {})
    finally:
        torch.Tensor.__deepcopy__ = t_old
        torch.nn.Parameter.__deepcopy__ = p_old
        del torch.optim.Optimizer.__deepcopy__
        for t, f in saved.items():
            if f is None:
                del d[t]
            else:
                d[t] = f


# ------------------------------------------------------------------- primitives
class _Shared:
    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class Opaque(_Shared):
    """A harness function that is not copied into forked processes."""

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *a, **kw):
        return self.fn(*a, **kw)


def _kernel():
    if K is None:
        raise HarnessError("simulated primitive used outside a run")
    return K


class SimProcess(_Shared):
    _count = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target = target
        self._args = tuple(args)
        self._kwargs = dict(kwargs or {})
        self.name = name or "Process"
        self.daemon = bool(daemon)
        self._proc = None
        self._closed = False

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        k = _kernel()
        assert self._proc is None, "cannot start a process twice"
        parent = k.current.proc
        proc = k._new_proc("p%d" % len(k.procs), parent)
        self._proc = proc
        for pe in k.pipes:
            if parent.pid in pe.holders:
                pe.holders.add(proc.pid)
        target, args, kwargs = fork_copy((self._target, self._args, self._kwargs))
        # the child inherits the random state of its parent, as after fork()
        proc.rng = (random.getstate(), _np().random.get_state(), _torch().get_rng_state())
        custom_run = type(self).run is not SimProcess.run

        def body():
            code = 0
            try:
                if custom_run:
                    self.run()
                elif target:
                    target(*args, **kwargs)
            except SystemExit as e:
                code = 0 if e.code is None else (e.code if isinstance(e.code, int) else 1)
            except (SimKilled, SimAbort):
                raise
            except BaseException as e:
                if k.frozen:
                    raise SimKilled()
                code = 1
                proc.exc = e
                proc.error = traceback.format_exc()
                k.log("process died:", repr(e))
            if k.frozen:
                raise SimKilled()
            # a process waits for its non-daemon threads
            while any(t.state not in ("done", "killed") and t is not k.current and not getattr(t, "daemon", False)
                      for t in proc.tasks):
                k.block(lambda: not any(
                    t.state not in ("done", "killed") and t is not proc.main_task and not getattr(t, "daemon", False)
                    for t in proc.tasks), "exit-join-threads")
            # ... and for what it has put into queues to be handed over
            for q in k.queues:
                lst = q.feeds.get(proc.pid)
                if lst and proc.pid not in q.cancelled:
                    dl = lst[-1][0]
                    if dl > k.now:
                        k.sleep(dl - k.now)
                    q._visible()
            for q in k.queues:
                q.feeds.pop(proc.pid, None)
            proc.alive = False
            proc.exitcode = code
            for t in proc.tasks:
                if t is not k.current and t.state != "done":
                    t.state = "killed"
            k._release_proc(proc)

        proc.main_task = k.spawn(proc.name, proc, body)
        k.log("start", proc.name)
        k.point("proc-start")

    @property
    def pid(self):
        return self._proc.pid if self._proc else None

    ident = pid

    @property
    def exitcode(self):
        return self._proc.exitcode if self._proc else None

    def is_alive(self):
        k = _kernel()
        k.point("is_alive")
        return self._proc is not None and self._proc.alive

    def join(self, timeout=None):
        k = _kernel()
        assert self._proc is not None, "can only join a started process"
        p = self._proc
        if not p.alive:
            k.point("join")
            return
        k.block(lambda: not p.alive, "join " + p.name, timeout)

    def terminate(self):
        k = _kernel()
        k.point("terminate")
        k.send_signal(self._proc, _signal.SIGTERM)

    def kill(self):
        k = _kernel()
        k.point("kill")
        k.kill_proc(self._proc, 9)

    def close(self):
        self._closed = True

    @property
    def sentinel(self):
        return self


class SimThread(_Shared):
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target = target
        self._args = tuple(args)
        self._kwargs = dict(kwargs or {})
        self.name = name or "Thread"
        self.daemon = bool(daemon)
        self._task = None
        self._exc = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        k = _kernel()
        if self._task is not None:
            raise RuntimeError("threads can only be started once")
        proc = k.current.proc

        def body():
            try:
                self.run()
            except (SimKilled, SimAbort, SystemExit):
                raise
            except BaseException as e:
                if k.frozen:
                    raise SimKilled()
                self._exc = e
                self._task.exc = e
                self._task.error = traceback.format_exc()
                k.log("thread died:", repr(e))

        self._task = k.spawn("t%d" % len(k.tasks), proc, body)
        self._task.daemon = self.daemon
        self._task.thread_obj = self
        k.point("thread-start")

    def join(self, timeout=None):
        k = _kernel()
        if self._task is None:
            raise RuntimeError("cannot join thread before it is started")
        t = self._task
        if t.state in ("done", "killed"):
            k.point("tjoin")
            return
        k.block(lambda: t.state in ("done", "killed"), "join " + t.name, timeout)

    def is_alive(self):
        k = _kernel()
        k.point("is_alive")
        return self._task is not None and self._task.state not in ("done", "killed")

    @property
    def ident(self):
        return self._task.tid + 1 if self._task else None

    def setDaemon(self, d):
        self.daemon = d


class SimLock(_Shared):
    reentrant = False

    def __init__(self, *a, **kw):
        self.owner = None
        self.count = 0

    def _me(self, k):
        return k.current

    def acquire(self, blocking=True, timeout=None, block=None):
        k = _kernel()
        if block is not None:
            blocking = block
        if timeout is not None and timeout < 0:
            timeout = None
        me = self._me(k)
        k.point("acquire")
        if self.reentrant and self.owner is me:
            self.count += 1
            return True
        if self.owner is None:
            self.owner = me
            self.count = 1
            me.proc.held += 1
            return True
        if not blocking:
            return False
        k.probe("lock-contended")
        ok = k.block(lambda: self.owner is None, "lock", timeout)
        if not ok:
            return False
        self.owner = me
        self.count = 1
        me.proc.held += 1
        return True

    def release(self):
        k = _kernel()
        if k.frozen:
            raise SimKilled()
        if self.owner is None:
            raise ValueError("semaphore or lock released too many times")
        self.count -= 1
        if self.count <= 0:
            self.owner.proc.held -= 1
            self.owner = None
        k.point("release")

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True


class SimSemaphore(_Shared):
    def __init__(self, value=1):
        self.n = value

    def acquire(self, blocking=True, timeout=None, block=None):
        k = _kernel()
        if block is not None:
            blocking = block
        k.point("sem")
        if self.n > 0:
            self.n -= 1
            return True
        if not blocking:
            return False
        if not k.block(lambda: self.n > 0, "sem", timeout):
            return False
        self.n -= 1
        return True

    def release(self, n=1):
        self.n += n
        _kernel().point("sem-release")

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimEvent(_Shared):
    def __init__(self, *a, **kw):
        self.flag = False

    def is_set(self):
        k = _kernel()
        k.point("is_set")
        return self.flag

    isSet = is_set

    def set(self):
        k = _kernel()
        k.point("set")
        self.flag = True

    def clear(self):
        k = _kernel()
        k.point("clear")
        self.flag = False

    def wait(self, timeout=None):
        k = _kernel()
        if self.flag:
            k.point("wait")
            return True
        k.block(lambda: self.flag, "event", timeout)
        return self.flag


class SimCondition(_Shared):
    def __init__(self, lock=None):
        self.lock = lock if lock is not None else SimRLock()
        self.waiters = []

    def acquire(self, *a, **kw):
        return self.lock.acquire(*a, **kw)

    def release(self):
        self.lock.release()

    def __enter__(self):
        self.lock.acquire()
        return self

    def __exit__(self, *a):
        self.lock.release()

    def wait(self, timeout=None):
        k = _kernel()
        token = [False]
        self.waiters.append(token)
        self.lock.release()
        ok = k.block(lambda: token[0], "cond", timeout)
        if token in self.waiters:
            self.waiters.remove(token)
        self.lock.acquire()
        return ok

    def wait_for(self, predicate, timeout=None):
        while not predicate():
            if not self.wait(timeout):
                return predicate()
        return True

    def notify(self, n=1):
        for tok in self.waiters[:n]:
            tok[0] = True
        del self.waiters[:n]

    def notify_all(self):
        self.notify(len(self.waiters))


_TYPECODES = {
    "c": ctypes.c_char, "b": ctypes.c_byte, "B": ctypes.c_ubyte, "h": ctypes.c_short, "H": ctypes.c_ushort,
    "i": ctypes.c_int, "I": ctypes.c_uint, "l": ctypes.c_long, "L": ctypes.c_ulong, "q": ctypes.c_longlong,
    "Q": ctypes.c_ulonglong, "f": ctypes.c_float, "d": ctypes.c_double, "?": ctypes.c_bool,
}


class SimValue(_Shared):
    def __init__(self, typecode, *args, lock=True):
        t = _TYPECODES.get(typecode, typecode) if isinstance(typecode, str) else typecode
        self.obj = t(*args)
        if lock is True or lock is None:
            self.lock = SimRLock()
        elif lock is False:
            self.lock = None
        else:
            self.lock = lock

    def get_lock(self):
        return self.lock

    def get_obj(self):
        return self.obj

    @property
    def value(self):
        if K is not None:
            K.point("value-get")
            if self.lock is not None and self.lock.owner not in (None, K.current):
                with self.lock:
                    return self.obj.value
        return self.obj.value

    @value.setter
    def value(self, v):
        if K is not None:
            K.point("value-set")
            if self.lock is not None and self.lock.owner not in (None, K.current):
                with self.lock:
                    self.obj.value = v
                    return
        self.obj.value = v

    # used by oracles: no scheduling
    def peek(self):
        return self.obj.value

    def __enter__(self):
        self.lock.acquire()
        return self

    def __exit__(self, *a):
        self.lock.release()

    def acquire(self, *a, **k):
        return self.lock.acquire(*a, **k)

    def release(self):
        self.lock.release()


class SimConn(_Shared):
    """One end of a simulated pipe."""

    def __init__(self, kernel, readable=True, writable=True):
        self.k = kernel
        self.peer = None
        self.inbox = []
        self.holders = {kernel.current.proc.pid}
        self.closed_in = set()
        self.readable = readable
        self.writable = writable
        kernel.pipes.append(self)

    @property
    def closed(self):
        return self.k.current.proc.pid in self.closed_in

    def _check(self):
        if self.closed:
            raise OSError("handle is closed")

    def fileno(self):
        return 10000 + self.k.pipes.index(self)

    def send(self, obj):
        k = _kernel()
        self._check()
        data = pickle.dumps(obj)
        k.point("send")
        if k.pipe_capacity is not None and len(self.peer.inbox) >= k.pipe_capacity:
            k.probe("pipe-full")
            k.block(lambda: len(self.peer.inbox) < k.pipe_capacity or not self.peer.holders, "send")
        if not self.peer.holders:
            raise BrokenPipeError(32, "Broken pipe")
        self.peer.inbox.append(data)
        if k.pipe_bytes is not None and sum(map(len, self.peer.inbox)) > k.pipe_bytes:
            # like a real pipe: the writer of what does not fit waits for the reader
            k.probe("pipe-full")
            k.block(lambda: sum(map(len, self.peer.inbox)) <= k.pipe_bytes or not self.peer.holders, "send")

    def send_bytes(self, buf):
        self.send(bytes(buf))

    def recv_bytes(self):
        return self.recv()

    def recv(self):
        k = _kernel()
        self._check()
        k.block(lambda: bool(self.inbox) or not self.peer.holders, "recv")
        if not self.inbox:
            raise EOFError()
        return pickle.loads(self.inbox.pop(0))

    def poll(self, timeout=0.0):
        k = _kernel()
        self._check()
        if self.inbox or not self.peer.holders:
            k.point("poll")
            return True
        if not timeout and timeout is not None:
            k.point("poll")
            return bool(self.inbox) or not self.peer.holders
        k.block(lambda: bool(self.inbox) or not self.peer.holders, "poll", timeout)
        return bool(self.inbox) or not self.peer.holders

    def close(self):
        pid = self.k.current.proc.pid
        self.closed_in.add(pid)
        self.holders.discard(pid)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def sim_pipe(duplex=True):
    k = _kernel()
    a, b = SimConn(k), SimConn(k)
    a.peer, b.peer = b, a
    return a, b


def sim_wait(object_list, timeout=None):
    k = _kernel()

    def ready():
        out = []
        for o in object_list:
            if isinstance(o, SimConn) and (o.inbox or not o.peer.holders):
                out.append(o)
            elif isinstance(o, SimProcess) and not o._proc.alive:
                out.append(o)
        return out

    k.block(lambda: bool(ready()), "wait", timeout)
    return ready()


class QueueEmpty(Exception):
    pass


class SimQueue(_Shared):
    """multiprocessing.Queue: put() hands the item to a feeder; the item becomes
    visible some time later, in order per producing process.  With thread=True
    (queue.Queue) it is visible at once."""

    feeder = True

    def __init__(self, maxsize=0, thread=False, ctx=None):
        import queue

        self.k = _kernel()
        self.k.queues.append(self)
        self.cancelled = set()
        self.items = []
        self.feeds = {}
        self.thread = thread
        self.maxsize = maxsize if maxsize > 0 else None
        self.Empty = queue.Empty
        self.Full = queue.Full

    def _visible(self):
        now = self.k.now
        for pid, lst in self.feeds.items():
            while lst and lst[0][0] <= now:
                self.items.append(lst.pop(0)[1])
        return self.items

    def _pending_deadline(self):
        return min((lst[0][0] for lst in self.feeds.values() if lst), default=None)

    def put(self, obj, block=True, timeout=None):
        k = self.k
        data = obj if self.thread else pickle.dumps(obj)
        k.point("put")
        if self.maxsize is not None:
            k.block(lambda: len(self._visible()) < self.maxsize, "put", timeout)
        if self.thread:
            self.items.append(data)
        else:
            delay = 0.0
            if self.feeder and k.ch.chance(0.5, "feeder-delay"):
                delay = (1 + k.ch.draw(40, "feeder-delay")) * TICK * 4
                k.probe("feeder-delay")
            lst = self.feeds.setdefault(k.current.proc.pid, [])
            t = k.now + delay
            if lst:
                t = max(t, lst[-1][0])
            lst.append((t, data))

    def put_nowait(self, obj):
        self.put(obj, False)

    def get(self, block=True, timeout=None):
        k = self.k
        if not block:
            k.point("get")
            if not self._visible():
                raise self.Empty()
        else:
            while not self._visible():
                d = self._pending_deadline()
                lim = timeout
                if d is not None:
                    w = max(0.0, d - k.now)
                    if lim is None or w < lim:
                        k.block(lambda: bool(self._visible()), "get", w)
                        if lim is not None:
                            timeout = lim - w
                        continue
                k.block(lambda: bool(self._visible()) or self._pending_deadline() is not None, "get", lim)
                if not self._visible() and self._pending_deadline() is None and lim is not None:
                    raise self.Empty()
        data = self.items.pop(0)
        return data if self.thread else pickle.loads(data)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        self.k.point("empty")
        return not self._visible()

    def qsize(self):
        self.k.point("qsize")
        return len(self._visible())

    def full(self):
        return self.maxsize is not None and len(self._visible()) >= self.maxsize

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        self.cancelled.add(self.k.current.proc.pid)

    def task_done(self):
        pass


class SimFileLock(_Shared):
    """An advisory lock on a path, held per simulated process, dropped by the
    kernel when the holder dies (as flock is)."""

    def __init__(self, lock_file, timeout=-1, *a, **kw):
        self.path = str(lock_file)
        self.lock_file = self.path
        self.timeout = timeout
        self.depth = 0

    def acquire(self, timeout=None, poll_interval=None, **kw):
        import filelock

        k = _kernel()
        timeout = self.timeout if timeout is None else timeout
        # created through the file-system seam, exactly as flock would
        with open(self.path, "a"):
            pass
        k.point("flock")
        held = k.filelocks.get(self.path)
        if held is not None and held[1] is self:
            self.depth += 1
            return self
        if held is not None:
            k.probe("flock-contended")
            ok = k.block(lambda: self.path not in k.filelocks, "flock", None if timeout is None or timeout < 0 else timeout)
            if not ok:
                raise filelock.Timeout(self.path)
        k.filelocks[self.path] = (k.current.proc, self)
        self.depth = 1
        return self

    def release(self, force=False):
        k = _kernel()
        if k.frozen:
            raise SimKilled()
        self.depth -= 1
        if self.depth <= 0 or force:
            held = k.filelocks.get(self.path)
            if held is not None and held[1] is self:
                del k.filelocks[self.path]
        k.point("funlock")

    @property
    def is_locked(self):
        return self.depth > 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimSimpleQueue(SimQueue):
    """multiprocessing.SimpleQueue: put() writes to the pipe itself."""

    feeder = False
