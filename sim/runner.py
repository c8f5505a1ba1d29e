"""Search driver: seeded runs on several cores, watchdog, minimiser, replay
files, evidence."""
import gc
import hashlib
import importlib
import json
import os
import select
import shutil
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))

real_time = time.time
real_sleep = time.sleep
real_kill = os.kill
real_fork = os.fork
real_exit = os._exit
real_getpid = os.getpid
real_signal = signal.signal
real_open = open

HANG_S = 60.0
MAX_RSS = 3 << 30  # a run that needs more than this is one that never stops growing


def bootstrap():
    """Imports the heavy libraries, installs the shims, then imports pfrl."""
    import logging
    import warnings

    import numpy  # noqa
    import torch

    import gym  # noqa
    import scipy.signal  # noqa
    import scipy.stats  # noqa
    import cv2  # noqa

    for m in ("optuna", "zipfile", "tempfile", "urllib.request", "filelock", "torch.multiprocessing", "subprocess",
              "torch.optim", "statistics", "cProfile", "concurrent.futures"):
        try:
            importlib.import_module(m)
        except ImportError:
            pass
    torch.set_num_threads(1)
    try:
        torch.set_num_interop_threads(1)
    except RuntimeError:
        pass
    # pull in the lazily imported parts of torch before the seams are replaced
    p = torch.nn.Linear(2, 2)
    o = torch.optim.Adam(p.parameters())
    p(torch.zeros(1, 2)).sum().backward()
    o.step()
    from . import shims

    shims.install()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import pfrl

    if not os.path.abspath(pfrl.__file__).startswith(REPO + os.sep):
        raise SystemExit("pfrl imported from %s, not %s" % (pfrl.__file__, REPO))
    import pfrl.experiments  # noqa
    import pfrl.experiments.train_agent_async  # noqa
    import pfrl.utils.pretrained_models  # noqa

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")


class Ctx:
    """What a scenario sees of one run."""

    def __init__(self, ch, scratch_root, tier):
        from .disk import Disk

        self.ch = ch
        self.tier = tier
        self._root = scratch_root
        self._h = hashlib.sha256()
        self.events = []
        self.nevents = 0
        self.faults = {}
        self.probes = {}
        self.sim_time = 0.0
        self.steps = 0
        self.nontrivial = False
        self.states = set()
        self.sched = 0
        self._n = 0
        self._Disk = Disk
        self.sample = None

    def __deepcopy__(self, memo):
        return self

    def scratch(self):
        self._n += 1
        d = os.path.join(self._root, "run%d" % self._n)
        os.makedirs(d)
        return d

    def event(self, *what):
        s = " ".join(str(w) for w in what)
        self.nevents += 1
        self._h.update(s.encode("utf-8", "replace") + b"\n")
        if len(self.events) < 3000:
            self.events.append(s)

    def digest_only(self, s):
        self._h.update(str(s).encode("utf-8", "replace") + b"\n")

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, kind, n=1):
        if n:
            self.probes[kind] = self.probes.get(kind, 0) + n

    def kernel(self, **kw):
        from .kernel import Kernel

        if "strategy" not in kw:
            kind = self.ch.pick(["random", "sticky", "sticky", "pct"], "strategy")
            arg = {"random": 1.0, "sticky": self.ch.pick([0.05, 0.2, 0.5], "sticky-p"),
                   "pct": self.ch.pick([0.002, 0.01, 0.05], "pct-p")}[kind]
            kw["strategy"] = (kind, arg)
        return Kernel(self.ch, **kw)

    def absorb(self, k):
        """Takes over the counters of a finished kernel."""
        for a, b in k.faults.items():
            self.fault(a, b)
        for a, b in k.probes.items():
            self.probe(a, b)
        self.sim_time += k.now
        self.steps += k.steps
        self.sched ^= k.sched_hash
        self.digest_only("sched %x %d %d" % (k.sched_hash, k.steps, k.switches))

    def absorb_disk(self, d):
        for a, b in d.faults.items():
            self.fault(a, b)

    def digest(self):
        return self._h.hexdigest()[:16]


def _classify(e):
    """(kind, message, is_harness)"""
    from .errors import HarnessError, Violation

    if isinstance(e, Violation):
        return e.kind, e.msg, False
    tb = traceback.extract_tb(e.__traceback__)
    text = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3500:]
    if isinstance(e, (HarnessError, MemoryError)):
        return "harness", text, True
    last = None
    for fr in tb:
        if fr.filename.startswith(os.path.join(REPO, "pfrl")):
            last = fr
    if last is None:
        return "oracle-exception:%s" % type(e).__name__, text, False
    return "exception:%s@%s" % (type(e).__name__, os.path.basename(last.filename)), text, False


def run_one(mod, scenario, ch, scratch, tier):
    """Executes one simulated run; returns a plain dict."""
    import random

    import numpy as np
    import torch

    from . import disk as diskmod
    from . import kernel as kn

    base = os.path.join(scratch, "w%d" % real_getpid())
    os.makedirs(base, exist_ok=True)
    ctx = Ctx(ch, base, tier)
    random.seed(12345)
    np.random.seed(12345)
    torch.manual_seed(12345)
    import tempfile

    tempfile._name_sequence = iter("tmp%06d" % i for i in range(10**6))
    kn.K = None
    diskmod.use(None)
    gc.collect(0)
    gc.disable()
    out = {"viol": None, "harness": None}
    try:
        mod.SCENARIOS[scenario][0](ctx)
    except BaseException as e:
        if isinstance(e, (SystemExit, KeyboardInterrupt)) and kn.K is None and not isinstance(e, Exception):
            kind, msg, harness = "exception:%s" % type(e).__name__, traceback.format_exc()[-3000:], False
        else:
            kind, msg, harness = _classify(e)
        if harness:
            out["harness"] = msg
        else:
            out["viol"] = (kind, msg)
    finally:
        kn.K = None
        diskmod.use(None)
        gc.enable()
        cleanup = getattr(mod, "cleanup", None)
        if cleanup:
            cleanup()
        shutil.rmtree(base, ignore_errors=True)
    out.update(digest=ctx.digest(), faults=ctx.faults, probes=ctx.probes, sim_time=ctx.sim_time, steps=ctx.steps,
               nontrivial=bool(ctx.nontrivial), nevents=ctx.nevents, nchoices=len(ch.log), sched=ctx.sched,
               states=list(ctx.states)[:200])
    out["_ctx"] = ctx
    return out


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with real_open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: "):
                    # known: property=C01 scenario=<s> kind=<k> match=<substring> :: text
                    head, _, text = line[len("known: "):].partition(" :: ")
                    d = dict(kv.split("=", 1) for kv in head.split())
                    if d.get("property") == prop:
                        d["text"] = text
                        out.append(d)
    return out


def match_known(known, scenario, kind, msg):
    for k in known:
        if k.get("scenario", scenario) != scenario:
            continue
        if k.get("kind", kind) != kind:
            continue
        if "match" in k and k["match"].replace("_", " ") not in msg:
            continue
        return k
    return None


# ------------------------------------------------------------------------ workers
def _child(fn):
    """Forks; the child runs fn(write) and exits.  Returns (pid, read fd)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = real_fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            real_signal(signal.SIGINT, signal.SIG_DFL)
            real_signal(signal.SIGTERM, signal.SIG_DFL)

            def write(obj):
                data = (json.dumps(obj) + "\n").encode()
                while data:
                    n = os.write(w, data)
                    data = data[n:]

            fn(write)
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            real_exit(code)
    os.close(w)
    return pid, r


def seed_for(mod, scenario, seed, i):
    from .choices import derive_seed

    return derive_seed(mod.PROPERTY, scenario, seed, i)


def _worker(mod, jobs, seed, scratch, tier, start):
    from .choices import Choices

    def fn(write):
        import faulthandler

        faulthandler.register(signal.SIGUSR1, all_threads=True)
        for n in range(start, len(jobs)):
            scenario, i = jobs[n]
            write({"t": "s", "n": n})
            ch = Choices(seed=seed_for(mod, scenario, seed, i))
            res = run_one(mod, scenario, ch, scratch, tier)
            ctx = res.pop("_ctx")
            res.update(t="r", n=n, scenario=scenario, i=i)
            if res["viol"]:
                res["choices"] = ch.log
                res["events"] = ctx.events[-400:]
            if i < 2:
                res["sample"] = ctx.sample or ctx.events[:25]
            write(res)
        write({"t": "end"})

    return fn


class _Reader:
    def __init__(self, fd):
        self.fd = fd
        self.buf = b""

    def read(self):
        """Returns (messages, eof)."""
        data = os.read(self.fd, 1 << 20)
        if not data:
            return [], True
        self.buf += data
        lines = self.buf.split(b"\n")
        self.buf = lines.pop()
        return [json.loads(x) for x in lines], False


def _kill(pid):
    try:
        real_kill(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    try:
        os.waitpid(pid, 0)
    except ChildProcessError:
        pass


def _rss(pid):
    try:
        with real_open("/proc/%d/statm" % pid) as f:
            return int(f.read().split()[1]) * 4096
    except (OSError, ValueError, IndexError):
        return 0


def isolated(fn, timeout):
    """Runs fn(write) in a forked child; returns (last messages, finished)."""
    pid, fd = _child(fn)
    rd = _Reader(fd)
    msgs = []
    end = real_time() + timeout
    finished = False
    while real_time() < end:
        r, _, _ = select.select([fd], [], [], max(0.0, min(1.0, end - real_time())))
        if r:
            m, eof = rd.read()
            msgs += m
            if eof:
                finished = True
                break
        if _rss(pid) > MAX_RSS:
            break
    _kill(pid)
    os.close(fd)
    return msgs, finished


# ---------------------------------------------------------------------- minimiser
def shrink(mod, scenario, choices, kind, scratch, tier, budget):
    """Shorter / smaller choice sequence with the same violation kind."""
    from .choices import Choices

    def fn(write):
        end = real_time() + budget
        best = list(choices)

        def attempt(script):
            ch = Choices(script=script)
            res = run_one(mod, scenario, ch, scratch, tier)
            v = res["viol"]
            if v and v[0] == kind:
                out = ch.log
                while out and out[-1] == 0:
                    out = out[:-1]
                return out
            return None

        def better(a, b):
            return (len(a), sum(1 for x in a if x), sum(a)) < (len(b), sum(1 for x in b if x), sum(b))

        first = attempt(best)
        if first is None:
            write({"best": best, "repro": False})
            return
        best = first
        write({"best": best, "repro": True})
        improved = True
        tries = 0
        while improved and real_time() < end:
            improved = False
            # delete / zero blocks
            for mode in ("del", "zero"):
                size = max(1, len(best) // 2)
                while size >= 1 and real_time() < end:
                    pos = 0
                    while pos < len(best) and real_time() < end:
                        blk = best[pos:pos + size]
                        if mode == "del":
                            cand = best[:pos] + best[pos + size:]
                        else:
                            if not any(blk):
                                pos += size
                                continue
                            cand = best[:pos] + [0] * len(blk) + best[pos + size:]
                        tries += 1
                        got = attempt(cand)
                        if got is not None and better(got, best):
                            best = got
                            write({"best": best, "repro": True})
                            improved = True
                        else:
                            pos += size
                    size //= 2
            # lower values
            pos = 0
            while pos < len(best) and real_time() < end:
                v = best[pos]
                for nv in (v // 2, v - 1):
                    if 0 <= nv < v and pos < len(best):
                        tries += 1
                        got = attempt(best[:pos] + [nv] + best[pos + 1:])
                        if got is not None and better(got, best):
                            best = got
                            write({"best": best, "repro": True})
                            improved = True
                            break
                pos += 1
        write({"best": best, "repro": True, "tries": tries})

    msgs, _ = isolated(fn, budget + 60)
    if not msgs:
        return choices, False
    return msgs[-1]["best"], msgs[-1]["repro"]


def replay_file(mod, path, scratch, verbose=True):
    """Returns (kind or None, msg, ctx)."""
    from .choices import Choices

    with real_open(path) as f:
        rp = json.load(f)
    if rp.get("choices") is not None:
        ch = Choices(script=rp["choices"])
    else:
        ch = Choices(seed=rp["run_seed"])
    res = run_one(mod, rp["scenario"], ch, scratch, rp.get("tier", "quick"))
    return rp, res


# --------------------------------------------------------------------------- main
def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "0")))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--scenario", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--one", type=int, default=None, help="run one index of --scenario verbosely")
    ap.add_argument("--digests", default=None, help="write run digests to this file")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--cap", type=float, default=None)
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation; list kinds")
    a = ap.parse_args(argv)
    t0 = real_time()
    mod = importlib.import_module("props." + a.property.lower())
    bootstrap()
    if hasattr(mod, "prepare"):
        mod.prepare()
    shm = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    import tempfile

    scratch = tempfile.mkdtemp(prefix="vpsim.", dir=shm)

    def bye(sig, frame):
        shutil.rmtree(scratch, ignore_errors=True)
        real_exit(2)

    real_signal(signal.SIGTERM, bye)
    real_signal(signal.SIGINT, bye)
    try:
        if a.replay:
            return do_replay(mod, a, scratch)
        if a.one is not None:
            return do_one(mod, a, scratch)
        return do_search(mod, a, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def do_one(mod, a, scratch):
    from .choices import Choices

    ch = Choices(seed=seed_for(mod, a.scenario, a.seed, a.one))
    res = run_one(mod, a.scenario, ch, scratch, a.tier)
    ctx = res.pop("_ctx")
    for e in ctx.events:
        print("  ", e)
    print({k: v for k, v in res.items() if k not in ("states",)})
    if res["viol"]:
        print(res["viol"][0])
        print(res["viol"][1])
    if res["harness"]:
        print(res["harness"])
    return 1 if res["viol"] else 0


def do_replay(mod, a, scratch):
    with real_open(a.replay) as f:
        rp = json.load(f)

    def fn(write):
        rp, res = replay_file(mod, a.replay, scratch)
        ctx = res.pop("_ctx")
        write({"viol": res["viol"], "harness": res["harness"], "events": ctx.events, "digest": res["digest"]})

    msgs, finished = isolated(fn, 1.5 * HANG_S)
    if not msgs:
        if rp["kind"] == "hang":
            print("the run does not end (killed after %d s)" % (1.5 * HANG_S))
            print("VIOLATION property=%s replay=%s" % (mod.PROPERTY, a.replay))
            return 1
        print("replay did not finish")
        return 2
    m = msgs[-1]
    for e in m["events"]:
        print("  ", e)
    if m["viol"]:
        print("violation kind: %s\n%s" % tuple(m["viol"]))
        print("digest", m["digest"])
        print("VIOLATION property=%s replay=%s" % (mod.PROPERTY, a.replay))
        return 1
    print("no violation on replay")
    return 0 if not m["harness"] else 2


def do_search(mod, a, scratch, t0):
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    workers = a.workers or min(8, os.cpu_count() or 1)
    cap = a.cap or (float(os.environ.get("VERIF_CAP", 0)) or (200.0 if tier == "quick" else 1500.0))
    jobs = []
    per = {}
    for name, (fn, quick_n, thorough_n) in mod.SCENARIOS.items():
        if a.scenario and name != a.scenario:
            continue
        n = max(1, int((quick_n if tier == "quick" else thorough_n) * a.scale))
        per[name] = n
    # interleave scenarios so that an early stop still covers all of them
    idx = {n: 0 for n in per}
    total = sum(per.values())
    for j in range(total):
        name = min((n for n in per if idx[n] < per[n]), key=lambda n: (idx[n] / per[n], n))
        jobs.append((name, idx[name]))
        idx[name] += 1
    known = known_findings(mod.PROPERTY)
    hit_known = {}
    shares = [jobs[w::workers] for w in range(workers)]
    procs = {}

    def spawn(w, start):
        pid, fd = _child(_worker(mod, shares[w], a.seed, scratch, tier, start))
        procs[fd] = dict(pid=pid, rd=_Reader(fd), w=w, cur=start, last=real_time(), done=False)

    for w in range(workers):
        if shares[w]:
            spawn(w, 0)
    agg = dict(runs=0, steps=0, sim_time=0.0, faults={}, probes={}, digests=set(), nontrivial=set(), scheds=set(),
               states=set(), by_scenario={}, samples={}, events=0, choices=0)
    digests = {}
    viol = None
    allkinds = {}
    harness = None
    capped = False
    search0 = real_time()
    while procs:
        if real_time() - search0 > cap:
            capped = True
            break
        r, _, _ = select.select(list(procs), [], [], 1.0)
        for fd in r:
            p = procs[fd]
            try:
                msgs, eof = p["rd"].read()
            except OSError:
                msgs, eof = [], True
            p["last"] = real_time()
            for m in msgs:
                if m["t"] == "s":
                    p["cur"] = m["n"]
                elif m["t"] == "end":
                    p["done"] = True
                else:
                    _take(agg, digests, m)
                    if m["harness"] and harness is None:
                        harness = (m["scenario"], m["i"], m["harness"])
                    if m["viol"]:
                        k = match_known(known, m["scenario"], m["viol"][0], m["viol"][1])
                        if k is not None:
                            hit_known.setdefault(k["text"], k)
                        elif a.all:
                            key = (m["scenario"], m["viol"][0])
                            allkinds.setdefault(key, []).append((m["i"], m["viol"][1][-300:]))
                        elif viol is None:
                            viol = m
            if eof:
                os.close(fd)
                try:
                    _, st = os.waitpid(p["pid"], 0)
                except ChildProcessError:
                    st = 0
                del procs[fd]
                if not p["done"]:
                    # the real worker died (segfault, OOM): try that run alone
                    job = shares[p["w"]][p["cur"]]
                    sig = st & 0x7F
                    print("worker died (status %d) in %s #%d" % (st, job[0], job[1]), file=sys.stderr)
                    bad = _confirm_death(mod, job, a.seed, scratch, tier)
                    if bad:
                        viol = viol or bad
                    elif p["cur"] + 1 < len(shares[p["w"]]):
                        spawn(p["w"], p["cur"] + 1)
        if viol is not None or harness is not None:
            break
        now = real_time()
        for fd, p in list(procs.items()):
            if now - p["last"] > HANG_S or _rss(p["pid"]) > MAX_RSS:
                _kill(p["pid"])
                os.close(fd)
                del procs[fd]
                job = shares[p["w"]][p["cur"]]
                for q in procs.values():
                    q["last"] += 1.5 * HANG_S  # (they cannot report while this one is looked into)
                bad = _confirm_death(mod, job, a.seed, scratch, tier)
                if bad:
                    viol = viol or bad
                    break
                elif p["cur"] + 1 < len(shares[p["w"]]):
                    spawn(p["w"], p["cur"] + 1)
        if viol is not None:
            break
    for fd, p in procs.items():
        _kill(p["pid"])
        os.close(fd)
    search_s = real_time() - search0

    if a.digests:
        with real_open(a.digests, "w") as f:
            for k in sorted(digests):
                f.write("%s %d %s\n" % (k[0], k[1], digests[k]))

    code = 0
    nviol = 0
    for text, k in sorted(hit_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (mod.PROPERTY, text))
    if a.all:
        for (s, kind), lst in sorted(allkinds.items()):
            print(s, kind, len(lst), "first:", lst[0])
    if viol is not None:
        code, nviol = report(mod, a, viol, scratch, tier)
    elif harness is not None:
        print("HARNESS ERROR in %s #%d:\n%s" % harness, file=sys.stderr)
        code = 2
    if not a.no_evidence:
        write_evidence(mod, a, agg, per, tier, real_time() - t0, search_s, nviol, workers, capped, hit_known)
    print("%s %s: %d runs (%d distinct non-trivial) in %.1f s, faults %s%s" % (
        mod.PROPERTY, tier, agg["runs"], len(agg["nontrivial"]), real_time() - t0,
        dict(sorted(agg["faults"].items())), " [wall cap reached]" if capped else ""))
    if os.environ.get("VERIF_VERBOSE"):
        print("probes", dict(sorted(agg["probes"].items())))
        print("by scenario", agg["by_scenario"])
    return code


def _take(agg, digests, m):
    agg["runs"] += 1
    agg["steps"] += m["steps"]
    agg["sim_time"] += m["sim_time"]
    agg["events"] += m["nevents"]
    agg["choices"] += m["nchoices"]
    for k, v in m["faults"].items():
        agg["faults"][k] = agg["faults"].get(k, 0) + v
    for k, v in m["probes"].items():
        agg["probes"][k] = agg["probes"].get(k, 0) + v
    agg["digests"].add(m["digest"])
    if m["nontrivial"]:
        agg["nontrivial"].add(m["scenario"] + m["digest"])
    if m["sched"]:
        agg["scheds"].add(m["sched"])
    for s in m["states"]:
        agg["states"].add(str(s))
    b = agg["by_scenario"].setdefault(m["scenario"], 0)
    agg["by_scenario"][m["scenario"]] = b + 1
    if "sample" in m and len(agg["samples"]) < 12:
        agg["samples"].setdefault("%s#%d" % (m["scenario"], m["i"]), m["sample"])
    digests[(m["scenario"], m["i"])] = m["digest"] + (" V" if m["viol"] else "")


def _confirm_death(mod, job, seed, scratch, tier):
    from .choices import Choices

    scenario, i = job

    def fn(write):
        ch = Choices(seed=seed_for(mod, scenario, seed, i))
        res = run_one(mod, scenario, ch, scratch, tier)
        res.pop("_ctx")
        write({"viol": res["viol"], "choices": ch.log})

    msgs, finished = isolated(fn, 1.5 * HANG_S)
    if msgs:
        if msgs[-1]["viol"]:
            return dict(scenario=scenario, i=i, viol=msgs[-1]["viol"], choices=msgs[-1]["choices"], events=[])
        return None
    kind = "process-death" if finished else "hang"
    return dict(scenario=scenario, i=i, viol=[kind, "the run never ends (or never stops growing)" if kind == "hang" else "the interpreter dies"],
                choices=None, events=[])


def report(mod, a, m, scratch, tier):
    kind, msg = m["viol"]
    scenario = m["scenario"]
    run_seed = seed_for(mod, scenario, a.seed, m["i"])
    choices = m["choices"]
    orig_len = len(choices) if choices is not None else None
    budget = float(os.environ.get("VERIF_SHRINK") or (40.0 if tier == "quick" else 240.0))
    if choices is not None:
        best, repro = shrink(mod, scenario, choices, kind, scratch, tier, budget)
        if not repro:
            best = choices
    else:
        best = None
    outdir = os.path.join(VERIF, "replays")
    os.makedirs(outdir, exist_ok=True)

    def write(c):
        tag = hashlib.sha256(json.dumps([scenario, kind, c]).encode()).hexdigest()[:10]
        path = os.path.join(outdir, "%s-%s.json" % (mod.PROPERTY, tag))
        with real_open(path, "w") as f:
            json.dump(dict(property=mod.PROPERTY, scenario=scenario, kind=kind, message=msg, seed=a.seed,
                           run_index=m["i"], run_seed=run_seed, tier=tier, choices=c,
                           original_choices=orig_len, events=m["events"]), f, indent=1)
        return path

    import subprocess

    def fresh(path):
        try:
            p = subprocess.run([sys.executable, "-B", os.path.join(VERIF, "check.py"), mod.PROPERTY, "--replay", path],
                               capture_output=True, text=True, timeout=400)
        except subprocess.TimeoutExpired:
            return False, ""
        return p.returncode == 1 and "VIOLATION" in p.stdout, p.stdout

    path = write(best)
    ok, out = fresh(path)
    if not ok and best is not choices:
        path = write(choices)
        ok, out = fresh(path)
    if not ok:
        # last resort: by seed
        path = write(None)
        ok, out = fresh(path)
    print("violation in %s (run %d): %s\n%s" % (scenario, m["i"], kind, msg))
    if best is not None:
        print("minimised from %s to %d choices" % (orig_len, len(best)))
    print(out[-4000:] if ok else "(fresh-process replay did not reproduce it)")
    if not ok:
        return 2, 0
    print("VIOLATION property=%s replay=%s" % (mod.PROPERTY, path))
    return 1, 1


def write_evidence(mod, a, agg, per, tier, wall, search_s, nviol, workers, capped, hit_known):
    rate = agg["runs"] / max(search_s, 1e-9) * 3600
    ev = dict(
        property=mod.PROPERTY, tier=tier, seed=a.seed, level=mod.LEVEL,
        coverage=dict(
            evaluations=agg["runs"],
            distinct_nontrivial=len(agg["nontrivial"]),
            rule=mod.RULE,
            samples=[dict(run=k, events=v) for k, v in sorted(agg["samples"].items())][:8] or [{"run": "none"}],
            runs_by_scenario=agg["by_scenario"],
            runs_planned=per,
            runs_per_hour=int(rate), seeds_per_hour=int(rate),
            simulated_seconds=round(agg["sim_time"], 6),
            scheduler_steps=agg["steps"],
            observed_events=agg["events"],
            decisions_drawn=agg["choices"],
            faults_injected=dict(sorted(agg["faults"].items())),
            rare_conditions_hit=dict(sorted(agg["probes"].items())),
            distinct_histories=len(agg["digests"]),
            distinct_interleavings=len(agg["scheds"]),
            distinct_states=len(agg["states"]),
            measures="distinct_histories: SHA-256 over the run's event log; distinct_interleavings: hash of the "
                     "sequence of (task chosen, operation) at every scheduling point (0 where only one task runs); "
                     "distinct_states: see rule",
            real_components=mod.REAL, stubbed_components=mod.STUB,
            workers=workers, wall_cap_reached=capped,
            known_findings_seen=sorted(hit_known),
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2), violations=nviol,
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with real_open(os.path.join(VERIF, "evidence", mod.PROPERTY + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
