import contextlib
import io
import os
import urllib.error
import zipfile

from sim import disk as diskmod
from sim import kernel as kn
from sim.errors import Violation, check

PROPERTY = "C15"
LEVEL = "fault_enumeration"
TECH = "seeded interleavings of simulated fetcher processes over a simulated network and disk, with truncated transfers, disk errors and kills"
RULE = ("One run = 1-4 simulated processes fetching 1-3 pretrained models each from a simulated server (random archive contents and "
        "block sizes), with connection failures, truncated transfers with or without a known length, missing files, ENOSPC/EIO, "
        "short writes, kills inside any file operation and wall-clock jumps; then a fault-free process fetches everything. "
        "Non-trivial: a fault fired or two processes wanted the same model. distinct_states counts (file operation hit, fault, "
        "model state).")
REAL = ["pfrl.utils.pretrained_models (download_model, download_and_store_model, cached_download)", "zipfile, shutil, tempfile"]
STUB = ["network (urlretrieve/urlopen), file locks, processes, clock; disk: real files in scratch behind a fault-injecting seam"]
ASSUMPTIONS = ["the process may die, the machine does not", "the server's files do not change", "damaged archives are truncated ones"]


class Net:
    def __init__(self, ctx, k, files):
        self.ctx, self.k, self.files = ctx, k, files
        self.downloads = []
        self.on = True
        self.rate = 0.0
        self.hit = {}
        self.damaged = set()
        self.archives = True

    def __deepcopy__(self, memo):
        return self

    def _fault(self, kind):
        self.ctx.fault("net-" + kind)
        self.hit[self.k.current.proc] = True

    def plan(self, url):
        ch = self.ctx.ch
        self.downloads.append((self.k.current.proc.name, url))
        self.k.point("net-open")
        data = self.files.get(url)
        kind = None
        if self.on and ch.chance(self.rate, "net-fault"):
            kind = ch.pick(["refused", "cut", "short", "http"] + (["short-unknown"] if self.archives else []), "net-kind")
        if data is None:
            raise urllib.error.HTTPError(url, 404, "Not Found", {}, None)
        if kind == "refused":
            self._fault(kind)
            raise urllib.error.URLError("connection refused")
        if kind == "http":
            self._fault(kind)
            raise urllib.error.HTTPError(url, 503, "busy", {}, None)
        if kind == "short-unknown":
            self.damaged.add(url)
        block = ch.pick([64, 16, 1000], "block")
        known = not (kind == "short-unknown") and ch.chance(0.8, "length-known")
        end = len(data) if kind is None else ch.draw(len(data), "end")
        if kind is not None and kind != "cut":
            known = kind == "short"
        return data, kind, block, known, end

    def urlretrieve(self, url, filename, hook):
        data, kind, block, known, end = self.plan(url)
        total = len(data) if known else -1
        if filename is None:
            raise AssertionError("temporary file of urlretrieve is not simulated")
        n = 0
        with open(filename, "wb") as f:
            if hook:
                hook(0, block, total)
            pos = 0
            while pos < end:
                self.k.point("net-read")
                b = data[pos:min(end, pos + block)]
                pos += len(b)
                f.write(b)
                n += 1
                if hook:
                    hook(n, block, total)
            if kind == "cut":
                self._fault(kind)
                raise ConnectionResetError(104, "reset by peer")
        if kind == "short":
            self._fault(kind)
            raise urllib.error.ContentTooShortError("got only %d out of %d bytes" % (end, total), (filename, {}))
        if kind == "short-unknown":
            self._fault(kind)
        return filename, {}

    def urlopen(self, url):
        if hasattr(url, "full_url"):
            url = url.full_url
        data, kind, block, known, end = self.plan(url)
        net = self

        class R:
            status = code = 200
            headers = {"Content-Length": str(len(data))} if known else {}
            pos = 0

            def info(self):
                return self.headers

            def getheader(self, n, d=None):
                return self.headers.get(n, d)

            def read(self, n=-1):
                net.k.point("net-read")
                m = end - self.pos if n is None or n < 0 else min(n, end - self.pos)
                b = data[self.pos:self.pos + m]
                self.pos += len(b)
                if (n is None or n < 0 or not b) and self.pos >= end and kind is not None:
                    net._fault(kind)
                    if kind == "cut":
                        raise ConnectionResetError(104, "reset by peer")
                    if kind == "short":
                        import http.client

                        raise http.client.IncompleteRead(b, len(data) - end)
                return b

            def close(self):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

        return R()


def _archive(ch, mt, tag):
    files = {}
    for j in range(ch.integer(1, 3, "members")):
        name = "%s/%s" % (mt, ch.pick(["model.pt", "optimizer.pt", "sub/target_model.pt"], "member") if j else "model.pt")
        size = ch.pick([40, 3, 300, 9000], "size")
        files[name] = (("%s|%s|%d;" % (tag, name, j)).encode() * (size // 8 + 1))[:size]
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED if ch.chance(0.5, "deflate") else zipfile.ZIP_STORED) as z:
        for n in sorted(files):
            z.writestr(zipfile.ZipInfo(n), files[n])
    return files, b.getvalue()


def fetch(ctx):
    _fetch(ctx, False)


def cache(ctx):
    """cached_download called directly, without the models lock"""
    _fetch(ctx, True)


def _fetch(ctx, raw):
    from pfrl.utils import pretrained_models as pm

    ch = ctx.ch
    root = ctx.scratch() + "/models"
    os.mkdir(root)
    old = pm._models_root
    pm._models_root = root
    P = ch.pick([2, 1, 3, 4], "procs")
    allm = [("DQN", "BreakoutNoFrameskip-v4", "best"), ("DQN", "BreakoutNoFrameskip-v4", "final"), ("DDPG", "Hopper-v2", "best")]
    models = allm[:ch.pick([1, 2, 3], "models")]
    want, files = {}, {}
    for m in models:
        alg, env, mt = m
        fs, data = _archive(ch, mt, "/".join(m))
        want[m] = {n[len(mt) + 1:]: v for n, v in fs.items()}
        files["/".join([pm.download_url.rstrip("/"), alg, env.replace("NoFrameskip-v4", ""), mt + ".zip"])] = data
    urls = dict(zip(models, files))
    missing = ch.chance(0.1, "missing")
    if missing:
        # one model is not on the server
        files.pop(urls[models[-1]])
    k = ctx.kernel(step_cap=30000)
    net = k.net = Net(ctx, k, files)
    net.archives = not raw
    net.rate = ch.pick([0.0, 0.2, 0.6], "net-rate")
    # (a failing rename makes shutil.move copy, which is not atomic)
    io_rate = ch.pick([0.0, 0.0, 0.03, 0.15], "io-rate") if not raw else 0.0
    kill_rate = ch.pick([0.0, 0.0, 0.02, 0.1], "kill-rate")
    short_rate = ch.pick([0.0, 0.1], "short-rate")
    st = {"on": True, "done": set(), "fetching": {}}
    iohit = {}

    def plan(op, path, size):
        if not st["on"] or "_dl_lock" in path or path.endswith(".lock"):
            return None
        me = k.current.proc
        if me is k.procs[0]:
            return None
        if ch.chance(kill_rate, "kill"):
            ctx.states.add((op, "kill", len(st["done"])))
            return ("crash-task", ch.draw(1001, "kill-frac"))
        if ch.chance(io_rate, "io"):
            iohit[me] = True
            ctx.states.add((op, "errno", len(st["done"])))
            return ("errno", ch.pick([28, 5], "errno"), ch.draw(1000, "io-frac"))
        if op == "write" and ch.chance(short_rate, "short"):
            return ("short", ch.draw(1000, "short-frac"))
        return None

    d = diskmod.Disk(root, plan)
    problems = []
    results = []
    completed = {}  # model -> path, from the moment a fetch of it returned

    def verify(m, path, when):
        if raw:
            check(os.path.isfile(path), "no-file", "%s (%s)", path, when)
            with open(path, "rb") as fp:
                got = fp.read()
            check(got == files[urls[m]], "incomplete-file", "%s: %d bytes, %d published (%s)", urls[m], len(got), len(files[urls[m]]), when)
            return
        check(os.path.isdir(path), "no-model", "%s: %s is not a directory (%s)", m, path, when)
        got = {}
        for dp, dn, fn in os.walk(path):
            for f in fn:
                p = os.path.join(dp, f)
                with open(p, "rb") as fp:
                    got[os.path.relpath(p, path)] = fp.read()
        for n, v in want[m].items():
            check(n in got, "incomplete-model", "%s: %s is missing (%s)", m, n, when)
            check(got[n] == v, "incomplete-model", "%s: %s differs: %d bytes, %d published (%s)", m, n, len(got[n]), len(v), when)
        check(set(got) == set(want[m]), "stray-files", "%s: %s (%s)", m, sorted(set(got) - set(want[m])), when)

    def one(m, clean):
        me = k.current.proc
        before = m in completed
        nd = len(net.downloads)
        net.hit[me] = iohit[me] = False
        if ch.chance(0.1, "skew"):
            k.skew += ch.pick([-3600.0, 86400.0, 0.5], "skew-by")
        try:
            path, cached = pm.download_model(*m) if not raw else (pm.cached_download(urls[m]), True)
        except (OSError, EOFError, zipfile.BadZipFile, ValueError, urllib.error.URLError) as e:
            if urls[m] not in files:
                results.append((me.name, m, "404"))
                return
            if before:
                check(iohit[me], "cached-model-fails", "%s was fetched before but now raises %r", m, e)
            # a truncated archive may be noticed only by the next fetch
            leftover = isinstance(e, zipfile.BadZipFile) and (urls[m] in net.damaged or d.faults.get("EIO") or d.faults.get("ENOSPC"))
            check(net.hit[me] or iohit[me] or leftover, "spurious-failure", "%s raised %r although nothing failed", m, e)
            results.append((me.name, m, type(e).__name__))
            return
        check(urls[m] in files, "invented-model", "%s is not on the server, got %s", m, path)
        mine = [u for p, u in net.downloads[nd:] if p == me.name]
        verify(m, path, "fetch by %s" % me.name)
        if before:
            check(not mine, "downloaded-again", "%s was fetched before but was downloaded again", m)
            check(cached, "not-reported-cached", "%s", m)
        if m not in completed:
            completed[m] = path
        check(completed[m] == path, "path-changed", "%s", m)
        results.append((me.name, m, "ok", bool(cached)))

    def worker(ms):
        def f():
            try:
                for m in ms:
                    one(m, False)
            except Violation as v:
                problems.append(v)
        return kn.Opaque(f)

    def main():
        import multiprocessing as mp

        ps = []
        picks = []
        for i in range(P):
            ms = [ch.pick(models, "model") for _ in range(ch.integer(1, 3, "fetches"))]
            picks.append(set(ms))
            ps.append(mp.Process(target=worker(ms)))
        if P > 1 and any(a & b for i, a in enumerate(picks) for b in picks[i + 1:]):
            ctx.nontrivial = True
        for p in ps:
            p.start()
        for p in ps:
            p.join()
        if problems:
            return
        st["on"] = False
        net.on = False
        k.skew = 0.0
        done = dict(completed)
        for m in models:
            if m in done:
                verify(m, done[m], "at the end")

        p = mp.Process(target=worker(models + models))
        p.start()
        p.join()
        if p.exitcode and not problems:
            check(False, "recovery-failed", "%s", k.procs[-1].error)

    out = io.StringIO()
    try:
        diskmod.use(d)
        with contextlib.redirect_stdout(out):
            k.run(main)
    finally:
        diskmod.use(None)
        pm._models_root = old
        ctx.absorb(k)
        for a, b in d.faults.items():
            ctx.fault(a, b)
    for r in results:
        ctx.event(*r)
    ctx.event("downloads", net.downloads)
    if problems:
        raise problems[0]
    for p in k.procs[1:]:
        check(p.exitcode in (0, -9), "fetcher-died", "%s: %s", p.name, p.error)
    for m in models:
        if urls[m] in files:
            check(m in completed, "no-recovery", "%s cannot be fetched after the faults stopped: %s", m, results[-3:])
    if ctx.faults:
        ctx.nontrivial = True


SCENARIOS = {"fetch": (fetch, 2500, 80000), "cache": (cache, 800, 20000)}
