import argparse
import datetime
import json
import os
import subprocess
import sys

from sim import disk as diskmod
from sim.errors import SimCrash, Violation, check

from . import _meta

PROPERTY = "C16"
LEVEL = "fault_enumeration"
TECH = "seeded histories of launches with crashes, disk errors and clock jumps at every file operation; the whole tree compared before and after"
RULE = ("One run = 2-6 launches of prepare_output_dir under one base directory (named, git-derived or time-stamped experiment ids, "
        "random arguments, clock standing still, jumping back or forward, coarse time formats), results written in between, each "
        "launch possibly cut short by a crash or a disk error at a random file operation; the whole tree is compared before and "
        "after each launch. Non-trivial: some launch met an existing directory. distinct_states counts (operation hit, fault, id kind, "
        "directory existed).")
REAL = ["pfrl.experiments.prepare_output_dir", "pfrl.utils.is_return_code_zero", "shutil.copytree"]
STUB = ["git (fake subprocess), wall clock; disk: real files in scratch behind a fault-injecting seam"]
ASSUMPTIONS = ["launches do not overlap in time", "make_backup=False gives up the backup"]

META = {"args.txt", "environ.txt", "command.txt", "git-head.txt", "git-status.txt", "git-log.txt", "git-diff.txt"}


def _tree(root):
    out = {}
    for dp, dn, fn in os.walk(root):
        for f in fn:
            p = os.path.join(dp, f)
            with open(p, "rb") as fp:
                out[os.path.relpath(p, root)] = fp.read()
    return out


class Git:
    """Answers every subprocess the code starts."""

    def __init__(self):
        self.under = True
        self.installed = True
        self.head = b"0" * 40
        self.diff = b""

    def answer(self, args):
        if isinstance(args, str):
            args = args.split()
        if args[0] != "git" or not self.installed:
            raise FileNotFoundError(2, "No such file or directory: %r" % args[0])
        if not self.under:
            return 128, b""
        if args[1:] == ["rev-parse"]:
            return 0, b""
        if args[1:] == ["rev-parse", "HEAD"]:
            return 0, self.head + b"\n"
        if args[1] == "status":
            return 0, b"On branch " + self.head[:4] + b"\n"
        if args[1] == "log":
            return 0, b"commit " + self.head + b"\n"
        if args[1] == "diff":
            return 0, self.diff
        return 0, b""

    def popen(self):
        git = self

        class P:
            def __init__(self, args, *a, stdout=None, stderr=None, text=None, universal_newlines=None, encoding=None, **kw):
                self.args = args
                self.returncode = None
                self._code, self._out = git.answer(args)
                self.pid = 4242
                self.stdin = self.stderr = None
                if text or universal_newlines or encoding:
                    self._out = self._out.decode()
                self.stdout = None
                self._piped = stdout == subprocess.PIPE

            def communicate(self, input=None, timeout=None):
                self.returncode = self._code
                return (self._out if self._piped else None), None

            def wait(self, timeout=None):
                self.returncode = self._code
                return self._code

            def poll(self):
                self.returncode = self._code
                return self._code

            def kill(self):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.wait()

        return P


def run(ctx):
    import pfrl

    ch = ctx.ch
    root = ctx.scratch()
    base = os.path.join(root, "base")
    git = Git()
    git.under = ch.chance(0.5, "git")
    git.installed = ch.chance(0.9, "git-installed")
    k = ctx._k
    hit = {"n": None, "left": 0}

    def plan(op, path, size):
        if hit["left"] > 0:
            hit["left"] -= 1
            if hit["left"] == 0:
                ctx.states.add((op, hit["kind"], os.path.basename(path) in META))
                if hit["kind"] == "crash":
                    return ("crash", hit["frac"])
                if hit["kind"] == "errno":
                    return ("errno", hit["code"], hit["frac"] % 1000)
                if op == "write":
                    return ("short", hit["frac"] % 1000)
        return None

    d = diskmod.Disk(root, plan)
    diskmod.use(d)
    real_popen = subprocess.Popen
    real_argv, real_env = list(sys.argv), dict(os.environ)
    subprocess.Popen = git.popen()
    serial = 0
    ids = {}
    met = False
    try:
        for li in range(ch.integer(2, 6, "launches")):
            # --- the world changes
            if ch.chance(0.6, "clock"):
                k.skew += ch.pick([0.0, 1.5, -1.5, 86400.0, 1e-6], "clock-by")
            if ch.chance(0.3, "commit"):
                git.head = ("%040x" % ch.draw(3, "head")).encode()
            if ch.chance(0.3, "edit"):
                git.diff = ("diff %d" % ch.draw(3, "diff")).encode()
            serial += 1
            os.environ["VERIF_LAUNCH"] = str(ch.draw(3, "environ"))
            argv = ["prog.py", "--lr", str(ch.draw(3, "argv"))]
            sys.argv[:] = argv
            pass_argv = ch.chance(0.5, "pass-argv")
            args = {"lr": ch.draw(100, "lr"), "n": serial, "name": "x" * ch.pick([3, 5000], "len")}
            as_ns = ch.chance(0.5, "namespace")
            exp = ch.pick([None, "exp", "exp2"], "exp")
            fmt = ch.pick([None, "%Y%m%dT%H%M%S", "%Y"], "fmt")
            backup = not ch.chance(0.15, "no-backup")
            kw = {}
            if fmt:
                kw["time_format"] = fmt
            if exp:
                kw["exp_id"] = exp
            if pass_argv:
                kw["argv"] = argv
            if not backup or ch.chance(0.5, "explicit"):
                kw["make_backup"] = backup
            fault = ch.weighted([(None, 4), ("crash", 3), ("errno", 2), ("short", 1)], "fault")
            hit.update(kind=fault, left=ch.integer(1, ch.pick([6, 15, 40], "hor"), "at") if fault else 0,
                       frac=ch.draw(1001, "frac"), code=ch.pick([28, 5, 13], "code"))
            before = _tree(base) if os.path.isdir(base) else {}
            dirs_before = set(os.listdir(base)) if os.path.isdir(base) else set()
            d.reboot()
            # what the launch is expected to be called: exp id, git id or time
            out = err = None
            t0 = k.wall()
            nf = sum(d.faults.values())
            try:
                out = pfrl.experiments.prepare_output_dir(argparse.Namespace(**args) if as_ns else dict(args), basedir=base, **kw)
            except SimCrash:
                err = "crash"
            except OSError as e:
                err = e
            except Exception as e:
                raise Violation("unexpected-error", "%s: %s" % (type(e).__name__, e))
            hit["left"] = 0
            d.reboot()
            after = _tree(base) if os.path.isdir(base) else {}
            dirs_after = set(os.listdir(base)) if os.path.isdir(base) else set()
            ctx.event("launch", exp, "fmt", fmt, "fault", fault, "->", None if out is None else os.path.basename(out) if exp else "dir",
                      type(err).__name__ if err not in (None, "crash") else err, len(after))
            # --- where did it go
            new_dirs = dirs_after - dirs_before
            new_backups = sorted(x for x in new_dirs if x.endswith(".backup"))
            changed = set(p.split(os.sep)[0] for p in set(before) | set(after) if before.get(p) != after.get(p))
            touched = (changed | new_dirs) - set(new_backups)
            check(len(touched) <= 1, "touched-other-results", "a launch touched %s", sorted(touched))
            if out is not None:
                name = os.path.relpath(out, base)
                check(os.path.isdir(out) and os.sep not in name, "bad-path", "%s", out)
                if exp:
                    check(name == exp, "bad-path", "%s for experiment %s", out, exp)
            elif touched:
                name = sorted(touched)[0]
            else:
                name = None
            existed = name in dirs_before if name else False
            # --- nothing that was there is lost
            for p, v in before.items():
                top, rest = p.split(os.sep)[0], os.sep.join(p.split(os.sep)[1:])
                if after.get(p) == v:
                    continue
                what = "gone" if p not in after else "altered"
                check(top == name, "lost-results", "%s is %s after the launch (%s)", p, what, err)
                if rest == "start.txt":
                    check(p in after and after[p].startswith(v), "start-log-lost", "%s %s", what, p)
                    continue
                check(rest in META, "lost-results", "%s is %s after the launch (%s)", p, what, err)
            if existed:
                met = True
                pre = {p[len(name) + 1:]: v for p, v in before.items() if p.split(os.sep)[0] == name}
                over = any(after.get(name + os.sep + p) != v for p, v in pre.items())
                if backup and (over or out is not None):
                    copies = [{p[len(b) + 1:]: v for p, v in after.items() if p.split(os.sep)[0] == b} for b in new_backups]
                    check(any(c == pre for c in copies), "no-backup", "%s was overwritten without a complete backup (new backups %s)", name, new_backups)
            if not backup:
                check(not new_backups, "unwanted-backup", "%s", new_backups)
            # --- a completed launch is recorded
            if out is not None:
                o = name + os.sep
                check(json.loads(after[o + "args.txt"]) == args, "wrong-args", "%s", after[o + "args.txt"][:80])
                check(json.loads(after[o + "environ.txt"]) == dict(os.environ), "wrong-environ", "%s", after[o + "environ.txt"][:80])
                check(after[o + "command.txt"].decode() == " ".join(argv), "wrong-command", "%s", after[o + "command.txt"][:80])
                old = before.get(o + "start.txt", b"")
                line = after[o + "start.txt"][len(old):].decode()
                check(line.endswith("\n") and line.count("\n") == 1, "start-log", "%r", line)
                ts = datetime.datetime.strptime(line.strip(), "%Y%m%dT%H%M%S.%f")
                secs = ts.replace(tzinfo=datetime.timezone.utc).timestamp()
                check(t0 - 1e-3 <= secs <= k.wall() + 1e-3, "start-log", "%r at %s", line, t0)
                if git.under and git.installed:
                    check(after[o + "git-head.txt"].strip() == git.head and after[o + "git-diff.txt"] == git.diff, "wrong-git", "")
                if exp is None and git.under and git.installed:
                    # the same code and command share an id, others do not
                    key = (git.head, git.diff, tuple(argv))
                    check(ids.setdefault(key, name) == name, "id-not-reproducible", "%s then %s", ids[key], name)
                    check(sum(v == name for v in ids.values()) == 1, "id-shared", "%s", name)
                # the run writes its results
                for f in ("scores.txt", "100_finish/model.pt", "args-extra.txt", "start.txt.old")[:ch.integer(0, 4, "results")]:
                    p = os.path.join(out, f)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "ab") as fp:
                        fp.write(("r%d;" % serial).encode())
            elif err != "crash":
                same_time = isinstance(err, FileExistsError)
                check(sum(d.faults.values()) > nf or same_time, "spurious-failure", "%r", err)
    finally:
        subprocess.Popen = real_popen
        sys.argv[:] = real_argv
        os.environ.clear()
        os.environ.update(real_env)
        diskmod.use(None)
    ctx.absorb_disk(d)
    ctx.nontrivial = met


def launches(ctx):
    def go():
        from sim import kernel as kn

        ctx._k = kn.K
        run(ctx)

    _meta.solo(ctx, go)


SCENARIOS = {"launches": (launches, 3000, 80000)}
