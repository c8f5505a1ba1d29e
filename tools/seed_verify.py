"""Validates planted bugs: python3 tools/seed_verify.py [--no-tests] ID...
Everything happens in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile

ids = [a for a in sys.argv[1:] if not a.startswith("-")]
tests = "--no-tests" not in sys.argv
root = "/verif/seeded"
ids = ids or sorted(os.listdir(root))
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


for i in ids:
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    q = tempfile.mkdtemp(prefix="seeddemo-", dir="/tmp")
    try:
        r = os.path.join(d, "repo")
        subprocess.check_call(["cp", "-a", "/repo", r])
        for f in os.listdir(os.path.join(root, i)):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(root, i, f), q)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        a = sh(["timeout", "300", "bash", os.path.join(q, "demo.sh")], r, env=env)
        p = sh(["git", "apply", os.path.join(root, i, "patch.diff")], r)
        if p.returncode:
            print(i, "DOES NOT APPLY", p.stdout)
            continue
        b = sh(["timeout", "300", "bash", os.path.join(q, "demo.sh")], r, env=env)
        ok = a.returncode == 0 and b.returncode not in (0, 124)
        line = "demo clean=%d patched=%d" % (a.returncode, b.returncode)
        if not ok:
            line += "\n" + a.stdout[-600:] + "\n---\n" + b.stdout[-600:]
        if tests and ok:
            t = open("/opt/vp/test.sh").read().replace("/repo", r)
            ts = os.path.join(d, "test.sh")
            open(ts, "w").write(t)
            sh(["bash", ts, os.path.join(d, "out.json")], d)
            o = json.load(open(os.path.join(d, "out.json")))
            passed = set(o.get("passed", []))
            lost = base - passed
            line += " tests passed=%d lost=%d %s" % (len(passed), len(lost), sorted(lost)[:3])
            ok = ok and not lost
        print(i, "OK" if ok else "BAD", line, flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(q, ignore_errors=True)
