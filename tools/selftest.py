"""Determinism self-test: every check's run digests must not depend on the
number of workers, the interpreter's hash seed or the process.

    python3 tools/selftest.py [--scale 0.3] [--seeds 1,2] [C01 C02 ...]
"""
import argparse
import json
import os
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def digests(pid, workers, hashseed, seed, scale):
    f = tempfile.mktemp()
    env = dict(os.environ, VERIF_HASHSEED=str(hashseed))
    p = subprocess.run([sys.executable, os.path.join(V, "check.py"), pid, "--workers", str(workers), "--seed", str(seed), "--scale",
                        str(scale), "--digests", f, "--no-evidence"], env=env, capture_output=True, text=True)
    if p.returncode != 0:
        print(p.stdout[-2000:], p.stderr[-2000:])
    with open(f) as g:
        d = g.read()
    os.remove(f)
    return p.returncode, sorted(d.splitlines())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--scale", type=float, default=0.3)
    ap.add_argument("--seeds", default="1,2")
    a = ap.parse_args()
    ids = a.ids or [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
    bad = 0
    for pid in ids:
        for seed in (int(x) for x in a.seeds.split(",")):
            ref = None
            n = 0
            for workers, hs in ((8, 0), (3, 0), (8, 77), (5, 12345)):
                rc, d = digests(pid, workers, hs, seed, a.scale)
                n = len(d)
                if ref is None:
                    ref = d
                elif d != ref:
                    bad += 1
                    diff = [(x, y) for x, y in zip(ref, d) if x != y][:3]
                    print("DIFFERS", pid, "seed", seed, "workers", workers, "hash", hs, len(ref), len(d), diff)
                if rc:
                    bad += 1
                    print("RC", rc, pid, seed)
            print(pid, "seed", seed, n, "runs x 4 compared", flush=True)
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
