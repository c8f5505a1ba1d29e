"""python3 tools/mkseed.py ID: diff of the scratch worktree /tmp/seedwork against /repo HEAD -> seeded/ID/patch.diff"""
import subprocess, sys, os
i = sys.argv[1]
os.makedirs("/verif/seeded/" + i, exist_ok=True)
p = subprocess.run(["git", "-C", "/tmp/seedwork", "diff"], capture_output=True, text=True).stdout
assert p.strip()
open("/verif/seeded/%s/patch.diff" % i, "w").write(p)
open("/verif/seeded/%s/demo.sh" % i, "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nPYTHONPATH="$PWD" exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
subprocess.check_call(["git", "-C", "/tmp/seedwork", "checkout", "-q", "--", "."])
