"""Entry point: python check.py <property> [--tier quick|thorough] [--replay file].

Re-executes itself with a pinned environment so that a run is a pure function
of (code, seed)."""
import os
import sys

PIN = {
    "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
    "ATEN_CPU_CAPABILITY": "default", "MKL_CBWR": "COMPATIBLE", "PYTHONDONTWRITEBYTECODE": "1",
    "CUDA_VISIBLE_DEVICES": "", "TZ": "UTC", "LC_ALL": "C.UTF-8", "GIT_TERMINAL_PROMPT": "0",
}
VENV = "/opt/venv/bin/python"

if __name__ == "__main__":
    if os.environ.get("VERIF_PINNED") != "1":
        env = dict(os.environ)
        env.update(PIN)
        env["VERIF_PINNED"] = "1"
        env["PYTHONHASHSEED"] = env.get("VERIF_HASHSEED", "0")
        env.pop("PYTHONPATH", None)
        exe = VENV if os.path.exists(VENV) else sys.executable
        os.execve(exe, [exe, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    os.chdir(here)
    from sim import runner

    if sys.argv[1:] == ["--setup"]:
        # nothing to build: check that the simulator can load the code under test
        runner.bootstrap()
        import pfrl

        print("ok", pfrl.__file__)
        sys.exit(0)

    sys.exit(runner.main(sys.argv[1:]))
