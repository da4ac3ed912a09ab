#!/usr/bin/env python3
"""Entry point of every check:  python3 sim/check.py C01 [options]

Starts the simulator under the interpreter popsynth is installed in, with a
closed environment (own HOME, fixed hash seed, no network tools on PATH) and a
scratch directory that is removed afterwards.
"""
import os
import shutil
import signal
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("POPSIM_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"


def base_env(scratch, jit=False, hashseed="0"):
    home = os.path.join(scratch, "home")
    os.makedirs(home, exist_ok=True)
    env = {
        "PATH": "/nonexistent",
        "HOME": home,
        "LANG": "C.UTF-8",
        "LC_ALL": "C.UTF-8",
        "TZ": "UTC",
        "PYTHONPATH": os.pathsep.join([os.path.join(HERE, "compat"), REPO, HERE]),
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": hashseed,
        "PYTHONUNBUFFERED": "1",
        "MPLBACKEND": "Agg",
        "MPLCONFIGDIR": os.path.join(scratch, "mpl"),
        "XDG_CACHE_HOME": os.path.join(scratch, "cache"),
        "ASTROPY_SKIP_CONFIG_UPDATE": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "OMP_NUM_THREADS": "1",
        "MKL_NUM_THREADS": "1",
        "TMPDIR": scratch,
        "POPSIM_BOOT": "1",
        "POPSIM_SCRATCH": scratch,
        "POPSIM_REPO": REPO,
        "VERIF_SEED": os.environ.get("VERIF_SEED", "1"),
        "VERIF_TIER": os.environ.get("VERIF_TIER", "quick"),
    }
    if not jit:
        env["NUMBA_DISABLE_JIT"] = "1"
    else:
        env["NUMBA_CACHE_DIR"] = os.path.join(scratch, "numba")
    for k in ("POPSIM_WORKERS", "POPSIM_N", "POPSIM_WALL", "POPSIM_DIGESTS", "POPSIM_START", "POPSIM_OUT", "POPSIM_NOEXTRA", "POPSIM_LOUD"):
        if k in os.environ:
            env[k] = os.environ[k]
    return env


def build_shim(scratch):
    """Compile the file-system shim from the committed source."""
    so = os.path.join(scratch, "popsim_shim.so")
    gcc = shutil.which("gcc") or "/usr/bin/gcc"
    r = subprocess.run(
        [gcc, "-O1", "-shared", "-fPIC", "-w", "-o", so, os.path.join(HERE, "shim.c"), "-ldl", "-lpthread"],
        capture_output=True, text=True,
    )
    if r.returncode:
        sys.stderr.write(r.stderr)
        raise SystemExit(3)
    return so


def main():
    cid = sys.argv[1]
    scratch = tempfile.mkdtemp(prefix="popsim-")
    child = None

    def stop(signum, frame):
        if child is not None:
            try:
                os.killpg(child.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(128 + signum)

    signal.signal(signal.SIGTERM, stop)
    signal.signal(signal.SIGINT, stop)
    try:
        env = base_env(scratch, hashseed=os.environ.get("POPSIM_HASHSEED", "0"))
        if os.path.exists(os.path.join(HERE, "shim.c")) and cid in ("C08", "C10", "C11", "C18"):
            so = build_shim(scratch)
            env["LD_PRELOAD"] = so
            env["POPSIM_SHIM"] = so
        child = subprocess.Popen(
            [PYTHON, "-W", "ignore", os.path.join(HERE, "engine.py")] + sys.argv[1:],
            env=env, cwd=scratch, start_new_session=True,
        )
        rc = child.wait()
        try:
            os.killpg(child.pid, signal.SIGKILL)
        except OSError:
            pass
        if rc < 0:
            print(f"simulator ended by signal {-rc}", file=sys.stderr)
            rc = 4
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
