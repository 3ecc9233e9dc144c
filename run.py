#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--replay FILE]: decide one property.

Re-executes itself under the interpreter hatchet is installed for, with a fixed
hash seed; makes sure the Cython extensions of /repo are there.
"""

import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = "/repo"

ENV = {
    "PYTHONPATH": REPO,
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "MPLBACKEND": "agg",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "PYTHONWARNINGS": "ignore",
}


def ensure_env():
    if os.environ.get("HV_ENV") == "1":
        return
    env = dict(os.environ)
    env.update(ENV)
    env["HV_ENV"] = "1"
    env["PATH"] = "/opt/vp/no-npm:/opt/venv/bin:/usr/local/bin:/usr/bin:/bin"
    os.execve(PY, [PY, os.path.join(VERIF, "run.py")] + sys.argv[1:], env)


def locked(name):
    import fcntl

    f = open(os.path.join("/tmp", "hv-%s.lock" % name), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def ensure_build():
    """Rebuild /repo's extensions if their inputs changed (writes only ignored files)."""
    import glob
    import subprocess

    with locked("build"):
        want = subprocess.run(
            ["bash", "-c",
             "cd /repo; { find hatchet -name '*.pyx' -o -name '*.pxd'; echo setup.py; echo pyproject.toml; }"
             " | LC_ALL=C sort | xargs sha256sum; %s -VV" % PY],
            stdout=subprocess.PIPE, check=True).stdout.decode().strip()
        try:
            with open(os.path.join(REPO, "build", ".ext-inputs.sha256")) as f:
                have = f.read().strip()
        except OSError:
            have = None
        libs = os.path.join(REPO, "hatchet/cython_modules/libs")
        ok = all(glob.glob(os.path.join(libs, m + ".*.so")) for m in ("reader_modules", "graphframe_modules"))
        if have != want or not ok:
            r = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                print("build of /repo failed:\n" + r.stdout.decode()[-3000:])
                sys.exit(2)


def main():
    ensure_env()
    args = sys.argv[1:]
    sys.path.insert(0, VERIF)
    if args and args[0] == "--setup":
        ensure_build()
        print("ready")
        return 0
    if args and args[0] == "--worker":
        from hv import runner

        pid, shard, nshards, seed, examples, budget, out = args[1:]
        runner.worker(pid, int(shard), int(nshards), int(seed), int(examples), float(budget), out)
        return 0
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    k = 1
    while k < len(args):
        if args[k] == "--tier":
            tier = args[k + 1]
        elif args[k] == "--replay":
            replay = os.path.abspath(args[k + 1])
        elif args[k] == "--seed":
            os.environ["VERIF_SEED"] = args[k + 1]
        k += 2
    if tier not in ("quick", "thorough"):
        tier = "quick"
    os.environ["VERIF_TIER"] = tier
    ensure_build()
    from hv import runner

    return runner.main(pid, tier, int(os.environ.get("VERIF_SEED", "1") or 1), replay)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
