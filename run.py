#!/opt/venv/bin/python
"""Entry point of the simulator.

  run.py check P03 [--tier quick|thorough] [--seed N] [--runs N] [--workers N]
  run.py replay FILE            re-execute one recorded case
  run.py case P03 INDEX         execute one generated case and print its outcome
  run.py selftest [P03 ...]     determinism self-test (digests across processes)
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
WANT = {
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "MKL_CBWR": "COMPATIBLE",
    "MPLBACKEND": "Agg",
    "CUDA_VISIBLE_DEVICES": "",
    "PYTHONDONTWRITEBYTECODE": "1",
    "HDF5_USE_FILE_LOCKING": "FALSE",
}


def reexec():
    env = dict(os.environ)
    changed = False
    for k, v in WANT.items():
        if env.get(k) != v:
            env[k] = v
            changed = True
    if "PYTHONHASHSEED" not in env or env["PYTHONHASHSEED"] == "random":
        env["PYTHONHASHSEED"] = "0"
        changed = True
    if env.pop("PYTHONPATH", None) is not None:
        changed = True
    if changed or os.path.realpath(sys.executable) != os.path.realpath(PY):
        exe = PY if os.path.exists(PY) else sys.executable
        os.execve(exe, [exe, os.path.join(HERE, "run.py")] + sys.argv[1:], env)


if __name__ == "__main__":
    if os.environ.get("VERIF_REEXEC") != "1":
        os.environ["VERIF_REEXEC"] = "1"
        reexec()
    sys.path[0] = HERE
    from sim import core

    sys.exit(core.main(sys.argv[1:]))
