#!/opt/venv/bin/python
"""run.py <property id> [--tier quick|thorough] [--only GLOB] [-v] [--replay FILE]"""
import glob
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.chdir(HERE)



def selftest():
    """the tools and the engine are there: an identity is proved, a false one refuted"""
    os.environ.setdefault("TORCH_CPP_LOG_LEVEL", "ERROR")
    import torch
    from symt import harness, solve  # noqa: F401
    import z3

    x, y = z3.Reals("x y")
    s = z3.Solver()
    s.add((x + y) * (x - y) != x * x - y * y)
    assert s.check() == z3.unsat
    s = z3.Solver()
    s.add(x * x != x)
    assert s.check() == z3.sat
    for f in sorted(glob.glob(os.path.join(HERE, "checks", "c[0-9]*_*.py"))):
        compile(open(f).read(), f, "exec")
    print("selftest ok: torch", torch.__version__, "z3", z3.get_version_string())
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "--selftest":
        sys.exit(selftest())
    pid = sys.argv[1]
    m = glob.glob(os.path.join(HERE, "checks", pid.lower() + "_*.py"))
    assert len(m) == 1, m
    from symt import harness

    sys.exit(harness.main(pid, os.path.basename(m[0])[:-3], sys.argv[2:]))
