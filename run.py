"""usage: run.py ID [--tier quick|thorough] [--seed N] [--budget S] [--workers N] | --replay FILE"""
import argparse, os, sys, warnings
ENV = dict(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
           PYTHONWARNINGS="ignore", LANG="C.UTF-8")
HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if any(os.environ.get(k) != v for k, v in ENV.items()):
        # never read stale byte code: the check runs the source as it is now
        env = dict(os.environ, **ENV)
        env["PYTHONPYCACHEPREFIX"] = os.path.join(HERE, ".nopyc")
        os.execve(sys.executable, [sys.executable] + sys.argv, env)
    warnings.simplefilter("ignore")
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path[:0] = [HERE, repo]
    from vf import core
    if a.replay:
        return core.replay(a.replay)
    import importlib
    mod = importlib.import_module("vf.props." + a.id.lower())
    budget = a.budget or (getattr(mod, "QUICK_S", 15) if a.tier == "quick" else getattr(mod, "THOROUGH_S", 420))
    return core.check(a.id, a.tier, a.seed, budget, a.workers)


if __name__ == "__main__":
    sys.exit(main())
