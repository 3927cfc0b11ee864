"""Entry point: run.py Cxx [--tier quick|thorough] [--replay FILE]."""

import os

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"

import argparse  # noqa: E402
import importlib  # noqa: E402
import shutil  # noqa: E402
import sys  # noqa: E402
import traceback  # noqa: E402
import warnings  # noqa: E402
from pathlib import Path  # noqa: E402

sys.dont_write_bytecode = True
sys.path.insert(0, str(Path(__file__).resolve().parent))
import core  # noqa: E402


def main():
    p = argparse.ArgumentParser()
    p.add_argument("prop")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    p.add_argument("--replay", default=None)
    a = p.parse_args()
    warnings.filterwarnings("ignore")
    ctx = core.Ctx(a.prop, a.tier, a.seed)
    try:
        try:
            core.import_target()
        except core.MachineryError:
            raise
        except Exception as e:
            if core.under_test(e):
                ctx.fail({"import": True}, f"curvlinops cannot be imported: {e!r}")
                return ctx.finish()
            raise
        mod = importlib.import_module(a.prop.lower())
        if a.replay:
            import json

            ctx.only = json.loads(Path(a.replay).read_text())["case"]
        mod.run(ctx)
        return ctx.finish()
    except Exception:
        traceback.print_exc()
        print(f"ERROR: the check of {a.prop} failed to run")
        return 2
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
