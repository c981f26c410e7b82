"""Run one check: run_check.py ID [--tier quick|thorough] [--replay FILE] [--serial]."""

import os
import sys

for _name in (
    "OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS",
):
    os.environ[_name] = "1"
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
os.environ.setdefault("TQDM_DISABLE", "1")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if "--tier" in sys.argv:
    os.environ["VERIF_TIER"] = sys.argv[sys.argv.index("--tier") + 1]


def _main():
    import importlib
    import traceback

    prop = sys.argv[1]
    os.chdir(os.path.dirname(os.path.abspath(__file__)))
    from mc import core

    try:
        import ramannoodle  # noqa: F401

        assert ramannoodle.__file__.startswith(REPO), ramannoodle.__file__
        import torch

        torch.set_num_threads(1)
    except Exception as exc:  # the code under test cannot even be imported
        directory = core.VERIF / "replays" / prop
        directory.mkdir(parents=True, exist_ok=True)
        (directory / "0.json").write_text(traceback.format_exc())
        print(f"  import failed: {exc}")
        print(f"VIOLATION property={prop} replay={directory / '0.json'}")
        return 1
    module = importlib.import_module(f"checks.{prop.lower()}")
    return core.main(module, sys.argv[2:])


if __name__ == "__main__":
    sys.exit(_main())
