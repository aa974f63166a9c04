"""Entry point: run.py <PROPERTY> [--tier quick|thorough]. Needs to be started with /opt/venv/bin/python."""
import argparse
import importlib
import os
import sys
import warnings

# set before numpy is imported: the same numeric environment as in the repository's own test command
os.environ.setdefault("NPY_DISABLE_CPU_FEATURES", "X86_V4 AVX512_ICL AVX512_SPR")
os.environ["MPLBACKEND"] = "Agg"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("OMP_NUM_THREADS", "2")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "2")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo/src")

import core  # noqa: E402

CHECKS = {
    "C01": "c_index", "C02": "c_index", "C03": "c_index", "C24": "c_index",
    "C04": "c_radial", "C05": "c_radial", "C06": "c_radial",
    "C07": "c_memo", "C08": "c_domain", "C09": "c_sum", "C10": "c_sum",
    "C11": "c_fit", "C12": "c_fit", "C13": "c_phases",
    "C14": "c_psfconf", "C18": "c_psflife", "C19": "c_kernel", "C20": "c_psfsave",
    "C15": "c_psfval", "C16": "c_psfval", "C17": "c_psfsym", "C23": "c_kernel",
    "C21": "c_dispenser", "C22": "c_dispenser", "C25": "c_plot", "C26": "c_disk", "C27": "c_warn",
}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    warnings.simplefilter("ignore")

    def body(ctx):
        mod = importlib.import_module("checks." + CHECKS[a.prop])
        getattr(mod, "check_" + a.prop)(ctx)

    code = core.run(a.prop, body, a.tier, seed)
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
