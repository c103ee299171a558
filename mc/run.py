#!/usr/bin/env python3
"""run.py <property id>: run the check of one property (tier from VERIF_TIER)."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
import props


def main(pid, tier):
    mod = importlib.import_module(props.MODULES[pid])
    chk = core.Check(pid, mod.PROP["level"], tier)
    repo = core.Repo(**getattr(mod, "BUILD", {}))
    mod.run(chk, repo)
    return chk.finish()


if __name__ == "__main__":
    core.run_check(lambda: main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None))
