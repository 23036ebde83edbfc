#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current source."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vc"))
sys.dont_write_bytecode = True
import driver

if __name__ == "__main__":
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.exit(driver.main(pid, tier, seed))
