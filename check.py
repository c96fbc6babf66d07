"""python3-vt /verif/check.py <property> [--tier quick|thorough]"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "zv"))
import driver
import registry


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return driver.main(registry.CHECKS[pid](), tier, seed)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
