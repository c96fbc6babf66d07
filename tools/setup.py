"""setup_cmd: checks that the verifier's own parts load."""
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "zv"))
import registry
print("checks:", " ".join(sorted(registry.CHECKS)))
