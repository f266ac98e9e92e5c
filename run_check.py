"""usage: run_check.py C01 [--thorough] [--replay FILE]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rv import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1], sys.argv[2:]))
