"""writes rv/baseline_constants.json: constants in the code when the machinery was made (run by hand)"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv import core
i, f = core._constants()
json.dump(dict(ints=sorted(i), floats=sorted(f)), open(os.path.join(core.VERIF, "rv", "baseline_constants.json"), "w"))
print(len(i), len(f))
