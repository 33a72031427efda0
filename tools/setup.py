"""setup_cmd: build the extension modules of /repo's working tree, plain and sanitised, into
/verif/.cache, and make sure the generators import."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env

for flavour in ("plain", "asan"):
    print(env.build_ext(flavour))
