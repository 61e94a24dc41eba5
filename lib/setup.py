#!/usr/bin/env python3
"""setup_cmd: nothing is kept between runs (each check rebuilds from the working tree), so this only
verifies that the tools the checks need are there."""
import os, shutil, sys
miss = [t for t in ("/usr/bin/g++", "/usr/bin/gold", "/opt/vp/compat/dealii_compat.h", "/opt/vp/compat/natrium_preamble.h", "/usr/bin/mpirun") if not os.path.exists(t)]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("evidence", "build", "work"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
if miss:
    print("missing: " + ", ".join(miss))
    sys.exit(1)
print("ok")
