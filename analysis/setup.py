"""setup_cmd: builds the MIR driver and warms the dependency caches of both configurations."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

build.driver()
for c in build.CONFIGS:
    build.dump(c)
print("ready")
