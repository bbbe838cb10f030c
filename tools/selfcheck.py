"""setup: the framework is plain Python; check that it loads."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks import registry
import importlib
for m in sorted({m for c in registry.CHECKS.values() for m in c["modules"]}):
    importlib.import_module("checks." + m)
print("ok", len(registry.CHECKS), "checks")
