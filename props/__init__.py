"""Property harnesses (registered with symfm.harness.case)."""
import importlib
import os

for _f in sorted(os.listdir(os.path.dirname(__file__))):
    if _f.startswith("p_") and _f.endswith(".py"):
        importlib.import_module("props." + _f[:-3])
