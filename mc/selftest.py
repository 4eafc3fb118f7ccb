"""Self-test of the reference models (called by setup.sh)."""
import importlib
import os
import pkgutil

from . import ref

n = 0
for m in pkgutil.iter_modules(ref.__path__):
    mod = importlib.import_module('mc.ref.' + m.name)
    if hasattr(mod, 'selftest'):
        mod.selftest()
        n += 1
print('reference models checked:', n)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
