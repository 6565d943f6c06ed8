import importlib
import os


def load_all(only=None):
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(here)):
        if f.endswith(".py") and f != "__init__.py" and not f.startswith("_"):
            if only and f[:-3].upper() != only:
                continue
            importlib.import_module(f"cases.{f[:-3]}")
