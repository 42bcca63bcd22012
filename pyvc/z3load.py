"""Load the z3 bindings of the tooling venv inside the repository's own Python."""
import importlib.util
import os
import sys

os.environ.setdefault("Z3DEBUG", "0")

_BASE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
if "z3" not in sys.modules:
    try:
        import z3  # noqa: F401
    except ImportError:
        spec = importlib.util.spec_from_file_location(
            "z3", _BASE + "/__init__.py", submodule_search_locations=[_BASE]
        )
        mod = importlib.util.module_from_spec(spec)
        sys.modules["z3"] = mod
        spec.loader.exec_module(mod)
import z3  # noqa: E402,F401
