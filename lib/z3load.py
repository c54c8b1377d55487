"""Import the installed z3 bindings (and nothing else) from the verification tools' environment."""
import glob
import importlib.util
import sys


def load():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    spec = importlib.util.find_spec("z3")
    if spec is None:
        for path in sorted(glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages/z3/__init__.py")):
            spec = importlib.util.spec_from_file_location(
                "z3", path, submodule_search_locations=[path.rsplit("/", 1)[0]]
            )
            break
    if spec is None:
        raise RuntimeError("z3 python bindings not found")
    mod = importlib.util.module_from_spec(spec)
    sys.modules["z3"] = mod
    spec.loader.exec_module(mod)
    return mod


z3 = load()
