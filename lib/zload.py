"""Load the installed z3 Python package inside the code under test's own interpreter."""
import glob, importlib.util, os, sys


def load_z3():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    try:
        import z3  # noqa
        return sys.modules["z3"]
    except ImportError:
        pass
    for init in glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages/z3/__init__.py"):
        spec = importlib.util.spec_from_file_location(
            "z3", init, submodule_search_locations=[os.path.dirname(init)])
        mod = importlib.util.module_from_spec(spec)
        sys.modules["z3"] = mod
        spec.loader.exec_module(mod)
        return mod
    raise ImportError("z3 python package not found")


z3 = load_z3()
