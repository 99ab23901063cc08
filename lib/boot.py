"""Make `import phono3py` mean /repo's current tree with freshly built C modules.

Import this before anything from phono3py.
"""
import glob
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

sys.dont_write_bytecode = True
from lib import build as _b

REPO = _b.REPO
_SO = _b.build()


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "phono3py" and not fullname.startswith("phono3py."):
            return None
        parts = fullname.split(".")
        if len(parts) == 2 and parts[1] in _b.MODULES:
            so = glob.glob(os.path.join(_SO, parts[1] + "*.so"))[0]
            loader = importlib.machinery.ExtensionFileLoader(fullname, so)
            return importlib.util.spec_from_file_location(fullname, so, loader=loader)
        base = os.path.join(REPO, *parts)
        if os.path.isdir(base):
            init = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                fullname, init if os.path.exists(init) else None,
                submodule_search_locations=[base],
            )
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(fullname, base + ".py")
        raise ModuleNotFoundError(fullname)


sys.meta_path.insert(0, _Finder())
if "phono3py" in sys.modules:
    raise RuntimeError("phono3py imported before lib.boot")
import phono3py  # noqa: E402

assert os.path.realpath(phono3py.__file__).startswith(os.path.realpath(REPO)), phono3py.__file__
