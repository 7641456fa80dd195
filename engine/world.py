"""Loading the modules of /repo, twice: as they are (for replay), and with calls
of float/int/round/isinstance/bool and string formatting routed through the
symbolic versions and numpy/math replaced by their shims (for exploration).
Both copies come from the current source in /repo.

The native extension modules are not built here; engine/models/*.py hold the
reference models that stand in for them."""

import ast
import importlib.util
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
MODELS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "models")
EXT = ("pybundle", "pydense", "pyfeatures", "pygeo", "pygeometry", "pymap",
       "pyrobust", "pysfm")
ROUTED = ("float", "int", "bool", "round", "isinstance")


class Rewrite(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in ROUTED:
            f.id = "__sx_" + f.id + "__"
        elif isinstance(f, ast.Name) and f.id == "map" and node.args:
            a = node.args[0]
            if isinstance(a, ast.Name) and a.id in ROUTED:
                a.id = "__sx_" + a.id + "__"
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(
                ast.Call(ast.Name("__sx_fmt__", ast.Load()), [node.left, node.right], []), node)
        return node


def _cv2_proxy():
    import cv2
    import numpy as np
    from . import npshim, rot
    from .sym import Unsupported

    def Rodrigues(x, *a):
        if not npshim.has_sym(x):
            return cv2.Rodrigues(np.asarray(npshim.plain(x), dtype=float))
        x = np.asarray(x, dtype=object)
        if x.size == 3:
            return rot.exp(x.ravel()), None
        return rot.log(x).reshape(3, 1), None

    class CV2:
        def __getattr__(self, n):
            if n == "Rodrigues":
                return Rodrigues
            v = getattr(cv2, n)
            if not callable(v) or isinstance(v, type):
                return v

            def f(*a, **k):
                if any(npshim.has_sym(x) for x in a):
                    raise Unsupported("cv2." + n)
                return v(*[npshim.plain(x) if isinstance(x, np.ndarray) else x for x in a], **k)

            return f

    return CV2()


class World:
    """One set of opensfm modules."""

    def __init__(self, symbolic):
        self.symbolic = symbolic
        self.mods = {}
        self.saved = {}
        self.patches = []
        pkg = types.ModuleType("opensfm")
        pkg.__path__ = [os.path.join(REPO, "opensfm")]
        pkg.__file__ = os.path.join(REPO, "opensfm", "__init__.py")
        self.mods["opensfm"] = pkg
        self.finder = _Finder(self)
        if symbolic:
            from . import memio, npshim

            self.np = npshim.NP
            self.math = npshim.math_proxy
            self.cv2 = _cv2_proxy()
            self.json = memio.JsonProxy()
        else:
            import math
            import numpy

            self.np = numpy
            self.math = math

    def __enter__(self):
        self.saved = {k: v for k, v in sys.modules.items() if k == "opensfm" or k.startswith("opensfm.")}
        for k in self.saved:
            del sys.modules[k]
        sys.modules.update(self.mods)
        sys.meta_path.insert(0, self.finder)
        return self

    def __exit__(self, *exc):
        sys.meta_path.remove(self.finder)
        for k in list(sys.modules):
            if k == "opensfm" or k.startswith("opensfm."):
                self.mods[k] = sys.modules.pop(k)
        sys.modules.update(self.saved)

    def fs(self):
        """An empty in-memory file system."""
        from . import memio
        return memio.MemIO()

    def dataset(self, images, fs=None):
        """The real DataSet over an in-memory file system."""
        import numpy
        fs = fs or self.fs()
        for im in images:
            fs.images["/data/images/" + im] = numpy.zeros((2, 2, 3), dtype=numpy.uint8)
        return self.mod("dataset").DataSet("/data", fs)

    def bfile(self):
        from . import memio
        return memio.BFile()

    def native(self, name):
        """Drivers of the C++ program /verif/cxx/<name>.cc."""
        from . import cxx
        return cxx.Native(name, self.symbolic)

    def mod(self, name):
        full = "opensfm." + name if not name.startswith("opensfm") else name
        if full not in sys.modules:
            __import__(full)
        return sys.modules[full]

    def patch(self, mod, name, value):
        """Replace mod.name for the current run."""
        had = name in vars(mod).get("_over", vars(mod))
        self.patches.append((mod, name, had, getattr(mod, name, None)))
        setattr(mod, name, value)

    def unpatch(self):
        for mod, name, had, old in reversed(self.patches):
            if had:
                setattr(mod, name, old)
            else:
                delattr(mod, name)
        self.patches = []
        if self.symbolic:
            self.json.docs.clear()


class _Finder:
    def __init__(self, world):
        self.world = world

    def find_spec(self, name, path=None, target=None):
        if not name.startswith("opensfm."):
            return None
        rel = name.split(".")[1:]
        if len(rel) == 1 and rel[0] in EXT:
            f = os.path.join(MODELS, rel[0] + ".py")
            if not os.path.exists(f):
                f = os.path.join(MODELS, "empty.py")
            return importlib.util.spec_from_file_location(name, f, loader=_Loader(name, f, self.world))
        base = os.path.join(REPO, "opensfm", *rel)
        if os.path.isdir(base):
            init = os.path.join(base, "__init__.py")
            if not os.path.exists(init):
                return None
            return importlib.util.spec_from_file_location(
                name, init, loader=_Loader(name, init, self.world), submodule_search_locations=[base])
        f = base + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=_Loader(name, f, self.world))
        return None


class _Loader:
    def __init__(self, name, path, world):
        self.name, self.path, self.world = name, path, world

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as fh:
            src = fh.read()
        tree = ast.parse(src, self.path)
        if self.world.symbolic:
            from . import npshim

            tree = ast.fix_missing_locations(Rewrite().visit(tree))
            for k, v in npshim.BUILTINS.items():
                module.__dict__["__sx_" + k + "__"] = v
            module.__dict__["__sx_fmt__"] = npshim.sym_fmt
        code = compile(tree, self.path, "exec")
        exec(code, module.__dict__)
        if self.world.symbolic:
            import json
            import math
            import numpy
            import sys

            cv2 = sys.modules.get("cv2")

            for k, v in list(module.__dict__.items()):
                if v is numpy:
                    module.__dict__[k] = self.world.np
                elif v is json:
                    module.__dict__[k] = self.world.json
                elif v is math:
                    module.__dict__[k] = self.world.math
                elif cv2 is not None and v is cv2:
                    module.__dict__[k] = self.world.cv2
                elif not k.startswith("__") and getattr(v, "__module__", None) == "math" and callable(v):
                    module.__dict__[k] = getattr(self.world.math, v.__name__)
                elif k == "norm" and v is numpy.linalg.norm:
                    module.__dict__[k] = self.world.np.linalg.norm
