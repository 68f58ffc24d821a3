"""Load /repo's current sources for symbolic execution.

Every fastvpinns module is compiled from the working tree and executed in a fresh namespace whose
`numpy`, `math`, `scipy.special`, `float`, `int`, ... are the symbolic counterparts.  Libraries
whose effects are outside every property (plots, console output) are inert stand-ins."""
from __future__ import annotations
import ast, builtins, hashlib, importlib, math, os, re, sys, types
import numpy as np
from . import symnumpy as sn
from . import symcore as sc
from .symcore import Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")


class Inert:
    """accepts any call and attribute, does nothing"""

    def __init__(self, name="inert"):
        self.__dict__["_n"] = name

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return Inert(self.__dict__["_n"] + "." + n)

    def __setattr__(self, n, v):
        pass

    def __call__(self, *a, **k):
        return Inert(self.__dict__["_n"] + "()")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __iter__(self):
        return iter([Inert(self.__dict__["_n"] + "[0]"), Inert(self.__dict__["_n"] + "[1]")])

    def __getitem__(self, i):
        return Inert(self.__dict__["_n"] + "[]")

    def __setitem__(self, i, v):
        pass

    def __mro_entries__(self, bases):
        return (object,)

    def __add__(self, o):
        return self

    __radd__ = __mul__ = __rmul__ = __sub__ = __truediv__ = __or__ = __ror__ = __add__

    def __len__(self):
        return 0

    def __bool__(self):
        return False


class InertModule(types.ModuleType):
    def __init__(self, name, over=None):
        super().__init__(name)
        self.__dict__.update(over or {})
        self.__dict__["__path__"] = []

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return Inert(self.__name__ + "." + n)


def _tqdm(it=None, *a, **k):
    return Inert("tqdm") if it is None else it


INERT = ("matplotlib", "rich", "cycler", "pandas", "gmsh", "yaml", "pyvista", "mpl_toolkits")


_codes = {}


class _Percent(ast.NodeTransformer):
    """a % b becomes a call: printf-style formatting of symbolic numbers"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and not (isinstance(n.left, ast.Constant) and not isinstance(n.left.value, str)):
            f = ast.copy_location(ast.Name("__verif_percent__", ast.Load()), n)
            return ast.copy_location(ast.Call(f, [n.left, n.right], []), n)
        return n


class _Entry(ast.NodeTransformer):
    """every function notes that it was executed"""

    def __init__(self):
        self.stack = []

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_FunctionDef(self, n):
        name = ".".join(self.stack + [n.name])
        self.stack += [n.name, "<locals>"]
        self.generic_visit(n)
        del self.stack[-2:]
        doc = bool(n.body) and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str)
        at = n.body[min(doc, len(n.body) - 1)]
        call = ast.Expr(ast.Call(ast.Name("__verif_entry__", ast.Load()), [ast.Constant(name)], []))
        for x in ast.walk(call):
            ast.copy_location(x, at)
        n.body.insert(1 if doc else 0, call)
        return n


_CONV = re.compile(r"%(?P<spec>[-+ #0]*(?:\d+)?(?:\.\d+)?[a-zA-Z%])")


def _percent(a, b):
    if type(a) is not str:
        return a % b
    args = list(b) if isinstance(b, tuple) else [b]
    if not any(isinstance(v, sn.Sym) for v in args) or sc.TOKENS is None:
        return a % b
    out, pos, k = [], 0, 0
    for m in _CONV.finditer(a):
        out.append(a[pos:m.start()])
        pos = m.end()
        if m.group("spec") == "%":
            out.append("%")
            continue
        v, k = args[k], k + 1
        out.append(sc.token(v, "" if m.group("spec") == "s" else m.group("spec")) if isinstance(v, sn.Sym) else m.group(0) % (v,))
    if k != len(args):
        raise TypeError("not all arguments converted during string formatting")
    return "".join(out) + a[pos:]


def _code(path):
    if path not in _codes:
        with open(path, "rb") as fh:
            src = fh.read()
        tree = ast.fix_missing_locations(_Entry().visit(_Percent().visit(ast.parse(src, path))))
        _codes[path] = (compile(tree, path, "exec", dont_inherit=True), hashlib.sha256(src).hexdigest()[:16])
    return _codes[path]


class Loader:
    def __init__(self, stubs=None):
        self.stubs = {}
        self.inert = {}
        self.mods = {}
        self.functions = set()
        self.files = {}
        self.printed = []
        self.np = sn.make_numpy()
        from . import symspecial
        sp = symspecial.make()
        self.stubs.update({
            "numpy": self.np, "math": sn.SymMath("math"),
            "scipy": types.SimpleNamespace(special=sp, stats=None),
            "scipy.special": sp,
            "tqdm": InertModule("tqdm", {"tqdm": _tqdm, "trange": lambda *a, **k: range(*[int(x) for x in a])}),
            "meshio": _MeshioProxy(),
            "pyDOE": types.SimpleNamespace(lhs=sn_lhs),
            "time": importlib.import_module("time"),
        })
        self.stubs["tqdm.auto"] = self.stubs["tqdm"]
        if stubs:
            self.stubs.update(stubs)

    # ------------------------------------------------------------
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            base = pkg.rsplit(".", level - 1)[0] if level > 1 else pkg
            name = base + ("." + name if name else "")
        top = name.split(".")[0]
        if top == "fastvpinns":
            m = self.get(name)
            if fromlist:
                for f in fromlist or ():
                    if f != "*" and not hasattr(m, f):
                        try:
                            setattr(m, f, self.get(name + "." + f))
                        except ModuleNotFoundError:
                            pass
                return m
            return self.get(top)
        if name in self.stubs:
            m = self.stubs[name]
            if not fromlist and "." in name and top in self.stubs:
                return self.stubs[top]
            return m
        if top in self.stubs and top != name:
            m = self.stubs[top]
            for part in name.split(".")[1:]:
                m = getattr(m, part)
            return m if fromlist else self.stubs[top]
        if top in INERT:
            m = self.inert_module(name)
            return m if fromlist else self.inert_module(top)
        if top == "tensorflow" or top == "keras":
            from .tfproxy import tf_proxy
            m = tf_proxy()
            self.stubs["tensorflow"] = m
            if top != name:
                mm = m
                for part in name.split(".")[1:]:
                    mm = getattr(mm, part)
                return mm if fromlist else m
            return m
        return builtins.__import__(name, globals, locals, fromlist, level)

    def inert_module(self, name):
        if name not in self.inert:
            self.inert[name] = InertModule(name)
            up, _, last = name.rpartition(".")
            if up:
                self.inert_module(up).__dict__[last] = self.inert[name]
        return self.inert[name]

    def _builtins(self):
        d = dict(vars(builtins))
        d.update({"__import__": self._import, "float": sn.SymFloat, "int": sn.SymInt,
                  "min": sn.sym_min_builtin, "max": sn.sym_max_builtin, "sum": sn.sym_sum_builtin,
                  "print": self._print, "open": self._open, "range": _range, "round": _round, "__verif_percent__": _percent})
        return d

    def _print(self, *a, **k):
        f = k.get("file")
        if f is not None and f not in (sys.stdout, sys.stderr) and hasattr(f, "write"):
            builtins.print(*a, **k)

    open_hook = None

    def _open(self, f, mode="r", *a, **k):
        if self.open_hook is not None:
            return self.open_hook(f, mode, *a, **k)
        if any(c in mode for c in "wax+"):
            raise Unsupported("file written during symbolic execution: %r" % (f,))
        return builtins.open(f, mode, *a, **k)

    def path_of(self, name):
        p = os.path.join(REPO, *name.split("."))
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.isdir(p):
            return None, True
        raise ModuleNotFoundError("No module named %r" % name, name=name)

    def get(self, name):
        if name in self.mods:
            return self.mods[name]
        path, pkg = self.path_of(name)
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self._builtins()
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)] if path else []
        m.__file__ = path
        self.mods[name] = m
        if "." in name:
            parent = self.get(name.rpartition(".")[0])
            setattr(parent, name.rpartition(".")[2], m)
        if path:
            code = _code(path)
            self.files[path] = code[1]
            m.__dict__["__verif_entry__"] = self._entry(path)
            exec(code[0], m.__dict__)
        return m

    def _entry(self, path):
        rel = os.path.relpath(path, REPO)
        keep = rel.startswith("fastvpinns" + os.sep)

        def entry(name):
            if keep:
                self.functions.add("%s:%s" % (rel, name))
        return entry


def _range(*a):
    return range(*[x if isinstance(x, int) else x.__index__() for x in a])


def _round(x, n=None):
    if isinstance(x, sn.Sym):
        r = sn.sym_round(x, n or 0)
        return int(r) if n is None and r.is_const() else r
    return builtins.round(x, n) if n is not None else builtins.round(x)


class _MeshioProxy(types.ModuleType):
    """meshio with an in-memory file system: `files` maps paths to meshes"""

    def __init__(self):
        super().__init__("meshio")
        self.__dict__["__path__"] = []
        fs = self.__dict__["files"] = {}

        def read(path, *a, **k):
            import meshio
            if str(path) in fs:
                return fs[str(path)]
            if not os.path.exists(str(path)):
                return Inert("mesh")         # written by the inert gmsh
            return meshio.read(path, *a, **k)

        def write(path, mesh, *a, **k):
            import copy
            if isinstance(mesh, Inert):
                return
            m = copy.copy(mesh)
            if m.points.shape[1] == 2:       # the vtk format has three coordinates
                m.points = np.hstack([sn.sarr(m.points), sn.sarr(np.zeros((len(m.points), 1)))]).view(sn.SymArray)
            fs[str(path)] = m
        self.__dict__["read"] = read
        for n in ("vtk", "medit", "gmsh", "vtu"):
            self.__dict__[n] = types.SimpleNamespace(write=write, read=read, __path__=[])
        self.__dict__["write"] = lambda path, mesh, *a, **k: write(path, mesh)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        import meshio
        return getattr(meshio, n)

    def Mesh(self, points, cells, **kw):
        """meshio.Mesh with symbolic point coordinates"""
        import meshio
        p = sn.sarr(points)
        c = cells.items() if isinstance(cells, dict) else cells
        cc = []
        for blk in c:
            if hasattr(blk, "data"):
                cc.append(blk)
                continue
            k, v = blk[0], blk[1]
            if isinstance(v, sn.SymArray) and sn.has_sym(v):
                raise NonIntegerConnectivity()
            cc.append((k, np.asarray(sn.plainf(v) if isinstance(v, sn.SymArray) else v)))
        m = meshio.Mesh(np.zeros(p.shape), cc, **kw)
        m.points = p
        return m


class NonIntegerConnectivity(Exception):
    """mesh connectivity holds coordinates instead of point numbers"""


def sn_lhs(n, samples=None, criterion=None, iterations=None):
    """latin hypercube: in every dimension one sample in each of the `samples` strata (any order)"""
    import itertools
    samples = n if samples is None else int(samples)
    out = np.empty((samples, n), dtype=object)
    for d in range(n):
        perm = range(samples)
        if LHS_PERMUTE and samples > 1:
            perm = sn.CTX.choose("lhsperm%d" % next(_cnt), list(itertools.permutations(range(samples)))[:LHS_PERMUTE])
        for i in range(samples):
            v = sn.Sym.var("lhs%d" % next(_cnt))
            sn.CTX.assume(v >= 0)
            sn.CTX.assume(v < 1)
            out[i, d] = (v + perm[i]) / samples
    return out.view(sn.SymArray)


import itertools as _it
_cnt = _it.count()
LHS_PERMUTE = 0
