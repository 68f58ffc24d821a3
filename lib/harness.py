"""Check bodies, their symbolic execution, and their replay against the real code.

A check is a function `body(h, **config)`.  `h` is either a `SymH` (inputs are symbols, modules
are the symbolically executed sources, obligations go to the solver) or a `NumH` (inputs are
numbers, modules are the real fastvpinns package, obligations are evaluated)."""
from __future__ import annotations
import importlib, itertools, math, os, random, re, signal, sys, tempfile, time, traceback
from fractions import Fraction
import numpy as np
from . import symcore as sc
from . import symnumpy as sn
from .symcore import CTX, Sym, SymBool, Unsupported, AssumptionFailed, z3, cross, as_sym, F0
from . import loader as ld

REL = 1e-9        # coefficient-relative rounding allowance of symbolic equalities
ABSC = 1e-12      # ... relative to the largest coefficient of the two sides


class Violation(Exception):
    def __init__(self, label, detail):
        super().__init__("%s: %s" % (label, detail))
        self.label, self.detail = label, detail


class Candidate(Exception):
    """the solver found a counterexample (or the executed code raised) on this path"""

    def __init__(self, label, env, choices, detail):
        super().__init__(label)
        self.label, self.env, self.choices, self.detail = label, env, choices, detail


class Inconclusive(Exception):
    pass


class Skip(BaseException):
    """concrete draw outside the assumptions"""


# ====================================================================== symbolic side
def _mapped(op, witness):
    def f(self, *a):
        """the operation on every name seen so far, on one changed spelling of each documented name
        that the operation maps to it, and on any other string"""
        for t in list(self.IDS) + [witness(k) for k in self.known]:
            if self == t:
                return getattr(str(t), op)(*a)
        SymStr.fresh += 1
        v = Sym.var("%s.%s!%d" % (str.__str__(self), op, SymStr.fresh), "int")
        CTX.assume(v >= 1)
        for t in list(self.IDS):
            CTX.assume(v != self.IDS[t])
        return SymStr("other", v, self.known)
    return f


class SymStr(str):
    """an arbitrary string: comparisons with other strings split the path"""
    IDS = {}

    @classmethod
    def number(cls, text):
        if text not in cls.IDS:
            cls.IDS[text] = len(cls.IDS) + 1
        return cls.IDS[text]

    def __new__(cls, name, var, known):
        o = str.__new__(cls, "<%s>" % name)
        o.var, o.known = var, list(known)
        return o

    def __eq__(self, o):
        if isinstance(o, SymStr):
            return bool(self.var == o.var)
        return bool(self.var == self.number(str(o))) if isinstance(o, str) else False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        for k in self.known:
            if self == k:
                return hash(k)
        return str.__hash__(self)

    def _no(self, *a, **k):
        raise Unsupported("string operation on an arbitrary name")

    startswith = endswith = split = replace = __contains__ = __getitem__ = __len__ = _no

    fresh = 0
    lower, upper = _mapped("lower", str.swapcase), _mapped("upper", str.swapcase)
    casefold, swapcase = _mapped("casefold", str.swapcase), _mapped("swapcase", str.swapcase)
    title, capitalize = _mapped("title", str.swapcase), _mapped("capitalize", str.swapcase)
    strip, lstrip = _mapped("strip", " {}".format), _mapped("lstrip", " {}".format)
    rstrip = _mapped("rstrip", "{} ".format)


class SymH:
    symbolic = True

    def __init__(self, cfg, stats, query_timeout=60000):
        self.cfg = cfg
        self.loader = ld.Loader()
        self.stats = stats
        self.names = {}
        self.query_timeout = query_timeout
        self.labels = []
        self.scratch = None
        self.functions = set()      # names of the arbitrary functions handed out

    # ---- inputs
    def real(self, name, lo=-2.0, hi=2.0, bounded=False):
        v = Sym.var(name)
        if bounded:
            CTX.assume(v >= lo)
            CTX.assume(v <= hi)
            v.atom().lo, v.atom().hi = Fraction(lo), Fraction(hi)
        self.names[name] = v
        return v

    def reals(self, name, shape, lo=-2.0, hi=2.0, sampler=None, bounded=False):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        flat = [self.real("%s[%s]" % (name, ",".join(map(str, i))), lo, hi, bounded)
                for i in itertools.product(*[range(s) for s in shape])]
        return sn._fill(flat, shape)

    def int(self, name, lo, hi, nlo=None, nhi=None):
        """symbolic integer in lo..hi (None: unbounded); nlo..nhi is what concrete runs draw from"""
        v = Sym.var(name, "int")
        if lo is not None:
            CTX.assume(v >= lo)
        if hi is not None:
            CTX.assume(v <= hi)
        self.names[name] = v
        return v

    def string(self, name, known, others=()):
        """an arbitrary string; `known` are the documented ones, concrete runs draw from known and others"""
        v = Sym.var(name, "int")
        CTX.assume(v >= 1)
        for k in known:
            SymStr.number(k)
        self.names[name] = v
        return SymStr(name, v, known)

    def fn(self, name, nout=None):
        """arbitrary function of its (scalar or array) arguments"""
        def one(k):
            full = "%s%s" % (name, "" if k is None else "#%d" % k)
            self.functions.add(full)

            def g(*args):
                return Sym.of_atom(sc.fun_atom(full, args))
            return g

        def f(*args):
            def comp(k):
                g = one(k)
                if any(isinstance(a, np.ndarray) or isinstance(a, (list, tuple)) for a in args):
                    arrs = np.broadcast_arrays(*[sn.sarr(a).view(np.ndarray) for a in args])
                    return sn._fill([g(*[z.reshape(-1)[i] for z in arrs]) for i in range(arrs[0].size)],
                                    arrs[0].shape)
                return g(*args)
            return comp(None) if nout is None else [comp(k) for k in range(nout)]
        return f

    def choose(self, name, options):
        return CTX.choose(name, options)

    def assume(self, c):
        if isinstance(c, np.ndarray):
            for e in c.reshape(-1):
                CTX.assume(e)
        else:
            CTX.assume(c)

    # ---- code under test
    def module(self, name):
        return self.loader.get("fastvpinns." + name)

    def array(self, x):
        a = sn.sarr(x)
        return sn._fill([float(e) if type(e) is int or isinstance(e, np.integer) else e for e in a.reshape(-1).view(np.ndarray)], a.shape)

    def lib(self, name):
        return {"numpy": self.loader.np}.get(name)

    def patch(self, modname, attr, obj):
        m = self.loader.stubs.get(modname)
        if m is None and modname.split(".")[0] in ld.INERT:
            m = self.loader.inert_module(modname)
        if m is None:
            m = self.loader.stubs[modname] = ld.InertModule(modname)
        m.__dict__[attr] = obj

    def provide(self, mods):
        """stand-ins for libraries that are not installed"""
        self.loader.stubs.update(mods)

    def fresh(self, name):
        """the repository module, executed anew"""
        return self.module(name)

    def replace(self, name, attr, obj):
        """give a repository module another attribute"""
        setattr(self.module(name), attr, obj)

    def tmp(self):
        return self.scratch

    # ---- obligations
    @staticmethod
    def _number(z):
        """the value of a z3 numeral, None for anything else"""
        if z3.is_rational_value(z):
            return Fraction(z.numerator_as_long(), z.denominator_as_long())
        if z3.is_int_value(z):
            return z.as_long()
        if z3.is_algebraic_value(z):
            ap = z.approx(20)
            return Fraction(ap.numerator_as_long(), ap.denominator_as_long())
        return None

    def _model_env(self, model):
        """values of the inputs, and (under __fn__) of the arbitrary functions, that the model gives"""
        env, val = {}, {}
        for n, v in self.names.items():
            a = v.atom()
            try:
                x = self._number(model.eval(a.z, model_completion=False))
            except Exception:
                x = None
            if x is not None:
                val[a.id] = x
                env[n] = x if isinstance(x, int) else float(x)
        try:
            table = self._model_functions(model, env, val)
        except Exception:
            table = {}
        if table:
            env["__fn__"] = table
        return env

    def _model_functions(self, model, env, val):
        names = {v.atom().id: n for n, v in self.names.items()}
        rng = random.Random(0)

        def atom(i):
            if i not in val:
                x = self._number(model.eval(sc.ATOMS[i].z, model_completion=False))
                if x is None and i in names and sc.ATOMS[i].kind != "int":
                    # an argument the model leaves open: any value will do
                    a = sc.ATOMS[i]
                    x = Fraction(rng.uniform(float(-2 if a.lo is None else a.lo), float(2 if a.hi is None else a.hi)))
                    env[names[i]] = float(x)
                if x is None:
                    raise KeyError(i)
                val[i] = x
            return val[i]

        table = {}
        for a in list(sc.ATOMS):
            if a.kind != "fun" or a.fn not in self.functions:
                continue
            x = self._number(model.eval(a.z, model_completion=False))
            if x is None:
                continue
            try:
                args = []
                for s in a.args:
                    d = Fraction(1)
                    for k, e in s.den.items():
                        d *= Fraction(sc.p_eval(k.poly, atom)) ** e
                    args.append(float(Fraction(sc.p_eval(s.num, atom)) / d))
            except (KeyError, ZeroDivisionError):
                continue
            table.setdefault(a.fn, []).append(args + [float(x)])
        return table

    def _fail(self, label, conds, atoms, detail):
        rs, model = CTX.check(conds, timeout=self.query_timeout, want_model=True, extra_atoms=atoms)
        if rs == "unsat":
            return
        raise Candidate(label, self._model_env(model) if model is not None else {}, dict(CTX.choices), detail)

    def eq(self, label, got, want, tol=None, rel=REL, atol=0, crel=None, mag=None):
        """equality; rounding-level differences of coefficients are accepted (relative `rel`, or
        absolute `atol` for arguments in the unit box); with `tol` real arithmetic up to tol"""
        self.labels.append(label)
        self.stats["obligations"] += 1
        g, w = sn.sarr(got), sn.sarr(want)
        if g.shape != w.shape:
            raise Candidate(label, {}, dict(CTX.choices), "shape %s instead of %s" % (g.shape, w.shape))
        L, conds, atoms, bad = [], [], set(), []
        for i, (a, b) in enumerate(zip(g.view(np.ndarray).reshape(-1), w.view(np.ndarray).reshape(-1))):
            if isinstance(a, (SymBool, bool, np.bool_)) or isinstance(b, (SymBool, bool, np.bool_)):
                a = 1.0 if bool(a) else 0.0
                b = 1.0 if bool(b) else 0.0
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                if isinstance(a, float) and not math.isfinite(a) or isinstance(b, float) and not math.isfinite(b):
                    if not (a == b):
                        raise Candidate(label, {}, dict(CTX.choices), "entry %d: %r instead of %r" % (i, a, b))
                    continue
            a, b = as_sym(a), as_sym(b)
            l, r = sc.reduce_roots(*cross(a, b))
            L.append((i, l, r))
        # 1. linear query: every monomial an independent unknown; rounding-level differences of the
        #    coefficients are tolerated for monomials in the unit box
        rest = []
        lin = []
        for i, l, r in L:
            if l == r and len(l) > 20000:
                # identical normal forms, too long to be worth printing into the solver
                self.stats["identical_normal_forms"] = self.stats.get("identical_normal_forms", 0) + 1
                continue
            q = self._linear(l, r, rel, atol)
            if q is None:
                rest.append((i, l, r))
            else:
                lin.append(q)
        if lin:
            rs = self._lin_check(lin)
            if rs == "unknown" and len(lin) > 1:
                # too much for one disjunction: entry by entry
                rs = next((v for v in (self._lin_check([q]) for q in lin) if v != "unsat"), "unsat")
            if rs != "unsat":
                raise Inconclusive("linear query %s: %s" % (label, rs))
        # 2. full query under the path condition
        for i, l, r in rest:
            d = sc.p_add(l, sc.p_neg(r))
            if tol:
                z = sc.z_poly(d)
                c = z3.Or(z > sc.zfrac(Fraction(tol)), z < -sc.zfrac(Fraction(tol)))
            else:
                c = sc.z_poly(l) != sc.z_poly(r)
            at = sc.p_atoms(l) | sc.p_atoms(r)
            rs, model = CTX.check([c], timeout=self.query_timeout, want_model=True, extra_atoms=at)
            if rs == "unsat":
                continue
            raise Candidate(label, self._model_env(model) if model is not None else {}, dict(CTX.choices),
                            "entry %d differs (%s)" % (i, rs))

    def _linear(self, l, r, rel, atol=0):
        scale = max([abs(c) for c in l.values()] + [abs(c) for c in r.values()] + [F0])
        tol = F0
        exact = True
        for m in set(l) | set(r):
            cl, cr = l.get(m, F0), r.get(m, F0)
            if cl != cr:
                exact = False
                t = Fraction(rel) * max(abs(cl), abs(cr)) + Fraction(ABSC) * scale + Fraction(atol)
                if abs(cl - cr) > t:
                    return None
                tol += t
        return (l, r, tol)

    _mvars = {}

    def _lin_check(self, items):
        s = z3.Solver()
        s.set("timeout", self.query_timeout)
        ors, used = [], set()

        def lin(p):
            ts = []
            for m, c in p.items():
                if not m:
                    ts.append(sc.zfrac(c))
                    continue
                v = SymH._mvars.get(m)
                if v is None:
                    v = SymH._mvars[m] = z3.Real("m!%d" % len(SymH._mvars))
                used.add(v)
                ts.append(v if c == 1 else sc.zfrac(c) * v)
            return z3.RealVal(0) if not ts else ts[0] if len(ts) == 1 else z3.Sum(*ts)
        box = False
        for l, r, tol in items:
            if tol == 0:
                ors.append(lin(l) != lin(r))
            else:
                # rounding noise: bound the difference, monomials within the unit box
                box = True
                d = sc.p_add(l, sc.p_neg(r))
                e = lin(d)
                ors.append(z3.Or(e > sc.zfrac(tol), e < -sc.zfrac(tol)))
        s.add(z3.Or(*ors) if len(ors) > 1 else ors[0])
        if box:
            for v in used:
                s.add(v <= 1, v >= -1)
        t = time.time()
        rs = str(s.check())
        self.stats["solver_s"] += time.time() - t
        self.stats["queries"] += 1
        self.stats[rs] += 1
        return rs

    def _cond(self, label, c, detail):
        self.labels.append(label)
        self.stats["obligations"] += 1
        if isinstance(c, np.ndarray):
            c = sc.sand(*list(sn.sarr(c).view(np.ndarray).reshape(-1)))
        if isinstance(c, SymBool):
            rs, model = CTX.check([z3.Not(c.z)], timeout=self.query_timeout, want_model=True, extra_atoms=c.atoms)
            if rs != "unsat":
                raise Candidate(label, self._model_env(model) if model is not None else {}, dict(CTX.choices),
                                "%s (%s)" % (detail, rs))
        elif not c:
            rs, model = CTX.check([], timeout=self.query_timeout, want_model=True)
            raise Candidate(label, self._model_env(model) if model is not None else {}, dict(CTX.choices), detail)

    def true(self, label, c, detail="condition fails"):
        self._cond(label, c, detail)

    def some(self, label, cs, detail="no alternative holds"):
        """at least one of the conditions holds; each is tried on its own first"""
        cs = list(cs)
        for c in cs:
            if not isinstance(c, SymBool):
                if c:
                    return self._cond(label, True, detail)
                continue
            rs = CTX.check([z3.Not(c.z)], timeout=5000, want_model=True, extra_atoms=c.atoms)[0]
            if rs == "unsat":
                self.labels.append(label)
                self.stats["obligations"] += 1
                return
        self._cond(label, sc.sor(*cs), detail)

    def le(self, label, a, b, slack=1e-9):
        """a <= b, with an absolute allowance for rounding when slack > 0"""
        a, b = np.broadcast_arrays(sn.sarr(a).view(np.ndarray), sn.sarr(b).view(np.ndarray))
        for x, y in zip(a.reshape(-1), b.reshape(-1)):
            c = as_sym(x) <= as_sym(y) + Fraction(slack)
            self._cond(label, c, "%s is not <= %s" % (sc.show(as_sym(x)), sc.show(as_sym(y))))

    def lt(self, label, a, b):
        a, b = np.broadcast_arrays(sn.sarr(a).view(np.ndarray), sn.sarr(b).view(np.ndarray))
        for x, y in zip(a.reshape(-1), b.reshape(-1)):
            self._cond(label, as_sym(x) < as_sym(y), "%s is not < %s" % (sc.show(as_sym(x)), sc.show(as_sym(y))))

    def raises(self, label, exc, thunk):
        """thunk raises exc (an exception class) or returns normally if exc is None"""
        self.labels.append(label)
        self.stats["obligations"] += 1
        try:
            r = thunk()
        except Unsupported:
            raise
        except Exception as e:
            if exc is not None and isinstance(e, exc):
                return None
            self._pathfail(label, "raised %s(%s), expected %s" % (type(e).__name__, e, exc and exc.__name__))
        else:
            if exc is None:
                return r
            self._pathfail(label, "returned normally, expected %s" % exc.__name__)

    def _pathfail(self, label, detail):
        rs, model = CTX.check([], timeout=self.query_timeout, want_model=True)
        if rs == "unsat":
            raise AssumptionFailed()
        raise Candidate(label, self._model_env(model) if model is not None else {}, dict(CTX.choices), detail)

    def branch(self, c):
        """split the path on a condition; returns a Python bool"""
        return bool(c)

    def all(self, cs):
        return sc.sand(*list(cs))

    def any(self, cs):
        return sc.sor(*list(cs))

    def same(self, a, b):
        """syntactic equality up to rounding (a guess for matching, not an obligation)"""
        a, b = sn.sarr(a).view(np.ndarray), sn.sarr(b).view(np.ndarray)
        return a.shape == b.shape and all(sc.sym_close(as_sym(x), as_sym(y))
                                          for x, y in zip(a.reshape(-1), b.reshape(-1)))

    def tensor(self, x, dtype="float64"):
        from . import tfinterp as ti
        import tensorflow as tf
        return ti.sym_constant(x, tf.as_dtype(dtype))

    def npy(self, t):
        """values of a tensor"""
        return t.numpy() if hasattr(t, "numpy") else t

    def dtype_name(self, t):
        return t.dtype.name

    def writable(self):
        """let the code write files inside the scratch folder; symbolic values become tokens"""
        root = os.path.realpath(self.scratch)
        sc.TOKENS = []

        def op(f, mode="r", *a, **k):
            if any(c in mode for c in "wax+") and not os.path.realpath(str(f)).startswith(root + os.sep):
                raise Unsupported("file written outside the scratch folder: %r" % (f,))
            return open(f, mode, *a, **k)
        self.loader.open_hook = op

    def parsed(self, t, digits):
        """the number a file token stands for, to the given number of significant digits"""
        v = sc.untoken(t)
        if v is None:
            return as_sym(float(t))
        x, spec = v
        m = re.match(r"^[-+ ]*\d*(?:\.(\d+))?([eEgGsr]?)$", spec)
        if not m or m.group(2) in ("s", "r") and m.group(1):
            return as_sym(0.0)
        if not m.group(1) and m.group(2) in ("", "s", "r"):
            return x
        p = int(m.group(1) or 6) + (m.group(2) in ("e", "E"))
        return x if p >= digits else as_sym(0.0)

    def cast(self, x, name):
        """x rounded once to the named float type"""
        a = sn.sarr(x)
        return sn._fill([sn.cast_scalar(e, {"float64": "f8", "float32": "f4", "float16": "f2"}[name])
                         for e in a.reshape(-1).view(np.ndarray)], a.shape)

    def sqrt(self, x):
        return sn.ew1("sqrt")(x)

    def floor(self, x):
        return sn.ew1("floor")(x)

    def pow(self, x, e):
        return as_sym(x) ** as_sym(e)

    def abs(self, x):
        return sn.ew1("absolute")(x)

    def tanh(self, x):
        return sn.ew1("tanh")(x)

    def max(self, xs):
        return sn._maxmin(list(xs), "max")

    def frac(self, p, q):
        return Sym({(): Fraction(p, q)}) if p else 0.0


# ====================================================================== concrete side
class NumH:
    symbolic = False

    def __init__(self, cfg, env, choices, rng, scratch):
        self.cfg = cfg
        self.env = dict(env)
        self.used = {}
        self.choices = dict(choices)
        self.used_choices = {}
        self.rng = rng
        self.scratch = scratch
        self._undo = []
        self._mods = []
        self._fns = {}

    def real(self, name, lo=-2.0, hi=2.0, bounded=False):
        v = self.env.get(name)
        if v is None:
            v = self.rng.uniform(lo, hi) * self._scale(bounded, lo, hi)
        self.used[name] = float(v)
        return float(v)

    def reals(self, name, shape, lo=-2.0, hi=2.0, sampler=None, bounded=False):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        keys = ["%s[%s]" % (name, ",".join(map(str, i))) for i in itertools.product(*[range(s) for s in shape])]
        draw = None
        if sampler is not None and not any(k in self.env for k in keys):
            draw = np.asarray(sampler(self.rng), dtype=float).reshape(-1) * self._scale(bounded, lo, hi)
        out = []
        for i, k in enumerate(keys):
            v = self.env.get(k)
            if v is None:
                v = draw[i] if draw is not None else self.rng.uniform(lo, hi) * self._scale(bounded, lo, hi)
            self.used[k] = float(v)
            out.append(float(v))
        return np.array(out, dtype=np.float64).reshape(shape)

    def _scale(self, bounded, lo, hi):
        s = self.env.get("__scale__", 1)
        return s if not bounded or lo <= 0 <= hi and s < 1 else 1

    def int(self, name, lo, hi, nlo=None, nhi=None):
        v = self.env.get(name)
        if v is None:
            v = self.rng.randint(nlo if nlo is not None else lo, nhi if nhi is not None else hi)
        self.used[name] = int(v)
        return int(v)

    def string(self, name, known, others=()):
        v = self.env.get(name)
        if isinstance(v, int):
            v = {i: t for t, i in SymStr.IDS.items()}.get(v, "no such name")
        if v is None:
            v = self.rng.choice(list(known) + list(others))
        self.used[name] = v
        return v

    def fn(self, name, nout=None):
        """a generic smooth function, fixed by name and the run's seed"""
        if name not in self._fns:
            r = random.Random("%s/%s" % (name, self.env.get("__fnseed__", 0)))
            self._fns[name] = [[r.uniform(0.3, 2.0) for _ in range(8)] for _ in range(nout or 1)]

        tables = self.env.get("__fn__") or {}
        rows = [tables.get(name if nout is None else "%s#%d" % (name, k)) for k in range(nout or 1)]
        if tables:
            self.used["__fn__"] = tables

        def at(s, table, args):
            """the counterexample's values at the points it names"""
            if not all(isinstance(a, (int, float, np.ndarray, np.number)) for a in args):
                return s
            arrs = np.broadcast_arrays(np.asarray(s, dtype=np.float64), *args)
            out = np.array(arrs[0])
            for row in table:
                if len(row) != len(args) + 1:
                    continue
                hit = np.ones(out.shape, dtype=bool)
                for a, v in zip(arrs[1:], row):
                    hit &= np.abs(a - v) <= 1e-7 * max(1.0, abs(v))
                out[hit] = row[-1]
            return out if out.ndim else np.float64(out)

        def comp(c, args):
            s = c[0]
            for i, a in enumerate(args):
                s = s + c[1 + i % 3] * np.sin(c[4 + i % 3] * a + i) + 0.1 * c[7] * a * (i + 1)
            table = rows[self._fns[name].index(c)]
            return at(s, table, args) if table else s

        def f(*args):
            args = [np.asarray(a, dtype=np.float64) if isinstance(a, (np.ndarray, list, tuple)) else a for a in args]
            cs = self._fns[name]
            if len(args) == 0:
                return cs[0][0] if nout is None else [c[0] for c in cs]
            return comp(cs[0], args) if nout is None else [comp(c, args) for c in cs]
        return f

    def choose(self, name, options):
        options = list(options)
        v = self.choices.get(name)
        if v is None or v >= len(options):
            v = self.rng.randrange(len(options))
        self.used_choices[name] = v
        return options[v]

    def assume(self, c):
        if not bool(np.all(c)):
            raise Skip()

    def module(self, name):
        return importlib.import_module("fastvpinns." + name)

    def array(self, x):
        return np.array(x, dtype=np.float64)

    def lib(self, name):
        return {"numpy": np}.get(name)

    def patch(self, modname, attr, obj):
        m = importlib.import_module(modname)
        self._undo.append((m, attr, getattr(m, attr, None), hasattr(m, attr)))
        setattr(m, attr, obj)

    def provide(self, mods):
        for n, m in mods.items():
            self._mods.append((n, sys.modules.get(n)))
            sys.modules[n] = m

    def fresh(self, name):
        name = "fastvpinns." + name
        self._mods.append((name, sys.modules.pop(name, None)))
        return importlib.import_module(name)

    def replace(self, name, attr, obj):
        name, _, cls = name.partition(":")
        m = getattr(self.module(name), cls) if cls else self.module(name)
        self._undo.append((m, attr, getattr(m, attr, None), hasattr(m, attr)))
        setattr(m, attr, obj)

    def undo(self):
        for n, m in reversed(self._mods):
            sys.modules.pop(n, None)
            if m is not None:
                sys.modules[n] = m
        self._mods = []
        for m, a, v, had in reversed(self._undo):
            if had:
                setattr(m, a, v)
            else:
                delattr(m, a)
        self._undo = []

    def tmp(self):
        return self.scratch

    # ---- obligations
    def eq(self, label, got, want, tol=None, rel=None, atol=0, crel=None, mag=None):
        """crel: relative allowance of concrete runs, where it differs from the usual 1e-7;
        mag: magnitude of the terms that make up the expected values, if it is not about one"""
        try:
            g = np.asarray(got, dtype=np.float64)
        except (TypeError, ValueError) as e:
            raise Violation(label, "not an array of numbers: %s" % e)
        w = np.asarray(want, dtype=np.float64)
        if g.shape != w.shape:
            raise Violation(label, "shape %s instead of %s" % (g.shape, w.shape))
        if g.size == 0:
            return
        scale = float(np.max(np.abs(w))) if w.size else 0.0
        t = tol if tol is not None else crel * scale if crel is not None else 1e-7 * scale + (1e-10 * float(mag) if mag is not None else max(1e-9, 10 * atol))
        bad = ~(np.abs(g - w) <= t)
        if bad.any():
            i = tuple(int(v[0]) for v in np.nonzero(np.atleast_1d(bad)))
            raise Violation(label, "entry %s is %r, expected %r" % (i, np.atleast_1d(g)[i], np.atleast_1d(w)[i]))

    def some(self, label, cs, detail="no alternative holds"):
        self.true(label, any(bool(c) for c in cs), detail)

    def true(self, label, c, detail="condition fails"):
        if not bool(np.all(c)):
            raise Violation(label, detail)

    def le(self, label, a, b, slack=1e-9):
        if not bool(np.all(np.asarray(a) <= np.asarray(b) + max(slack, 1e-9))):
            raise Violation(label, "%r is not <= %r" % (a, b))

    def lt(self, label, a, b):
        if not bool(np.all(np.asarray(a) < np.asarray(b))):
            raise Violation(label, "%r is not < %r" % (a, b))

    def raises(self, label, exc, thunk):
        try:
            r = thunk()
        except Exception as e:
            if exc is not None and isinstance(e, exc):
                return None
            raise Violation(label, "raised %s(%s), expected %s" % (type(e).__name__, e, exc and exc.__name__))
        if exc is None:
            return r
        raise Violation(label, "returned normally, expected %s" % exc.__name__)

    def branch(self, c):
        return bool(c)

    def all(self, cs):
        return all(bool(np.all(c)) for c in cs)

    def any(self, cs):
        return any(bool(np.all(c)) for c in cs)

    def same(self, a, b):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape:
            return False
        mag = max(float(np.max(np.abs(a))), float(np.max(np.abs(b)))) if a.size else 0.0
        return bool(np.all(np.abs(a - b) <= 1e-12 * mag))

    def tensor(self, x, dtype="float64"):
        import tensorflow as tf
        return tf.constant(np.asarray(x, dtype=np.float64), dtype=dtype)

    def npy(self, t):
        return t.numpy() if hasattr(t, "numpy") else np.asarray(t)

    def dtype_name(self, t):
        return t.dtype.name

    def writable(self):
        pass

    def parsed(self, t, digits):
        return float(t)

    def cast(self, x, name):
        return np.asarray(x, dtype=np.float64).astype(name)

    def sqrt(self, x):
        return np.sqrt(x)

    def floor(self, x):
        return np.floor(x)

    def pow(self, x, e):
        return float(x) ** float(e)

    def abs(self, x):
        return np.abs(x)

    def tanh(self, x):
        return np.tanh(x)

    def max(self, xs):
        return max(xs)

    def frac(self, p, q):
        return p / q


# ====================================================================== driver
class Quiet:
    """silence the real code's prints"""

    def __enter__(self):
        self.fd = os.dup(1)
        self.fe = os.dup(2)
        sys.stdout.flush()
        sys.stderr.flush()
        n = os.open(os.devnull, os.O_WRONLY)
        os.dup2(n, 1)
        if not os.environ.get("VERIF_DEBUG"):
            os.dup2(n, 2)
        os.close(n)

    def __exit__(self, *a):
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(self.fd, 1)
        os.dup2(self.fe, 2)
        os.close(self.fd)
        os.close(self.fe)
        return False


def run_concrete(body, cfg, env, choices, seed, scratch):
    """returns (status, info): 'ok' | 'skip' | 'violation'"""
    h = NumH(cfg, env, choices, random.Random(seed), scratch)
    np.random.seed(seed % (2 ** 32))
    cwd = os.getcwd()
    os.chdir(scratch)
    try:
        with Quiet():
            body(h, **cfg)
        return "ok", dict(env=h.used, choices=h.used_choices)
    except Skip:
        return "skip", None
    except Violation as v:
        return "violation", dict(label=v.label, detail=v.detail, env=h.used, choices=h.used_choices, seed=seed,
                                 fnseed=env.get("__fnseed__", 0))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if not any("/fastvpinns/" in f.filename for f in tb):
            raise
        where = [f for f in tb if "/fastvpinns/" in f.filename][-1]
        return "violation", dict(label="exception", detail="%s: %s (at %s:%d)" % (
            type(e).__name__, e, os.path.relpath(where.filename, ld.REPO), where.lineno),
            env=h.used, choices=h.used_choices, seed=seed, fnseed=env.get("__fnseed__", 0))
    finally:
        h.undo()
        os.chdir(cwd)


class TimeUp(BaseException):
    """the time for one configuration is over"""


def run_symbolic(*a, **k):
    """_run_symbolic, ended after its share of the time"""
    def over(*_):
        raise TimeUp()
    old = signal.signal(signal.SIGALRM, over)
    cwd = os.getcwd()
    if k.get("scratch"):
        os.chdir(k["scratch"])
    cap = k.pop("cap", 300)
    left = (a[3] if len(a) > 3 else k["deadline"]) - time.time()
    signal.setitimer(signal.ITIMER_REAL, max(1.0, min(cap, left)), 5.0)
    try:
        return _run_symbolic(*a, **k)
    except TimeUp:
        return dict(status="unsupported", detail="time for this configuration is over", functions=[], files={}, labels=[],
                    completed_paths=0, denominators=0)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(cwd)


def _run_symbolic(body, cfg, stats, deadline, max_paths=4000, query_timeout=60000, scratch=None):
    """explore every path; returns dict(status, ...)"""
    sc.reset_atoms()
    SymH._mvars = {}
    CTX.stats = stats
    funcs = set()
    files = {}
    state = dict(reached=0, labels=set(), denominators=0)

    def one():
        sn._Random.counter = 0
        ld._cnt = itertools.count()
        h = SymH(cfg, stats, query_timeout)
        h.scratch = scratch
        h.loader.functions = funcs
        try:
            body(h, **cfg)
            state["reached"] += 1
            state["labels"] |= set(h.labels)
            state["denominators"] = max(state["denominators"], len(CTX.nonzero))
        except (AssumptionFailed, Candidate, Inconclusive, Unsupported):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            info = "%s: %s" % (type(e).__name__, e)
            if os.environ.get("VERIF_DEBUG"):
                    traceback.print_exc()
            rs, model = CTX.check([], timeout=query_timeout, want_model=True)
            if rs == "unsat":
                raise AssumptionFailed()
            raise Candidate("exception", h._model_env(model) if model is not None else {}, dict(CTX.choices),
                            info + " at " + "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:]))
        finally:
            files.update(h.loader.files)
    ex = sc.Explorer(max_paths=max_paths, deadline=deadline)
    res = dict(status="ok")
    try:
        n = ex.run(one)
        res["paths"] = n
        if not state["reached"]:
            res["status"] = "vacuous"
    except Candidate as c:
        res.update(status="candidate", label=c.label, env=c.env, choices=c.choices, detail=c.detail)
    except Inconclusive as e:
        res.update(status="unsupported", detail=str(e))
    except Unsupported as e:
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        res.update(status="unsupported", detail=str(e))
    ti = sys.modules.get("lib.tfinterp")
    if ti is not None:
        funcs |= ti.FUNCTIONS
        ti.FUNCTIONS.clear()
    res["functions"] = sorted(funcs)
    res["files"] = files
    res["labels"] = sorted(state["labels"])
    res["completed_paths"] = state["reached"]
    res["denominators"] = state["denominators"]
    return res
