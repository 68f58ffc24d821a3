"""the `tensorflow` module seen by symbolically executed code: real tensorflow on concrete values,
graph tracing plus symbolic interpretation (tfinterp) as soon as an argument is symbolic"""
from __future__ import annotations
import importlib, sys, types


class _Lazy(types.ModuleType):
    def __init__(self, path):
        super().__init__(path)
        self.__dict__["_p"] = path
        self.__dict__["__path__"] = []
        self.__dict__["_c"] = {}

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        c = self.__dict__["_c"]
        if n in c:
            return c[n]
        import tensorflow as tf
        from . import tfinterp as ti
        path = self.__dict__["_p"]
        obj = tf
        for part in path.split(".")[1:]:
            obj = getattr(obj, part)
        full = path + "." + n
        if full in ("tensorflow.constant", "tensorflow.convert_to_tensor"):
            real = getattr(tf, n)

            def r(value, dtype=None, *a, **k):
                if ti.symbolic_arg(value):
                    return ti.sym_constant(value, dtype, k.get("shape"))
                return real(value, dtype, *a, **k)
        elif full == "tensorflow.Tensor":
            r = _TensorProxy
        elif full == "tensorflow.function":
            r = _function
        elif full == "tensorflow.is_tensor":
            r = lambda x: isinstance(x, ti.SymTensor) or tf.is_tensor(x)
        else:
            v = getattr(obj, n)
            if isinstance(v, types.ModuleType) or type(v).__name__ in ("KerasLazyLoader", "_LazyLoader", "LazyLoader"):
                r = _Lazy(full)
            elif callable(v) and not isinstance(v, type):
                r = _wrap(v)
            else:
                r = v
        c[n] = r
        return r


def _wrap(v):
    def f(*a, **k):
        from . import tfinterp as ti
        if ti.symbolic_arg(a) or ti.symbolic_arg(k):
            return ti.trace(v, *a, **k)
        return v(*a, **k)
    f.__name__ = getattr(v, "__name__", "tf_function")
    f._real = v
    import tensorflow as tf
    return tf.autograph.experimental.do_not_convert(f)


class _Function:
    """tf.function: the real one, traced as a whole and interpreted when an argument is symbolic"""

    def __init__(self, fn, **kw):
        import tensorflow as tf
        self._real = tf.function(fn, **kw)
        self.python_function = fn
        self.__name__ = getattr(fn, "__name__", "tf_function")
        self.__doc__ = fn.__doc__

    def __call__(self, *a, **k):
        from . import tfinterp as ti
        if ti.symbolic_arg(a) or ti.symbolic_arg(k):
            ti.note_function(self.python_function)
            return ti.trace(self._real, *a, **k)
        return self._real(*a, **k)

    def __get__(self, obj, cls=None):
        import functools
        return self if obj is None else functools.partial(self.__call__, obj)

    def __getattr__(self, n):
        return getattr(self._real, n)


def _function(fn=None, **kw):
    if fn is None:
        return lambda f: _Function(f, **kw)
    return _Function(fn, **kw)


class _TM(type):
    def __instancecheck__(cls, x):
        import tensorflow as tf
        from . import tfinterp as ti
        return isinstance(x, (tf.Tensor, ti.SymTensor))


class _TensorProxy(metaclass=_TM):
    pass


def tf_proxy():
    return _Lazy("tensorflow")
