"""coefficient dictionaries"""
from .fes import *

INFO = dict(
    bounds="dictionaries of 0..4 keys with arbitrary real scalar values, integer values, lists and arrays of up to 4 arbitrary numbers; float64 and float32; also 40 keys of mixed kinds and 70 scalars",
    assumptions=["TF_GRAPH: tensor operations are interpreted from the graph TensorFlow traces"],
    jobs=4, concrete=5)

KEYS = ["eps", "b_x", "b_y", "c", "k", "alpha beta"]


def configs(tier):
    out = [dict(kinds=k, dtype=d) for d in ("float64", "float32")
           for k in ("", "s", "ss", "sivs", "vm", "ssss", "im")]
    out += [dict(kinds="svism" * 8, dtype="float64"), dict(kinds="s" * 70, dtype="float32")]
    if tier != "quick":
        out += [dict(kinds=k, dtype=d) for d in ("float64", "float32") for k in ("ssssss", "vmivsm")]
    return out


def body(h, kinds, dtype):
    import tensorflow as tf
    S = space(h, h.array([[[0, 0], [1, 0], [1, 1], [0, 1]]]), "affine", forcing=h.fn("f"))
    D = h.module("data.datahandler2d").DataHandler2D(S, None, dtype=tf.as_dtype(dtype))

    def make():
        out = {}
        for i, k in enumerate(kinds):
            n = "p%d" % i
            out[KEYS[i] if i < len(KEYS) else "key%d" % (i * 37 % 100)] = {"s": lambda: h.real(n, -1e3, 1e3), "i": lambda: 3 + i, "v": lambda: h.reals(n, (3,)),
                            "m": lambda: h.reals(n, (2, 2))}[k]()
        return out
    want = make()
    D2 = h.module("data.datahandler2d").DataHandler2D(S, None, dtype=tf.as_dtype("float32" if dtype == "float64" else "float64"))
    for meth in ("get_bilinear_params_dict_as_tensors", "get_inverse_params"):
        # the user's function may return one shared dictionary every time
        shared = dict(want)
        fn = lambda: shared
        for rnd in (0, 1):
            if rnd:
                check(h, getattr(D2, meth)(fn), want, "float32" if dtype == "float64" else "float64")
            check(h, getattr(D, meth)(fn), want, dtype)
            h.true("caller's-dictionary-kept", list(shared) == list(want) and all(shared[k] is want[k] for k in want),
                   "%s changes the dictionary the user's function returned" % meth)


def check(h, got, want, dtype):
    h.true("keys", list(got.keys()) == list(want.keys()) or sorted(got) == sorted(want), "keys %s instead of %s" % (sorted(got), sorted(want)))
    for k in want:
        h.true("dtype", h.dtype_name(got[k]) == dtype, "%s is %s" % (k, h.dtype_name(got[k])))
        w = h.array(want[k])
        h.true("shape", tuple(got[k].shape) == tuple(w.shape), "%s has shape %s" % (k, tuple(got[k].shape)))
        h.eq("value", h.npy(got[k]).reshape(-1), h.cast(w, dtype).reshape(-1),
             **({} if h.symbolic else dict(tol=(1e-14 if dtype == "float64" else 1e-6) * (1e-300 + float(np.max(np.abs(w)))))))
