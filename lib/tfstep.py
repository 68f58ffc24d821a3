"""Symbolic evaluation of one training step: the model's train_step, traced by TensorFlow from the
current sources, with every weight and every data value replaced by a symbol.

The model is built with distinct numeric values; wherever one of these values occurs in the graph
(captured tensors, constants, variables) it stands for the symbol it was assigned to.  The optimizer's
apply_gradients is replaced by a recorder; weights read after it (in program order) are new symbols."""
from __future__ import annotations
import numpy as np
import tensorflow as tf
from . import symcore as sc
from . import symnumpy as sn
from . import tfinterp as ti
from .symcore import Sym, Unsupported


class Values:
    """distinct numbers standing for symbols"""

    def __init__(self, seed, bits):
        self.rng = np.random.RandomState(seed)
        self.map = {}
        self.ids = {}
        self.bits = bits

    def take(self, sym, positive=False):
        """numeric array for an array of symbols"""
        a = sn.sarr(sym)
        out = np.empty(a.shape)
        f = out.reshape(-1)
        for i, s in enumerate(a.view(np.ndarray).reshape(-1)):
            if not isinstance(s, Sym):
                f[i] = float(s)
                continue
            if id(s) in self.ids:
                f[i] = self.ids[id(s)]          # the same number wherever the same symbol is given
                continue
            while True:
                v = self.rng.uniform(0.05, 0.95) * (1 if positive or self.rng.rand() < 0.5 else -1)
                v = float(np.round(v * 2 ** self.bits) / 2 ** self.bits)
                if v not in self.map and -v not in self.map:
                    break
            self.map[v] = s
            self.ids[id(s)] = v
            f[i] = v
        return f.reshape(a.shape) if a.shape else np.asarray(f[0])


def raw(fn_owner, name):
    """the python function behind a (possibly tf.function-decorated) method"""
    for k in type(fn_owner).__mro__:
        if name in k.__dict__:
            f = k.__dict__[name]
            return getattr(f, "python_function", f)
    raise AttributeError(name)


CUT = 100000        # the unchanged models stay below 35000 terms


TAG = "verif_update"
ASSIGN = ("AssignVariableOp", "AssignAddVariableOp", "AssignSubVariableOp")


def subfunctions(g, o):
    for a in ("f", "then_branch", "else_branch", "cond", "body"):
        f = ti.attr(o, a)
        if f is not None and hasattr(f, "name"):
            yield f.name
    for f in ti.attr(o, "branches") or []:
        yield f.name


def all_ops(g):
    for o in g.get_operations():
        yield o
        for n in subfunctions(g, o):
            yield from all_ops(ti.function_graph(g, n, o.graph))


def in_order(g):
    """does the step branch or write variables of its own (then its ops are run in program order)"""
    return any(o.type in ti.CONTROL or o.type in ASSIGN for o in all_ops(g))


def written_handles(g, handles=None):
    """the captured resources the graph, or a function it calls, assigns to"""
    handles = {i.name: e for e, i in g.captures} if handles is None else handles
    for o in g.get_operations():
        if o.type in ASSIGN and o.inputs[0].name in handles:
            yield handles[o.inputs[0].name]
        for n in subfunctions(g, o):
            sub = ti.function_graph(g, n, o.graph)
            ins = list(o.inputs)[1:] if o.type in ("If", "StatelessIf", "Case", "StatelessCase") else list(o.inputs)
            yield from written_handles(sub, {t.name: handles[i.name] for t, i in zip(sub.inputs, ins) if i.name in handles})


def extra_variables(fn, specs, known):
    """further variables a step writes to, in the order trace() numbers them"""
    g = tf.function(fn).get_concrete_function(*specs).graph
    if not in_order(g):
        return []
    written = list(written_handles(g))
    return [[v for v in g.variables if v.handle is e][0] for e, _ in g.captures
            if any(e is w for w in written) and not any(k.handle is e for k in known)]


def trace(values, variables, fn, args=(), rounding=True, state=None):
    """run fn(*placeholders) under tf.function and interpret it.

    variables: list of (tf.Variable, [symbols before, after the first update, ...]); args: list of (spec, symbols).
    state(i, var): the arbitrary initial value of the i-th further variable the step writes to.
    Returns (structure of results with SymArrays, recorded calls [[(grad array|None, var)]])"""
    calls = []

    def rec(gv, *a, **k):
        g = tf.compat.v1.get_default_graph()
        gv = [(tf.convert_to_tensor(x) if isinstance(x, tf.IndexedSlices) else x, v) for x, v in gv]
        n = len(calls)
        for i, (x, _) in enumerate(gv):
            if x is not None:
                tf.identity(x, name="%s_grad_%d_%d" % (TAG, n, i))
        tf.identity(tf.constant(0), name="%s_done_%d" % (TAG, n))
        calls.append((g, gv, len(g.get_operations())))
    specs = [s for s, _ in args]

    def wrapped(*a):
        return fn(rec, *a)
    cf = tf.function(wrapped).get_concrete_function(*specs)
    g = cf.graph
    feeds = {}
    ins = list(g.inputs)
    n_cap = len(g.captures)
    user = ins[:len(ins) - n_cap]
    if len(user) != len(args):
        raise Unsupported("graph signature")
    for t, (_, s) in zip(user, args):
        feeds[t.name] = sn.sarr(s)
    ordered = in_order(g)
    written = list(written_handles(g)) if ordered else []
    n_state, handles = 0, []
    for ext, inner in g.captures:
        hit = [x for x in variables if x[0].handle is ext]
        if hit:
            handles.append(ti.Handle(*[sn.sarr(x) for x in hit[0][1]]))
            feeds[inner.name] = handles[-1]
        elif ext.dtype == tf.resource:
            var = [v for v in g.variables if v.handle is ext]
            if not var:
                raise Unsupported("unknown variable in the training step")
            if any(ext is w for w in written):
                if state is None:
                    raise Unsupported("variable updated outside the optimizer")
                feeds[inner.name] = ti.Cell(state(n_state, var[0]))
                n_state += 1
                continue
            feeds[inner.name] = ti.Handle(var[0].numpy())
        else:
            feeds[inner.name] = ext.numpy()
    it = (ti.Recording if ordered else ti.Interp)(g, feeds, values.map, rounding=rounding)
    if ordered:
        it.tag = TAG
        sc.CUT = CUT
        try:
            it.run_all()
        finally:
            sc.CUT = None
    else:
        for cg, _, pos in calls:
            it.update_at(pos)

    def ev(x):
        if x is None:
            return None
        if isinstance(x, tf.IndexedSlices):
            x = tf.convert_to_tensor(x)
        v = it.get(x)
        return sn.sarr(v)
    it_out = iter(g.outputs)

    def fill(x):
        # structured outputs list the same tensors as graph.outputs, in nest order
        return tf.nest.map_structure(lambda t: ev(next(it_out)) if isinstance(t, (tf.Tensor, tf.TensorSpec)) else t, x)
    dtypes = tf.nest.map_structure(lambda t: getattr(t, "dtype", None), plain(cf.structured_outputs))
    sc.CUT = CUT
    try:
        res = fill(plain(cf.structured_outputs))
        if ordered:
            recorded = [[(sn.sarr(vals[i]) if i in vals else None, v) for i, (_, v) in enumerate(calls[n][1])] for n, vals in it.log]
            calls = [calls[n] for n, _ in it.log]
        else:
            recorded = [[(ev(gr), v) for gr, v in c[1]] for c in calls]
    finally:
        sc.CUT = None
    gd = [[None if gr is None else gr.dtype.name for gr, _ in c[1]] for c in calls]
    return res, recorded, dict(dtypes=dtypes, grad_dtypes=gd, ops=len(g.get_operations()),
                               written=[w for hd in handles for w in hd.written])


def apply(fn, state, args, const_map, int_map, rounding=False):
    """run fn(*placeholders) once, from the given variable values [(tf.Variable, symbols)], and
    return the values of all its variables afterwards"""
    cf = tf.function(fn).get_concrete_function(*[s for s, _ in args])
    g = cf.graph
    ins = list(g.inputs)
    user = ins[:len(ins) - len(g.captures)]
    if len(user) != len(args):
        raise Unsupported("graph signature")
    feeds = {t.name: sn.sarr(s) for t, (_, s) in zip(user, args)}
    cells = {}
    for ext, inner in g.captures:
        if ext.dtype != tf.resource:
            feeds[inner.name] = ext.numpy()
            continue
        hit = [s for v, s in state if v.handle is ext]
        if hit:
            c = ti.Cell(sn.sarr(hit[0]))
        else:
            var = [v for v in g.variables if v.handle is ext]
            if not var:
                raise Unsupported("unknown variable")
            c = ti.Cell(var[0].numpy())
            c.plain = True
        feeds[inner.name] = cells[id(ext)] = c
    it = ti.Stateful(g, feeds, const_map, rounding=rounding)
    it.int_map = int_map
    for c in cells.values():
        if getattr(c, "plain", False):
            c.value = it.const(c.value)
    it.run_all()
    return [cells[id(v.handle)].value if id(v.handle) in cells else s for v, s in state]


def plain(x):
    """tracked containers as plain ones"""
    if hasattr(x, "items"):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)) and not isinstance(x, tf.TensorShape):
        return [plain(v) for v in x]
    return x

