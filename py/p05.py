"""P05: the real pybind11 binding, on a stand-in interpreter, under ASan and UBSan."""
import ctypes
import gc
import os
import pickle
import random
import sys

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rep import REPO, Report, main, mock_module
from flatbuffers import flexbuffers

sys.path.insert(0, REPO)
LIB = os.environ["VERIF_BINDING"]
import importlib.util
for name in ("larq_compute_engine", "larq_compute_engine.tflite", "larq_compute_engine.tflite.python"):
    # Without running the top package, which imports all of TensorFlow.
    mock_module(name, __path__=[os.path.join(REPO, *name.split("."))])
lce_py = sys.modules["larq_compute_engine.tflite.python"]
spec = importlib.util.spec_from_file_location("interpreter_wrapper_lite", LIB)
ext = importlib.util.module_from_spec(spec)
spec.loader.exec_module(ext)
lce_py.interpreter_wrapper_lite = ext
sys.modules["larq_compute_engine.tflite.python.interpreter_wrapper_lite"] = ext
from larq_compute_engine.tflite.python.interpreter import Interpreter
get = ctypes.CDLL(LIB).verif_get
get.restype = ctypes.c_long
INVOKES, LIVE, THREADS, DELEGATES, DANGLING = range(5)

TYPES = {1: np.float32, 2: np.int32, 3: np.uint8, 4: np.int64, 6: np.bool_, 7: np.int16, 9: np.int8}
rep = Report()


def rand_array(r, t, shape):
    n = int(np.prod(shape, dtype=np.int64))
    dt = np.dtype(TYPES[t])
    if t == 6:
        return np.frombuffer(bytes(r.getrandbits(1) for _ in range(n)), np.bool_).reshape(shape).copy()
    return np.frombuffer(r.randbytes(n * dt.itemsize), dt).reshape(shape).copy()


class Tensor:
    def __init__(self, t, dims, quant=None, data=None):
        self.t, self.dims, self.quant, self.data = t, tuple(dims), quant, data

    def line(self):
        q = self.quant
        qs = "0 0 0" if q is None else "1 %d %s %d %s" % (len(q[0]), " ".join(repr(float(np.float32(s))) for s in q[0]), len(q[1]), " ".join(map(str, q[1])))
        return "tensor %d %d %d %s %s %s" % (self.t, self.data is not None, len(self.dims), " ".join(map(str, self.dims)), qs,
                                             self.data.tobytes().hex() or "-" if self.data is not None else "-")


def text(tensors, inputs, outputs, ops):
    o = ["VM1"] + [t.line() for t in tensors]
    o += ["input " + " ".join(map(str, inputs)), "output " + " ".join(map(str, outputs))]
    for name, i, u, opt in ops:
        o.append("op %s %d %s %d %s %s" % (name, len(i), " ".join(map(str, i)), len(u), " ".join(map(str, u)), opt.hex() or "-"))
    return ("\n".join(o) + "\n").encode()


def rand_quant(r, t, dims):
    k = r.randrange(4)
    if k < 2:
        return None
    sc = lambda: float(np.float32(r.choice([1.0, 0.5, r.uniform(1e-4, 4.0), 1e-20, 3e10])))
    if k == 2 or not dims or dims[-1] < 2:
        return ([sc()], [r.randint(-128, 255)])
    return ([sc() for _ in range(dims[-1])], [0] * dims[-1])


def rand_dims(r):
    return [r.choice([1, 1, 2, 3, 5, 0] if r.random() < .1 else [1, 1, 2, 3, 5]) for _ in range(r.choice([0, 1, 2, 3, 4, 4, 5]))]


def layout(r, a):
    """The same values in some other memory layout; the name of the layout."""
    k = r.randrange(11)
    if k == 0 or (a.ndim == 0 and k not in (7, 9)):
        return a, "c"
    if k == 1:
        return np.asfortranarray(a), "fortran"
    if k == 2:
        big = np.zeros(tuple(2 * d + 1 for d in a.shape), a.dtype)
        v = big[tuple(slice(0, 2 * d, 2) for d in a.shape)]
        v[...] = a
        return v, "strided"
    if k == 3:
        p = list(range(a.ndim))
        r.shuffle(p)
        return np.ascontiguousarray(a.transpose(p)).transpose(np.argsort(p)), "transposed"
    if k == 4:
        ax = r.randrange(a.ndim)
        return np.flip(np.flip(a, ax).copy(), ax), "negative"
    if k == 5:
        b = a.copy()
        b.flags.writeable = False
        return b, "readonly"
    if k == 6:
        buf = np.zeros(a.nbytes + 1, np.uint8)
        v = buf[1:1 + a.nbytes].view(a.dtype).reshape(a.shape)
        v[...] = a
        return v, "unaligned"
    if k == 7:
        return pickle.loads(pickle.dumps(a)), "unpickled"
    if k == 9:  # another type object with the same meaning
        return a.view(np.longlong if a.dtype == np.int64 else np.dtype(a.dtype, metadata={"a": 1})), "alias"
    if k == 10 and a.ndim:
        return memoryview(a), "memoryview"
    return a[...].view(type("Sub", (np.ndarray,), {})), "subclass"


class Ragged:
    def __array__(self, *a, **k):
        raise RuntimeError("no array")


def spoil(r, xs, shapes, types):
    """A list of inputs that is not acceptable, and what is wrong with it."""
    xs = list(xs)
    k = r.choice(["count-", "count+", "type", "rank+", "rank-", "dim", "swap", "ragged", "object", "none"])
    i = r.randrange(len(xs))
    a = xs[i]
    if k == "count-":
        del xs[i]
    elif k == "count+":
        xs.insert(i, a)
    elif k == "type":
        other = r.choice([d for d in [np.float32, np.int32, np.uint8, np.int64, np.bool_, np.int16, np.int8, np.float64, np.uint16, np.uint32,
                                      np.uint64, np.float16, np.complex64, "U3", "M8[s]"] if np.dtype(d) != a.dtype])
        xs[i] = np.zeros(a.shape, other)
    elif k == "rank+":
        xs[i] = a[..., None] if r.random() < .5 else a[None]
    elif k == "rank-":
        if a.ndim == 0:
            return spoil(r, xs, shapes, types)
        xs[i] = a.reshape(a.shape[1:]) if a.shape[0] == 1 else a.reshape(-1) if a.ndim > 1 else np.zeros((), a.dtype)
    elif k == "dim":
        if a.ndim == 0:
            return spoil(r, xs, shapes, types)
        s = list(a.shape)
        ax = r.randrange(a.ndim)
        s[ax] += r.choice([1, 2, -1]) if s[ax] else 1
        if s[ax] < 0:
            return spoil(r, xs, shapes, types)
        xs[i] = np.zeros(s, a.dtype)
    elif k == "swap":  # as many values, in another shape
        perm = tuple(reversed(a.shape))
        if perm == a.shape:
            return spoil(r, xs, shapes, types)
        xs[i] = a.reshape(perm)
    elif k == "ragged":
        xs[i] = [[1, 2], [3]]
    elif k == "object":
        xs[i] = r.choice([Ragged(), object(), {"a": 1}, "text"])
    else:
        xs[i] = None
    return xs, k


def new_interpreter(r, blob, **kw):
    it = Interpreter(blob, **kw)
    want = kw.get("num_threads", 1), int(kw.get("use_xnnpack", False))
    got = get(THREADS), get(DELEGATES)
    if got != want:
        rep.viol("flags:threads/xnnpack", "asked for threads, xnnpack %s, the interpreter was built with %s" % (want, got))
    rep.count("interpreters_built")
    return it


def random_model(r):
    n = r.randint(5, 14) if r.random() < .1 else r.randint(1, 4)
    types = [r.choice(list(TYPES)) for _ in range(n)]
    dims = [rand_dims(r) for _ in range(n)]
    tensors, ins, outs = [], [], []
    # A real model has many more tensors than its inputs and outputs.
    others = lambda: tensors.extend(Tensor(r.choice(list(TYPES)), [r.randint(1, 3)]) for _ in range(r.choice([1, 3, 20, 120])))
    crowded = r.random() < .2
    for t, d in zip(types, dims):
        if crowded and r.random() < .4:
            others()
        ins.append(len(tensors))
        tensors.append(Tensor(t, d, rand_quant(r, t, d)))
    order = list(range(n))
    r.shuffle(order)
    src = []
    if crowded:
        others()
    if r.random() < .2:
        order += [r.randrange(n)]  # one input goes out twice
        r.shuffle(order)
    for i in order[:r.randint(1, len(order))]:
        outs.append(len(tensors))
        src.append(i)
        tensors.append(Tensor(types[i], dims[i], rand_quant(r, types[i], dims[i])))
    ops = [("@copy", [ins[i] for i in src], list(outs), b"")]
    const = None
    if r.random() < .3:  # a constant that goes out as it is
        d = rand_dims(r)
        t = r.choice(list(TYPES))
        const = rand_array(r, t, d)
        tensors.append(Tensor(t, d, None, const))
        tensors.append(Tensor(t, d))
        ops.append(("@copy", [len(tensors) - 2], [len(tensors) - 1], b""))
        outs.append(len(tensors) - 1)
        src.append(-1)
    tensors.append(Tensor(4, []))
    ops.append(("@count", [], [len(tensors) - 1], b""))
    outs.append(len(tensors) - 1)
    src.append(-2)
    if r.random() < .15:  # one tensor is listed twice
        i = r.randrange(len(outs))
        outs.append(outs[i])
        src.append(src[i])
    if r.random() < .15:  # an input that is an output as well
        i = r.randrange(n)
        outs.append(ins[i])
        src.append(i)
        rep.count("inputs_that_are_outputs")
    if crowded:
        rep.count("crowded_models")
    if r.random() < .5:
        perm = list(range(len(outs)))
        r.shuffle(perm)
        outs, src = [outs[p] for p in perm], [src[p] for p in perm]
    return tensors, ins, outs, src, ops, const


def same(a, b):
    return isinstance(a, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == np.ascontiguousarray(b).tobytes()


def check_metadata(it, tensors, ids, which):
    ts = [tensors[i] for i in ids]
    got = [list(getattr(it, which + "_" + p)) for p in ("types", "shapes", "scales", "zero_points")]
    want = [[np.dtype(TYPES[t.t]) for t in ts], [t.dims for t in ts],
            [None if t.quant is None else float(np.float32(t.quant[0][0])) if len(t.quant[0]) == 1 else [float(np.float32(s)) for s in t.quant[0]] for t in ts],
            [None if t.quant is None else t.quant[1][0] for t in ts]]
    for p, g, w in zip(("types", "shapes", "scales", "zero_points"), got, want):
        rep.count("metadata_lists")
        if p == "types":
            g = [np.dtype(x) for x in g]
        if g != w:
            rep.viol("metadata:%s_%s" % (which, p), "%s_%s reported as %s, the model has %s" % (which, p, g, w))


def history(r):
    live0 = get(LIVE)
    its = []
    for _ in range(r.randint(1, 2)):
        m = random_model(r)
        blob = text(m[0], m[1], m[2], m[3 + 1])
        # The binding must not depend on the caller's bytes living on.
        raw = bytes(bytearray(blob))
        kw = {}
        if r.random() < .5:
            kw["num_threads"] = r.choice([-1, 1, 2, 7])
        if r.random() < .4:
            kw["use_xnnpack"] = r.random() < .5
        its.append((new_interpreter(r, raw, **kw), m))
        del raw, blob
        gc.collect()
    sig, kept = [], []
    for step in range(r.randint(2, 7)):
        it, (tensors, ins, outs, src, ops, const) = r.choice(its)
        xs = [rand_array(r, tensors[i].t, tensors[i].dims) for i in ins]
        if r.random() < .3:
            check_metadata(it, tensors, ins, "input")
            check_metadata(it, tensors, outs, "output")
        before = get(INVOKES)
        if r.random() < .4:
            bad, what = spoil(r, xs, None, None)
            sig.append("!" + what)
            try:
                it.interpreter.predict(bad)
                rep.viol("accepts:" + what, "predict accepted inputs with a wrong " + what)
            except Exception:
                pass
            if get(INVOKES) != before:
                rep.viol("computes:" + what, "the model was run although the inputs had a wrong " + what)
            rep.count("evaluations")
            rep.count("refused_" + what)
            continue
        if r.random() < .08 and any(a.dtype.itemsize > 1 for a in xs):
            # The other byte order may be refused, but not misread.
            try:
                out = it.interpreter.predict([a.astype(a.dtype.newbyteorder()) for a in xs])
                for g, s in zip(out, src):
                    if s >= 0 and not same(g, xs[s]):
                        rep.viol("byte order", "an array in the other byte order was misread")
            except Exception:
                if get(INVOKES) != before:
                    rep.viol("computes:byteorder", "the model was run although an input was refused")
            rep.count("byte_swapped")
            continue
        lay = [layout(r, a.copy()) for a in xs]
        sig += [n for _, n in lay]
        given = [a for a, _ in lay]
        try:
            out = it.interpreter.predict(given)
        except Exception as x:
            rep.viol("refuses:" + "/".join(sorted({n for _, n in lay} - {"c"})), "predict refused valid inputs laid out as %s: %s" % ([n for _, n in lay], x))
            continue
        rep.count("evaluations")
        for _, n in lay:
            rep.count("layout_" + n)
        if get(INVOKES) != before + 1:
            rep.viol("invocations", "one predict ran the model %d times" % (get(INVOKES) - before))
        want = []
        for s in src:
            want.append(const if s == -1 else np.array(before + 1, np.int64) if s == -2 else xs[s])
        if not isinstance(out, list) or len(out) != len(want):
            rep.viol("outputs", "predict returned %s instead of %d arrays" % (type(out), len(want)))
            continue
        for j, (g, w) in enumerate(zip(out, want)):
            if not same(g, w):
                rep.viol("values", "output %d of a copying model is not its input (layouts %s): %r instead of %r" % (j, [n for _, n in lay], g, w))
            rep.count("arrays_compared")
        for a, x in zip(given, xs):
            if not same(np.array(a, copy=True, order="C"), x):
                rep.viol("inputs modified", "predict modified its input")
            if isinstance(a, np.ndarray) and a.flags.writeable and a.ndim and r.random() < .5:
                a[...] = 0  # the caller may reuse its array
        kept.append((out, want))
        if r.random() < .3 and kept:
            o, w = r.choice(kept)
            i = r.randrange(len(o))
            if not o[i].flags.writeable:
                continue
            o[i][...] = 0  # the caller owns what it got
            w[i] = o[i].copy()
    if r.random() < .5:
        for it, m in its:
            check_metadata(it, m[0], m[1], "input")
            check_metadata(it, m[0], m[2], "output")
    if r.random() < .6:
        it = None
        its.clear()
        gc.collect()
        if get(LIVE) != live0:
            rep.viol("leak", "%d interpreters alive after they were dropped" % (get(LIVE) - live0))
        rep.count("dropped_interpreters")
    for out, want in kept:
        for g, w in zip(out, want):
            if not same(g, w):
                rep.viol("aliasing", "a returned array changed after later calls")
            rep.count("kept_arrays_compared")
    rep.sig(sig)
    if get(DANGLING):
        rep.viol("dangling", "the model buffer was gone while the interpreter ran")
    return sig


def conv_options(cin, padding, pad_value):
    b = flexbuffers.Builder()
    with b.Map():
        for k, v in (("channels_in", cin), ("dilation_height_factor", 1), ("dilation_width_factor", 1), ("fused_activation_function", 0),
                     ("pad_values", pad_value), ("padding", padding), ("stride_height", 1), ("stride_width", 1)):
            b.Key(k)
            b.Int(v)
    return bytes(b.Finish())


def conv_model(r, grouped):
    words = 2 if grouped else 1
    w = np.frombuffer(r.randbytes(4 * 2), np.int32).reshape(2, 1, 1, 1)
    t = [Tensor(2, (1, 2, 2, words)), Tensor(2, (2, 1, 1, 1), None, w), Tensor(1, (2,), None, np.ones(2, np.float32)),
         Tensor(1, (2,), None, np.zeros(2, np.float32)), Tensor(9 if not grouped else 1, (1, 2, 2, 2), ([1.0], [0]) if not grouped else None)]
    opt = conv_options(32 * words, 1 if grouped else 0, 1 if grouped else 0)
    return w, text(t, [0], [4], [("LceBconv2d", [0, 1, 2, 3, -1], [4], opt)])


def flags(r):
    """Which kernel an interpreter uses shows in the models it accepts."""
    ref, ind, xnn = (r.choice([None, False, True]) for _ in range(3))
    kw = {k: v for k, v in (("use_reference_bconv", ref), ("use_indirect_bgemm", ind), ("use_xnnpack", xnn)) if v is not None}
    threads = r.choice([None, 1, 3])
    if threads is not None:
        kw["num_threads"] = threads
    want = "reference" if ref else "indirect" if ind else "bgemm"
    ok = {}
    for grouped in (True, False):
        w, blob = conv_model(r, grouped)
        pos = r.random() < .3
        try:
            if pos:
                it = Interpreter(blob, threads or 1, bool(ref), bool(ind), bool(xnn))
            else:
                it = new_interpreter(r, blob, **kw)
            ok[grouped] = True
        except RuntimeError:
            ok[grouped] = False
            continue
        x = np.frombuffer(r.randbytes(16 * (2 if grouped else 1)), np.int32).reshape(1, 2, 2, -1)
        y = it.interpreter.predict([x])[0]
        for p in range(4):
            for c in range(2):
                word = int(x[0, p // 2, p % 2, c if grouped else 0]) ^ int(w[c, 0, 0, 0])
                v = 32 - 2 * bin(word & 0xFFFFFFFF).count("1")
                if y[0, p // 2, p % 2, c] != v:
                    rep.viol("convolution", "the convolution gives %r instead of %d" % (y[0, p // 2, p % 2, c], v))
    got = {(True, True): "reference", (True, False): "indirect", (False, False): "bgemm"}.get((ok[True], ok[False]), "none")
    if got != want:
        rep.viol("flags:kernel", "Interpreter(%s) uses the %s kernel instead of %s" % (kw, got, want))
    rep.count("evaluations")
    rep.count("kernel_" + want)
    rep.sig(("flags", kw))
    return kw


def failures(r):
    """Models that cannot be built or run: an exception, and life goes on."""
    before = get(INVOKES)
    k = r.randrange(4)
    t = [Tensor(1, (2,)), Tensor(1, (2,))]
    blob = [b"rubbish", b"", text(t, [0], [1], [("NoSuchOperator", [0], [1], b"")]), text(t, [0], [1], [("@fail", [0], [1], b"")])][k]
    try:
        it = Interpreter(blob)
        if k == 3:
            it.interpreter.predict([np.zeros(2, np.float32)])
        rep.viol("accepts:model%d" % k, "a model that cannot be %s gave no error" % ("run" if k == 3 else "built"))
    except Exception:
        pass
    rep.count("evaluations")
    rep.count("failing_models")
    return k


def case(seed, k):
    r = random.Random(seed * 1000003 + k)
    what = (flags if k % 8 == 3 else failures if k % 16 == 5 else history)(r)
    if k < 6:
        rep.sample(what)


main(case, rep)
