"""P03: the real Python converters on a recording back end that executes what it is handed."""
import os
import random
import re
import shutil
import sys
import tempfile
import warnings

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rep import REPO, Report, main, mock_module

sys.path.insert(0, "/opt/lce/venv/lib/python3.12/site-packages")
import tensorflow as tf
from tensorflow.lite.python import schema_py_generated as S
from tensorflow.core.protobuf import saved_model_pb2

for name in ("larq_compute_engine", "larq_compute_engine.mlir", "larq_compute_engine.mlir.python"):
    mock_module(name, __path__=[os.path.join(REPO, *name.split("."))])
sys.modules["larq_compute_engine.mlir.python.tflite_schema"] = S
sys.modules["larq_compute_engine.mlir.python"].tflite_schema = S

tf.get_logger().setLevel("ERROR")
SCRATCH = tempfile.mkdtemp(prefix="verif_p03_", dir=os.getcwd())
TEMP = os.path.join(SCRATCH, "tmp")
os.mkdir(TEMP)
tempfile.tempdir = TEMP
rep = Report()


class Fault(RuntimeError):
    pass


class Backend:
    """What the converters call. Keeps a copy of what it was given."""

    def __init__(self):
        self.reset()

    def reset(self, result=b"", fail=(), check=None):
        self.calls, self.result, self.fail, self.check, self.problems = [], result, set(fail), check, []

    def saved(self, *a, **k):
        self.calls.append(("saved", a, k))
        if "interrupt" in self.fail:
            raise KeyboardInterrupt
        if "saved" in self.fail:
            raise Fault("no")
        if self.check:
            self.check("saved", a, self.problems)
        return self.result

    def graph(self, *a, **k):
        self.calls.append(("graph", a, k))
        if "graph" in self.fail:
            raise Fault("no")
        if self.check:
            self.check("graph", a, self.problems)
        return self.result


be = Backend()
mock_module("larq_compute_engine.mlir._tf_tfl_flatbuffer", convert_graphdef_to_tflite_flatbuffer=lambda *a, **k: be.graph(*a, **k),
            convert_saved_model_to_tflite_flatbuffer=lambda *a, **k: be.saved(*a, **k))
from larq_compute_engine.mlir.python import converter

K = tf.keras
F32, I8 = tf.float32, tf.int8


# -------------------------------------------------------------- flatbuffers
def flatbuffer(r, quantized):
    """A model with quantized or float tensors between float inputs and outputs."""
    m, g = S.ModelT(), S.SubGraphT()
    m.version, m.buffers, m.description = 3, [S.BufferT()], "x"
    g.tensors, g.operators, g.inputs, g.outputs, g.name = [], [], [], [], "main"
    m.operatorCodes = []
    for b in (S.BuiltinOperator.QUANTIZE, S.BuiltinOperator.DEQUANTIZE, S.BuiltinOperator.RELU):
        if quantized or b == S.BuiltinOperator.RELU:
            c = S.OperatorCodeT()
            c.builtinCode = c.deprecatedBuiltinCode = b
            m.operatorCodes.append(c)

    def tensor(t):
        x = S.TensorT()
        x.type, x.shape, x.buffer, x.name = t, [1, 4], 0, "t%d" % len(g.tensors)
        g.tensors.append(x)
        return len(g.tensors) - 1

    def op(code, i, o):
        x = S.OperatorT()
        x.opcodeIndex, x.inputs, x.outputs = code, [i], [o]
        g.operators.append(x)
        return o

    T = S.TensorType
    for _ in range(r.choice([1, 1, 2, 3])):
        i = tensor(T.FLOAT32)
        g.inputs.append(i)
        if quantized:
            i = op(0, i, tensor(T.INT8))
            i = op(2, i, tensor(T.INT8))
            i = op(1, i, tensor(T.FLOAT32))
        else:
            i = op(0, i, tensor(T.FLOAT32))
        g.outputs.append(i)
    m.subgraphs, m.signatureDefs, m.metadata = [g], [], []
    import flatbuffers
    b = flatbuffers.Builder(256)
    b.Finish(m.Pack(b), file_identifier=b"TFL3")
    return bytes(b.Output())


def io_types(buf):
    m = S.ModelT.InitFromObj(S.Model.GetRootAsModel(buf, 0))
    g = m.subgraphs[0]
    return [g.tensors[i].type for i in g.inputs], [g.tensors[i].type for i in g.outputs], len(g.operators)


# ------------------------------------------------------------------- models
class Fake(K.layers.Layer):
    def __init__(self, kind, where, **k):
        super().__init__(**k)
        self.kind, self.where = kind, where

    def get_config(self):
        return dict(super().get_config(), kind=self.kind, where=self.where)

    def quant(self, x):
        if self.kind == "vars":
            return tf.quantization.fake_quant_with_min_max_vars(x, -3., 3.)
        if self.kind == "args":
            return tf.quantization.fake_quant_with_min_max_args(x, -3., 3.)
        if self.kind == "channel":
            return tf.quantization.fake_quant_with_min_max_vars_per_channel(x, [-3.] * x.shape[-1], [3.] * x.shape[-1])
        if self.kind == "qdq2":
            return tf.raw_ops.QuantizeAndDequantizeV2(input=x, input_min=-3., input_max=3., range_given=True)
        if self.kind == "qdq3":
            return tf.raw_ops.QuantizeAndDequantizeV3(input=x, input_min=-3., input_max=3., num_bits=8, range_given=True)
        return x * 1.5

    def call(self, x):
        if self.where == "cond":
            return tf.cond(tf.reduce_sum(x) > 1e6, lambda: x, lambda: self.quant(x))
        if self.where == "while":
            return tf.while_loop(lambda i, y: i < 1, lambda i, y: [i + 1, self.quant(y)], [0, x])[1]
        return self.quant(x)


class Sub(K.Model):
    def __init__(self, layers, graph, unsavable):
        super().__init__()
        self.seq, self.unsavable = layers, unsavable
        if graph:
            self.call = tf.function(self.call)

    def call(self, x):
        for l in self.seq:
            x = l(x)
        return x

    def save(self, *a, **k):
        if self.unsavable:
            raise ValueError("this model cannot be saved")
        return super().save(*a, **k)


class FnModel(K.Model):
    def __init__(self, layers, shape):
        super().__init__()
        self.seq = layers

    @tf.function
    def call(self, x):
        for l in self.seq:
            x = l(x)
        return x


FAKES = ["vars", "args", "channel", "qdq2", "qdq3"]


class Built:
    pass


def layer(r, b, rank, in_lib):
    k = r.randint(0, 6)
    if k == 0 and rank == 3:
        return K.layers.Conv2D(r.randint(1, 4), r.choice([1, 3]), padding="same")
    if k == 1 and rank == 3 and b.larq:
        import larq as lq
        b.quantizers = True
        return lq.layers.QuantConv2D(r.choice([3, 8]), 3, padding="same", pad_values=r.choice([0, 1]), input_quantizer="ste_sign", kernel_quantizer="ste_sign",
                                     kernel_constraint="weight_clip")
    if k == 2:
        return K.layers.BatchNormalization()
    if k == 3:
        kind, where = r.choice(FAKES + [None, None]), r.choice(["plain", "cond", "while"])
        if kind:
            b.fake = True
            rep.count("quantizers_" + where)
            if where != "plain":
                rep.count("quantizers_in_functions")
        return Fake(kind, where)
    if k == 4:
        return K.layers.Dense(r.randint(1, 5), activation=r.choice([None, "relu", "tanh"]))
    return K.layers.ReLU()


def build(r):
    """A random model with the batch sizes and shapes it was declared with."""
    b = Built()
    b.fake = b.quantizers = b.dynamic = b.unsavable = b.any_batch = False
    b.larq = r.random() < .5
    b.kind = r.choice(["functional"] * 4 + ["sequential", "subclassed", "subclassed", "tf.function"])
    b.batch = r.choice([None, None, 1, 5])
    b.shapes, b.dtypes = [], []

    def shape(ranks=(1, 3, 3)):
        rank = r.choice(ranks)
        return [r.randint(3, 5) for _ in range(rank - 1)] + [r.randint(1, 4)] * (rank > 0)

    if b.kind == "functional":
        xs, ys = [], []
        names = r.sample(["zebra", "apple", "in_put", "m", "b", "a", "x.1"], 3)
        for i in range(r.choice([1, 1, 2, 3])):
            s = shape((0, 1, 2, 3, 3, 3))
            open_at = -1
            if r.random() < .15 and len(s) > 1:
                open_at = r.randrange(len(s))
                s[open_at] = None
                b.dynamic = True
            dt = r.choice(["float32"] * 5 + ["int32", "bool"])
            b.shapes.append([b.batch] + s)
            b.dtypes.append(dt)
            x = K.Input(s, batch_size=b.batch, dtype=dt, name=names[i] if r.random() < .8 else None)
            xs.append(x)
            y = x if dt == "float32" else tf.cast(x, tf.float32)
            if not s:
                y = K.layers.Reshape((1,))(y)
            for _ in range(r.randint(1, 3)):
                y = (K.layers.ReLU() if open_at == len(s) - 1 >= 0 else layer(r, b, len(s), False))(y)
            if r.random() < .5 and open_at < 0:
                y = K.layers.Flatten()(y)
            elif len(s) == 3 and open_at in (0, 1):
                y = K.layers.GlobalAveragePooling2D()(y)
            ys.append(y)
        if len(ys) > 1 and r.random() < .3:
            ys = [K.layers.Concatenate()([K.layers.GlobalMaxPooling2D()(y) if len(y.shape) == 4 else K.layers.GlobalMaxPooling1D()(y) if len(y.shape) == 3 else y for y in ys])] + ys[:1]
        p = r.random()
        r.shuffle(ys)
        b.model = K.Model(xs if len(xs) > 1 or p < .2 else xs[0],
                          dict(zip(["q", "k", "z"], ys)) if r.random() < .2 else ys if len(ys) > 1 or p < .2 else ys[0])
    else:
        s = shape()
        b.shapes, b.dtypes = [[b.batch] + s], ["float32"]
        layers = [layer(r, b, len(s), False) for _ in range(r.randint(1, 3))]
        if b.kind == "sequential":
            b.model = K.Sequential([K.layers.InputLayer(s, batch_size=b.batch)] + layers)
        elif b.kind == "tf.function":
            b.model = FnModel(layers, None)
            b.model(tf.zeros([b.batch or 2] + s))
            b.any_batch = b.batch or 2  # TensorFlow may forget the batch size of a model whose call is a tf.function
        else:
            b.unsavable = r.random() < .5
            b.batch = b.batch or 2  # the batch it has been called with
            b.shapes = [[b.batch] + s]
            b.model = Sub(layers, False, b.unsavable)
            if b.batch:
                b.model.build([b.batch] + s)
            b.model(tf.zeros([b.batch or 2] + s)) if r.random() < .5 or not b.batch else None
            b.model._set_save_spec(tf.TensorSpec([b.batch] + s)) if b.model._saved_model_inputs_spec is None else None
    return b


def samples(r, b, one):
    out = []
    for s, d in zip(b.shapes, b.dtypes):
        s = [1 if i == 0 and x is None and one else 3 if i == 0 and x is None else 4 if x is None else x for i, x in enumerate(s)]
        g = np.random.RandomState(r.randint(0, 1 << 30))
        out.append((g.rand(*s) > .5) if d == "bool" else g.randint(-3, 4, s).astype(d) if d == "int32" else g.uniform(-2, 2, s).astype("float32"))
    return out


def same(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and np.allclose(a, b, rtol=1e-3, atol=1e-4)


def run_model(b, xs):
    y = b.model(xs if len(xs) > 1 or isinstance(b.model.input if b.kind == "functional" else None, list) else xs[0], training=False)
    return [np.array(t) for t in tf.nest.flatten(y)]


def executor(b, r):
    """Runs what the back end is given and compares with the model itself."""
    xs = samples(r, b, True)
    want = run_model(b, xs)

    def check(route, a, problems):
        if route == "saved":
            m = tf.saved_model.load(a[0], tags=a[1])
            f = m.signatures[a[2][0]]
            spec = f.structured_input_signature[1]
            # a saved signature is called by input names: match them with the inputs of the model
            if b.kind == "functional":
                names = [re.sub(r"\W", "_", n) for n in b.model.input_names]
            else:
                names = list(spec)
            if sorted(names) != sorted(spec):
                problems.append("the signature has inputs %r, the model %r" % (sorted(spec), names))
                return
            got = [np.array(v) for v in f(**{n: tf.constant(x) for n, x in zip(names, xs)}).values()]
            left = list(want)
            for g in got:
                i = next((i for i, w in enumerate(left) if same(g, w)), None)
                if i is None:
                    problems.append("an output of the saved model is not one of the model's")
                    return
                del left[i]
            if left and not any(same(l, g) for l in left for g in got):
                problems.append("the saved model lacks an output")
            rep.count("saved_models_executed")
            return
        g = tf.compat.v1.GraphDef()
        g.ParseFromString(a[0])

        def fn(*args):
            out = [n if ":" in n else n + ":0" for n in a[4]]
            ins = {n.split(":")[0] + ":0" if ":" not in n else n: v for n, v in zip(a[1], args)}
            return tf.graph_util.import_graph_def(g, input_map=ins, return_elements=out)

        specs = [tf.TensorSpec(x.shape, x.dtype) for x in xs]
        got = [np.array(v) for v in tf.compat.v1.wrap_function(fn, specs)(*[tf.constant(x) for x in xs])]
        # TensorFlow sorts the outputs of a traced model by name
        if len(got) > len(want) or not all(any(same(x, y) for y in want) for x in got) or not all(any(same(x, y) for x in got) for y in want):
            problems.append("the graph computes something else, or its inputs are in another order")
        rep.count("graphs_executed")
        if any(n.op in ("ReadVariableOp", "VarHandleOp") for n in g.node):
            problems.append("the graph has variables left")

    return check, xs, want


# -------------------------------------------------------------------- cases
GOOD = [F32, F32, I8]
LOOSE = ["int8", np.int8, np.float32, "float32"]
BAD = [tf.uint8, None, tf.int16, tf.float16, 8, "int4", tf.int32, tf.bfloat16, tf.qint8]


def options(r, damaged):
    """Keyword arguments, what they ask for and whether they are valid."""
    kw, verdict = {}, True
    want = {}
    for k in ("inference_input_type", "inference_output_type"):
        if r.random() < .7:
            kw[k] = r.choice(GOOD)
        want[k] = kw.get(k, F32)
    if r.random() < .7:
        kw["target"] = r.choice(["arm", "xcore"])
    if r.random() < .4:
        kw["experimental_default_int8_range"] = r.choice([(-6.0, 6.0), (0, 3), (-128, 127.5), (0.0, 0.0), None])
    if damaged:
        k = r.choice(["inference_input_type", "inference_output_type", "target"])
        verdict = False
        kw[k] = r.choice(["ARM", "", None, "arm64", b"arm", ["arm"], 1, "xcore ", ("arm", "xcore")]) if k == "target" else r.choice(BAD)
    elif r.random() < .1:
        k = r.choice(["inference_input_type", "inference_output_type"])
        kw[k] = r.choice(LOOSE)
        want[k] = tf.as_dtype(kw[k])
        verdict = None
    return kw, want["inference_input_type"], want["inference_output_type"], verdict


def leftovers():
    left = [f for f in os.listdir(TEMP) if not f.startswith("__autograph_generated_file")]  # those are TensorFlow's
    for f in left:
        shutil.rmtree(os.path.join(TEMP, f), ignore_errors=True)
    return left


def call(f, *a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            return f(*a, **k), None, w
        except BaseException as e:
            return None, e, w


def judge_bytes(fail, got, source, it, ot, quantized):
    if it == F32 and ot == F32:
        if got != source:
            fail("bytes", "the flatbuffer was changed although nothing was asked for")
        return rep.count("results_unchanged")
    (gi, go, n), (si, so, m) = io_types(got), io_types(source)
    T = S.TensorType
    wi = [T.INT8 if it == I8 else T.FLOAT32] * len(si)
    wo = [T.INT8 if ot == I8 else T.FLOAT32] * len(so)
    if (gi, go) != (wi, wo):
        fail("io types", "inputs %r outputs %r, not %r %r" % (gi, go, wi, wo))
    if n != m - (it == I8) * len(si) - (ot == I8) * len(so):
        fail("io types", "%d of %d operators are left" % (n, m))
    rep.count("results_with_int8")


class PathOnly:
    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


def saved_case(r):
    """convert_saved_model."""
    d = os.path.join(SCRATCH, "model é" if r.random() < .2 else "m")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    version = r.choice([1, 1, 1, 1, 2, 2, 0, 3, 1000, -1])
    pb = saved_model_pb2.SavedModel()
    pb.saved_model_schema_version = version
    pb.meta_graphs.add()
    state = r.choice(["ok"] * 8 + ["missing", "corrupt"])
    if state == "ok":
        open(os.path.join(d, "saved_model.pb"), "wb").write(pb.SerializeToString())
    elif state == "corrupt":
        open(os.path.join(d, "saved_model.pb"), "wb").write(b"\xff\xff\x01nonsense")
    kw, it, ot, valid = options(r, r.random() < .3)
    quantized = r.random() < .7
    fails = r.random() < .1
    graph_mode = r.random() < .08
    be.reset(flatbuffer(r, quantized), ["saved"] if fails else [])
    how = r.choice(["str", "str", "path", "entry", "fspath"])
    arg = d
    if how == "path":
        import pathlib
        arg = pathlib.Path(d)
    elif how == "entry":
        arg = next(e for e in os.scandir(SCRATCH) if e.path == d)
    elif how == "fspath":
        arg = PathOnly(d)
    what = "saved model version=%d %s %s %r quantized=%r fails=%r graph_mode=%r" % (version, state, how, kw, quantized, fails, graph_mode)
    fail = lambda key, t: rep.viol("saved: " + key, "%s: %s" % (what, t))
    rep.count("evaluations")
    rep.sig(what)
    cwd = os.getcwd()
    if graph_mode:
        with tf.Graph().as_default():
            got, e, w = call(converter.convert_saved_model, arg, **kw)
    else:
        got, e, w = call(converter.convert_saved_model, arg, **kw)
    if os.getcwd() != cwd:
        fail("state", "the working directory changed")
    if valid is None and isinstance(e, ValueError) and not be.calls:
        return rep.count("loose_types_refused")
    reject = None
    if valid is False:
        reject = ValueError if not graph_mode else (ValueError, RuntimeError)
    elif graph_mode:
        reject = RuntimeError
    elif state != "ok":
        reject = Exception
    elif version not in (1, 2):
        reject = ValueError
    if reject:
        if not isinstance(e, reject):
            fail("accepted", "%r instead of %r" % (e, reject))
        if be.calls:
            fail("accepted", "the conversion was started")
        rep.count("rejected_version" if reject is ValueError and valid is not False else "rejected_options" if valid is False else "rejected_graph_mode" if graph_mode else "rejected_directory")
        return
    rng = kw.get("experimental_default_int8_range")
    if [c[0] for c in be.calls] != ["saved"]:
        return fail("call", "calls %r, error %r" % ([c[0] for c in be.calls], e))
    a, k = be.calls[0][1:]
    if k or [x if isinstance(x, str) else list(x) if i in (1, 2) else x for i, x in enumerate(a)] != [d, ["serve"], ["serving_default"], version, kw.get("target", "arm"), rng]:
        fail("call", "called with %r %r" % (a, k))
    if rng is not None and not any("experimental_default_int8_range" in str(x.message) for x in w):
        fail("warning", "no warning about default ranges")
    if fails:
        if not isinstance(e, Fault):
            fail("failure", "%r came out of a failed conversion" % (e or got,))
        return rep.count("failures")
    wants_int8 = it == I8 or ot == I8
    if wants_int8 and not quantized:
        if not isinstance(e, ValueError):
            fail("float model", "a float model was returned where 8-bit inputs or outputs were asked for")
        return rep.count("float_models_refused")
    if e is not None:
        return fail("refused", "refused: %r" % e)
    rep.count("saved_models_converted")
    rep.count("path_" + how)
    judge_bytes(fail, got, be.result, it, ot, quantized)


CACHE = {}


def bad_case(r):
    """Arguments that have to be refused before anything happens."""
    if "model" not in CACHE:
        i = K.Input((4,))
        CACHE["model"] = K.Model(i, K.layers.Dense(2)(i))
        K.mixed_precision.set_global_policy("mixed_float16")
        i = K.Input((4,))
        CACHE["mixed_float16"] = K.Model(i, K.layers.Dense(2)(i))
        CACHE["mixed_sequential"] = K.Sequential([K.layers.InputLayer((4,)), K.layers.Dense(3)])
        K.mixed_precision.set_global_policy("mixed_bfloat16")
        i = K.Input((4,))
        CACHE["mixed_bfloat16"] = K.Model(i, K.layers.Dense(2)(i))
        K.mixed_precision.set_global_policy("float32")
    kind = r.choice(["options"] * 4 + ["graph"] * 2 + ["mixed_float16", "mixed_bfloat16", "mixed_sequential", "none", "str", "layer", "module", "class", "positional"])
    kw, _, _, _ = options(r, kind == "options")
    model = CACHE.get(kind, CACHE["model"])
    expect = ValueError
    if kind in ("none", "str", "layer", "module", "class"):
        model = dict(none=None, str="/tmp/model", layer=K.layers.Dense(3), module=tf.Module(), **{"class": K.Model})[kind]
    rep.count("evaluations")
    be.reset(flatbuffer(r, True))
    what = "keras %s %r" % (kind, kw)
    rep.sig(what)
    if kind == "graph":
        with tf.Graph().as_default():
            got, e, w = call(converter.convert_keras_model, model, **kw)
        expect = RuntimeError
    elif kind == "positional":
        got, e, w = call(converter.convert_keras_model, model, r.choice([F32, I8]))
        expect = TypeError
    else:
        got, e, w = call(converter.convert_keras_model, model, **kw)
    if not isinstance(e, expect):
        rep.viol("bad: accepted", "%s: %r instead of %r" % (what, e or got, expect))
    left = leftovers()
    if be.calls or left:
        rep.viol("bad: started", "%s: the conversion was started: %r, %r" % (what, [c[0] for c in be.calls], left))
    rep.count("refused_" + kind)


def keras_case(r):
    K.backend.clear_session()
    b = build(r)
    kw, it, ot, valid = options(r, False)
    quantized = r.random() < .75
    fails = set()
    p = r.random() * (.6 if b.dynamic or any(len(s) == 1 for s in b.shapes) else 1)
    if p < .3:
        fails.add("saved")
    elif p < .38:
        fails |= {"saved", "graph"}
    elif p < .42:
        fails.add("interrupt")
    rng = kw.get("experimental_default_int8_range")
    target = kw.get("target", "arm")
    check, xs, before = executor(b, r)
    weights = [w.copy() for w in b.model.get_weights()]
    be.reset(flatbuffer(r, quantized), fails, check)
    what = "%s model shapes=%r dtypes=%r fake=%r unsavable=%r %r quantized=%r fails=%r" % (b.kind, b.shapes, b.dtypes, b.fake, b.unsavable, kw, quantized, sorted(fails))
    fail = lambda key, t: rep.viol("keras: " + key, "%s: %s; calls %r" % (what, t, [c[0] for c in be.calls]))
    rep.count("evaluations")
    rep.sig(what)
    rep.sample(what)
    got, e, w = call(converter.convert_keras_model, b.model, **kw)
    left = leftovers()
    if left:
        fail("left behind", "temporary files are left: %r" % left)
    for x in be.problems:
        fail("model", x)
    if not all(np.array_equal(x, y) for x, y in zip(weights, b.model.get_weights())) or not all(same(x, y) for x, y in zip(before, run_model(b, xs))):
        fail("changed", "the model is not what it was")
    routes = [c[0] for c in be.calls]
    if valid is None and isinstance(e, ValueError) and not routes:
        return rep.count("loose_types_refused")
    if "interrupt" in fails and not b.unsavable:
        if not isinstance(e, KeyboardInterrupt) or routes != ["saved"]:
            fail("interrupt", "an interrupt was swallowed: %r" % (e,))
        return rep.count("interrupts")
    wants_int8 = it == I8 or ot == I8
    first_fails = b.unsavable or "saved" in fails or wants_int8 and not quantized
    for c in be.calls:
        if c[0] == "saved":
            a = c[1]
            if c[2] or [list(a[1]), list(a[2])] + list(a[3:]) != [["serve"], ["serving_default"], 1, target, rng]:
                fail("call", "saved-model conversion called with %r" % (a[1:],))
            if os.path.exists(a[0]) or not a[0].startswith(TEMP):
                fail("left behind", "directory %r" % a[0])
    quantize = b.fake or rng is not None
    if not first_fails:
        if routes != ["saved"] or e is not None:
            return fail("first", "the saved model was not converted, or not only: %r" % e)
        rep.count("first_route")
        return judge_bytes(fail, got, be.result, it, ot, quantized)
    if routes[:1] != (["graph"] if b.unsavable else ["saved"]):
        if not b.dynamic or routes:
            return fail("first", "the saved model was not tried first: %r" % (e,))
    if not any("falling back" in str(x.message) for x in w):
        fail("warning", "no warning about falling back")
    if b.dynamic:
        if not isinstance(e, ValueError) or "graph" in routes:
            fail("dynamic", "a shape that is open beyond the batch was accepted: %r" % (e,))
        return rep.count("open_shapes_refused")
    calls = [c for c in be.calls if c[0] == "graph"]
    if len(calls) != 1 or routes[-1] != "graph":
        return fail("second", "the graph was not converted: %r" % (e,))
    a, k = calls[0][1:]
    shapes = [[x or 1 for x in s] for s in b.shapes]
    dts = [dict(float32="DT_FLOAT", int32="DT_INT32", bool="DT_BOOL")[d] for d in b.dtypes]
    if k or len(a) != 8:
        fail("call", "called with %d arguments and %r" % (len(a), k))
    if b.any_batch and a[3] and a[3][0][:1] in ([1], [b.any_batch]):
        shapes[0][0] = a[3][0][0]
    if list(a[2]) != dts or [list(s) for s in a[3]] != shapes:
        fail("call", "types %r and shapes %r, not %r and %r" % (a[2], a[3], dts, shapes))
    if bool(a[5]) != quantize:
        fail("call", "quantization is %r" % (a[5],))
    if a[6] != target or a[7] != rng:
        fail("call", "target %r and range %r" % (a[6], a[7]))
    rep.count("second_route")
    rep.count("open_batches", sum(s[0] is None for s in b.shapes))
    rep.count("inputs_of_numbers", sum(len(s) == 1 for s in b.shapes))
    if quantize:
        rep.count("quantized_graphs")
    if "graph" in fails:
        if not isinstance(e, Fault):
            fail("failure", "%r came out of a failed conversion" % (e or got,))
        return rep.count("failures")
    if wants_int8 and not quantize:
        return rep.count("float_graphs_with_int8")  # unspecified: nothing in the model is quantized
    if wants_int8 and not quantized:
        if not isinstance(e, ValueError):
            fail("float model", "a float model was returned where 8-bit inputs or outputs were asked for")
        return rep.count("float_models_refused")
    if e is not None:
        return fail("refused", "refused: %r" % e)
    judge_bytes(fail, got, be.result, it, ot, quantized)


def case(seed, k):
    r = random.Random("p03/%d/%d" % (seed, k))
    p = r.random()
    (bad_case if p < .2 else saved_case if p < .45 else keras_case)(r)


main(case, rep)
