"""P06: the real native conversion module on recording importers and exporter, under ASan and UBSan."""
import ctypes
import importlib.machinery
import importlib.util
import os
import random
import struct
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rep import Report, main

LIB = os.environ["VERIF_BINDING"]


def load(name):
    spec = importlib.util.spec_from_loader(name, importlib.machinery.ExtensionFileLoader(name, LIB))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


lce, sim = load("_tf_tfl_flatbuffer"), load("simstate")
rep = Report()
QINT8, FLOAT = 11, 1


def word(r, n=None):
    n = n or r.choice([1, 3, 8, 20, 49, 50, 51, 60, 120])
    return "".join(r.choice("abcxyzABC019_/-.: é") for _ in range(n)).replace("..", "a") or "x"


def dense(vals):
    return '"0x' + struct.pack("<%df" % len(vals), *vals).hex().upper() + '"'


class Net:
    """A module as an importer leaves it, and what has to become of it."""

    def __init__(self, r, graph):
        self.r, self.n, self.globals, self.body, self.variables = r, 0, "", "", []
        self.binary = self.zero_padded = 0
        self.fakes = self.unreadable = self.control = False
        self.locs = []
        c = r.choice([1, 8, 32, 40])
        h = r.randint(3, 6)
        self.t = "tensor<%sx%dx%dx%dxf32>"
        b = r.choice(["1", "2", "?"])
        x, shape = "%a0", (b, h, h, c)
        for _ in range(r.randint(0, 4)):
            k = r.randint(0, 5)
            if k == 0:
                x = self.op("tf.Relu", [x], [shape], shape)
            elif k == 1:
                if shape[0] == "?" and r.random() < .5:
                    continue
                m = self.const([r.choice([.5, 1, 2, -1]) for _ in range(shape[3])], graph)
                x = self.raw('"tf.Mul"(%s, %s) {} : (%s, tensor<%dxf32>) -> %s' % (x, m, self.t % shape, shape[3], self.t % shape))
            elif k == 2 and not self.fakes:
                lo, hi = self.cst("dense<-1.28e+02> : tensor<f32>"), self.cst("dense<1.27e+02> : tensor<f32>")
                x = self.raw('"tf.FakeQuantWithMinMaxVars"(%s, %s, %s) {num_bits = 8 : i64, narrow_range = false} : (%s, tensor<f32>, tensor<f32>) -> %s'
                             % (x, lo, hi, self.t % shape, self.t % shape))
                self.fakes = True
            else:
                o = r.choice([1, 8, 33])
                same = r.random() < .6
                if not same and shape[1] < 3:
                    continue
                s = self.op("tf.Sign", [x], [shape], shape)
                tie = self.cst("dense<1.000000e-01> : tensor<f32>")
                s = self.raw('"tf.AddV2"(%s, %s) {} : (%s, tensor<f32>) -> %s' % (s, tie, self.t % shape, self.t % shape))
                s = self.op("tf.Sign", [s], [shape], shape)
                w = self.const([r.choice([1, -1]) for _ in range(9 * shape[3] * o)], graph, (3, 3, shape[3], o))
                out = (shape[0], shape[1] if same else shape[1] - 2, shape[2] if same else shape[2] - 2, o)
                x = self.raw('"tf.Conv2D"(%s, %s) {strides = [1, 1, 1, 1], dilations = [1, 1, 1, 1], use_cudnn_on_gpu = true, explicit_paddings = [], '
                             'data_format = "NHWC", padding = "%s"} : (%s, tensor<3x3x%dx%dxf32>) -> %s'
                             % (s, w, "SAME" if same else "VALID", self.t % shape, shape[3], o, self.t % out))
                shape = out
                self.binary += 1
                self.zero_padded += same
        if x == "%a0":
            x = self.op("tf.Relu", [x], [shape], shape)
        self.result = (x, self.t % shape)
        self.arg = self.t % (b, h, h, c)

    def name(self):
        return "%%v%d" % (self.n,)

    def raw(self, text):
        self.n += 1
        loc = ""
        if self.r.random() < .7:
            n = word(self.r) + str(self.n)
            loc = ' loc("%s")' % n
        self.body += "  %%v%d = %s%s\n" % (self.n, text, loc)
        return "%%v%d" % self.n

    def op(self, op, args, shapes, out):
        return self.raw('"%s"(%s) {} : (%s) -> %s' % (op, ", ".join(args), ", ".join(self.t % s for s in shapes), self.t % out))

    def cst(self, attr):
        return self.raw('"tf.Const"() {value = %s} : () -> %s' % (attr, attr.split(" : ")[1]))

    def const(self, vals, graph, shape=None):
        t = "tensor<%sxf32>" % "x".join(map(str, shape or (len(vals),)))
        attr = "dense<%s> : %s" % (dense(vals), t)
        if graph or self.r.random() < .4:
            return self.cst(attr)
        name = "var%d" % self.n
        self.variables.append((name, attr))
        h = self.raw('"tf.VarHandleOp"() {shared_name = "%s"} : () -> tensor<i64>' % name)
        return self.raw('"tf.ReadVariableOp"(%s) {} : (tensor<i64>) -> %s' % (h, t))

    def text(self, entries, inputs, extra=""):
        s = "module {\n"
        for k in range(max(1, entries)):
            attrs = ""
            if k < entries:
                what = (["inputs = \"%s\"" % ",".join(inputs)] if inputs is not None else []) + ['outputs = "out"']
                attrs = " attributes {tf.entry_function = {%s}}" % ", ".join(what)
            s += "func.func @f%d(%%a0: %s) -> %s%s {\n%s%s  func.return %s : %s\n}\n" % (
                k, self.arg, self.result[1], attrs, self.body, extra, self.result[0], self.result[1])
        return s + "}\n"


PASSES = ["tf-standard-pipeline", "device-index-selector", "shape-inference", "decompose-resource-ops", "prepare-composite", "optimize-global-tensors",
          "freeze-global-tensors", "layout-optimization", "prepare-tf", "legalize-tf", "optimize", "raise-custom-ops", "while-outline", "runtime-verify"]
QUANT = ["prepare-quantize", "quantize", "post-quantize", "optimize-op-order", "post-quantize-remove-qdq"]
CONTROL = ["Switch", "Merge", "Enter", "Exit", "NextIteration.Source", "NextIteration.Sink"]


def case(seed, k):
    r = random.Random("p06/%d/%d" % (seed, k))
    if r.random() < .08:
        return text_case(r)
    graph = r.random() < .5
    net = Net(r, graph)
    target = r.choice(["arm", "xcore"]) if r.random() < .85 else r.choice(["", "ARM", "arm ", "x86", "xcore\0", "armxcore", "default", "é"])
    ranges = None
    bad_ranges = False
    p = r.random()
    if p < .4:
        ranges = (r.choice([-6.0, -128.0, 0.0, -1]), r.choice([6.0, 127.0, 5, 1e-3]))
    elif p < .45:
        ranges, bad_ranges = r.choice([(1,), (1, 2, 3), "ab", 5, ("a", 1.0), (None, None)]), True
    inputs = [word(r, r.choice([1, 5, 30])).replace(",", "_").replace(":", "_") for _ in range(r.choice([1, 1, 2, 5]))]
    fault, fail_pass, control, entries, broken = "", "", None, 1, False
    p = r.random()
    if p < .2:
        fault = r.choice(["load", "inputs", "outputs", "import"] if graph else ["register", "import", "no bundle"])
    elif p < .28:
        fault = r.choice(["export", "export", "damage"] if graph else ["export", "damage", "freeze", "freeze"])
    elif p < .4:
        fail_pass = r.choice(PASSES + QUANT + ["default-quant-params", "freeze-assets"])
    elif p < .46:
        control = r.choice(CONTROL + ["LoopCond"])
    elif p < .52:
        entries = r.choice([0, 2, 3])
    elif p < .55:
        broken = True
    silent = r.random() < .4
    extra = '  %%ctl = "tf_executor.%s"(%%a0) : (%s) -> %s\n' % (control, net.arg, net.arg) if control else ""
    text = net.text(entries, None if broken else inputs, extra)
    flatbuffer = r.randbytes(r.choice([0, 1, 40, 5000]))
    quantize = r.random() < .6 if graph else True
    sim.reset(text, fault, fail_pass, silent, flatbuffer, net.variables)
    tags, names, directory, version = [], [], "", 0
    what = "%s target=%r ranges=%r quantize=%r fault=%r pass=%r silent=%r control=%r entries=%d broken=%r" % (
        "graph" if graph else "saved model", target, ranges, quantize, fault, fail_pass, silent, control, entries, broken)
    rep.count("evaluations")
    rep.sig(what + text)
    mismatch = False
    if graph:
        data = r.randbytes(r.choice([0, 3, 200])) + b"\0x"
        dtypes = [r.choice(["DT_FLOAT", "DT_INT8", ""]) for _ in inputs]
        shapes = [[r.choice([1, 7, 224]) for _ in range(r.choice([0, 0, 1, 4]))] for _ in inputs]
        outputs = [word(r, 9) for _ in range(r.randint(1, 3))]
        if r.random() < .04:
            mismatch = True
            dtypes.append("DT_FLOAT")
        call = lambda: lce.convert_graphdef_to_tflite_flatbuffer(data, inputs, dtypes, shapes, outputs, quantize, target, ranges)
    else:
        directory = r.choice(["", "/m", "/tmp/mödel dir"])
        tags = r.sample(["serve", "gpu", "train", "é"], r.randint(0, 3))
        names = r.choice([["serving_default"], ["a", "b"], []])
        version = r.choice([1, 2])
        call = lambda: lce.convert_saved_model_to_tflite_flatbuffer(directory, tags, names, version, target, ranges)
    try:
        got, error = call(), None
    except (RuntimeError, TypeError, ValueError) as e:
        got, error = None, e
    st = sim.state()
    calls = st["calls"]
    fail = lambda key, t: rep.viol(key, "%s: %s; calls %s" % (what, t, calls))

    # What has to happen.
    reject = None
    runs = set(PASSES) | (set(QUANT) if quantize else set()) | ({"default-quant-params"} if quantize and ranges is not None else set()) | ({"freeze-assets"} if directory else set())
    if target not in ("arm", "xcore"):
        reject = "target"
    elif not graph and not names:
        reject = "names"
    elif fault and fault not in ("freeze", "export", "damage", "no bundle") or mismatch:
        reject = "import"
    elif not graph and (entries != 1 or broken):
        reject = "entry"
    elif bad_ranges and quantize:
        reject = "ranges"
    elif control in CONTROL:
        reject = "control flow"
    elif fault == "no bundle" and net.variables:
        reject = "values of variables missing"
    elif fail_pass in runs:
        reject = "pass"
    elif fault in ("freeze", "export", "damage"):
        reject = fault
    elif control:  # an operator no importer produces: nothing to expect but a verdict
        return rep.count("other_control")
    if reject:
        rep.count("rejected_" + reject.replace(" ", "_"))
        if error is None:
            fail("accepted-" + reject, "no exception (returned %d bytes)" % len(got))
        if reject in ("target", "names", "import", "entry", "ranges", "control flow") and (calls["export"] or st["ran"]):
            fail("converted-" + reject, "the conversion was started")
        if reject in ("target", "names") and (calls["graph"] or calls["model"]):
            fail("imported-" + reject, "the model was imported")
        return
    if error is not None:
        return fail("refused", "refused: %r" % error)
    rep.count("conversions_graph" if graph else "conversions_saved_model")
    if got != flatbuffer or not isinstance(got, bytes):
        fail("flatbuffer", "returned other bytes than were exported")
    if calls["export"] != 1 or calls["graph"] != int(graph) or calls["model"] != int(not graph):
        fail("calls", "the model was not imported and exported exactly once")
    # The import is what was asked for.
    if graph:
        want = [(n, d, s or None) for n, d, s in zip(inputs, dtypes, shapes)]
        if st["bytes"] != data:
            fail("import", "another GraphDef was imported")
        if [tuple(x) for x in st["inputs"]] != want or st["outputs"] != outputs:
            fail("import", "the inputs or outputs are %r %r, not %r %r" % (st["inputs"], st["outputs"], want, outputs))
        if st["flags"][:4] != (True, True, False, True):
            fail("import", "import flags %r" % (st["flags"],))
        rep.count("shapes_left_open", sum(not s for s in shapes))
        if calls["freeze"]:
            fail("session", "variables frozen without a session")
    else:
        if (st["dir"], st["version"], sorted(st["tags"]), st["names"], st["custom_opdefs"]) != (directory, version, sorted(set(tags)), names, 0):
            fail("import", "imported %r" % ((st["dir"], st["version"], st["tags"], st["names"]),))
        if st["flags"][3:] != (True, True):
            fail("import", "import flags %r" % (st["flags"],))
        if calls["register"] != 1:
            fail("import", "custom operators registered %d times" % calls["register"])
        if calls["freeze"] != 1 or not (fault == "no bundle" or st["right_session"]):
            fail("session", "variables were not frozen with the model's session")
        if fault == "no bundle" and st["frozen_with_session"]:
            fail("session", "a session out of nowhere")
        if fault == "no bundle":
            rep.count("without_bundle")
        rep.count("variables", len(net.variables))
    if sorted(st["export_tags"]) != sorted(set(tags)):
        fail("tags", "exported with tags %r" % st["export_tags"])
    if set(st["assets"]) != ({directory} if directory else set()) or set(st["text_dirs"]) != {directory}:
        fail("directory", "assets from %r and %r" % (st["assets"], st["text_dirs"]))
    if not st["allow_custom"] or st["force_select"] or st["stablehlo"]:
        fail("export", "export options custom=%r select=%r stablehlo=%r" % (st["allow_custom"], st["force_select"], st["stablehlo"]))
    # Quantization.
    ran = set(st["ran"])
    if quantize:
        rep.count("quantized")
        if st["inference_type"] != QINT8 or st["input_type"] != FLOAT or st["weight_quantization"]:
            fail("quantization", "types %r %r" % (st["inference_type"], st["input_type"]))
        if not set(QUANT) <= ran:
            fail("quantization", "quantization was skipped")
        if st["input_ranges"] != [(None, None)] * len(inputs):
            fail("quantization", "%d inputs have ranges %r" % (len(inputs), st["input_ranges"]))
        post = not graph and ranges is not None
        if st["post_training"] != post:
            fail("quantization", "marked as quantized after training: %r" % st["post_training"])
        if post:
            rep.count("post_training")
    else:
        rep.count("not_quantized")
        if ran & (set(QUANT) | {"default-quant-params"}):
            fail("quantization", "quantized although not asked to: %r" % sorted(ran & set(QUANT)))
    want = [(float(ranges[0]), float(ranges[1]), True)] if quantize and ranges is not None else []
    if bool(st["defaults"]) != bool(want) or any(tuple(d) != want[0] for d in st["defaults"]):
        fail("ranges", "default ranges %r, not %r" % (st["defaults"], want))
    rep.count("with_default_ranges", len(want))
    missing = set(PASSES) - ran
    if missing:
        fail("passes", "never run: %r" % sorted(missing))
    # The network.
    convs = st["ops"].count("LceBconv2d")
    floats = st["ops"].count("tfl.conv_2d")
    copies = max(1, entries)
    expect = copies * (net.binary - (net.zero_padded if target == "xcore" else 0))
    if convs != expect or floats != copies * net.binary - expect:
        fail("target", "%d binary and %d float convolutions, not %d and %d" % (convs, floats, expect, copies * net.binary - expect))
    rep.count("binary_convolutions", convs)
    rep.count("convolutions_kept_for_xcore", floats)
    if any(o.startswith("tf.") or o.startswith("lq.") for o in st["ops"]):
        fail("operators", "left: %r" % [o for o in st["ops"] if o.startswith(("tf.", "lq."))])
    # Names.
    seen = set()
    for full, given in zip(st["full_names"], st["op_names"]):
        cut = full[:47]  # a character may be left whole
        if not given.startswith(cut) or len(given) > 56 or len(full) <= 50 and not given.startswith(full):
            fail("names", "%r is exported as %r" % (full, given))
        if given in seen:
            fail("names", "%r names two operators" % given)
        seen.add(given)
        rep.count("long_names", len(full) > 50)
        rep.count("names")
    rep.sample(what)


def text_case(r):
    net = Net(r, True)
    sim.reset("", "", "", False, b"", [])
    ok, out, module = sim.to_text(net.text(1, ["x"]), r.random() < .5)
    rep.count("evaluations")
    rep.sig("text" + net.body)
    if not ok or out.strip() != module.strip() or "tf." in out.replace("tf.entry_function", ""):
        rep.viol("text", "conversion to text: ok=%r: %s" % (ok, out[:300]))
    if sim.state()["calls"]["export"]:
        rep.viol("text", "a flatbuffer was written as well")
    rep.count("conversions_to_text")


main(case, rep)
