"""P01 and P02: surgery on serialised models, judged by structure, by symbolic execution of
the models before and after, and (P01) by running both in TensorFlow Lite."""
import collections
import os
import random
import sys

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rep import REPO, Report, main, mock_module

sys.path.insert(0, "/opt/lce/venv/lib/python3.12/site-packages")
import flatbuffers
import tensorflow as tf
from tensorflow.lite.python import schema_py_generated as S

for name in ("larq_compute_engine", "larq_compute_engine.mlir", "larq_compute_engine.mlir.python"):
    mock_module(name, __path__=[os.path.join(REPO, *name.split("."))])
sys.modules["larq_compute_engine.mlir.python.tflite_schema"] = S
sys.modules["larq_compute_engine.mlir.python"].tflite_schema = S
from larq_compute_engine.mlir.python.util import modify_integer_quantized_model_io_type, strip_lcedequantize_ops

PROP = os.environ["VERIF_PROP"]
rep = Report()
T = S.TensorType
B = S.BuiltinOperator
BUILTINS = {"QUANTIZE": B.QUANTIZE, "DEQUANTIZE": B.DEQUANTIZE, "ADD": B.ADD, "RELU": B.RELU, "LSTM": B.UNIDIRECTIONAL_SEQUENCE_LSTM,
            "VAR": B.VAR_HANDLE, "ASSIGN": B.ASSIGN_VARIABLE, "READ": B.READ_VARIABLE}
OPTIONS = {"QUANTIZE": (S.BuiltinOptions.QuantizeOptions, S.QuantizeOptionsT), "DEQUANTIZE": (S.BuiltinOptions.DequantizeOptions, S.DequantizeOptionsT),
           "ADD": (S.BuiltinOptions.AddOptions, S.AddOptionsT)}


class Graph:
    """One subgraph under construction. Tensors are named; indices come last."""

    def __init__(self, r, tag, executable):
        self.r, self.tag, self.ex = r, tag, executable
        self.t, self.ops, self.inputs, self.outputs = {}, [], [], []

    def tensor(self, typ, const=None, hint="t"):
        name = "%s_%s%d" % (self.tag, hint, len(self.t))
        quant = None
        if typ == T.INT8 or typ == T.INT16:
            # TFLite wants the same parameters on both sides of RELU and allows any in ADD.
            quant = (float(np.float32(self.r.choice([.5, .25, .1, 1.0]))), 0 if typ == T.INT16 else self.r.randint(-20, 20))
        self.t[name] = dict(type=typ, shape=[1, 4], quant=quant, const=const)
        return name

    def op(self, kind, ins, outs, opts=b"", inter=()):
        self.ops.append(dict(kind=kind, ins=list(ins), outs=list(outs), opts=opts, inter=list(inter)))
        return outs[0] if outs else None


def pick(r, pool):
    return r.choice(pool) if pool else None


def build_graph(r, tag, ex):
    g = Graph(r, tag, ex)
    pool = collections.defaultdict(list)
    kinds = []
    for _ in range(r.choice([1, 1, 2, 3]) if ex else r.choice([0, 1, 1, 1, 1, 2, 2, 3])):
        k = r.choice(["q", "q", "q", "q", "float", "int8", "bits" if not ex else "q", "q+use", "q+q", "q+out", "q16" if not ex else "q", "requant" if not ex else "q", "qodd" if not ex else "q"] if r.random() < .6
                     else ["q", "q", "float", "int8"])
        kinds.append("in:" + k)
        typ = T.INT8 if k in ("int8", "requant") else r.choice([T.UINT8, T.INT16, T.FLOAT16]) if k == "qodd" else T.INT32 if k == "bits" else T.FLOAT32
        x = g.tensor(typ, hint="in_")
        g.inputs.append(x)
        if k.startswith("q"):
            y = g.tensor(T.INT16 if k == "q16" else T.INT8, hint="q_")
            g.op("QUANTIZE", [x], [y])
            if k != "q16":
                pool[T.INT8].append(y)
            if k == "q+q":
                z = g.tensor(T.INT8, hint="q_")
                g.op("QUANTIZE", [x], [z])
                pool[T.INT8].append(z)
            if k == "q+use":
                pool[T.FLOAT32].append(g.op("RELU", [x], [g.tensor(T.FLOAT32)]))
            if k == "q+out":
                g.outputs.append(x)
        elif k in ("requant", "qodd"):
            pool[T.INT8].append(g.op("QUANTIZE", [x], [g.tensor(T.INT8)]))
        else:
            pool[typ].append(x)
    for _ in range(r.randint(0, 7)):
        k = r.choice(["relu8", "add8", "relu", "add", "q", "deq"] + ([] if ex else ["lceq", "lceq", "conv", "conv", "lcedeq", "lstm", "var", "pool"]))
        a8, af, ab = pick(r, pool[T.INT8]), pick(r, pool[T.FLOAT32]), pick(r, pool[T.INT32])
        if k == "relu8" and a8:
            y = g.tensor(T.INT8)
            g.t[y]["quant"] = g.t[a8]["quant"]
            pool[T.INT8].append(g.op("RELU", [a8], [y]))
        elif k == "add8" and a8:
            other = pick(r, pool[T.INT8])
            if r.random() < .4:
                other = g.tensor(T.INT8, const=r.randbytes(4), hint="w")
            pool[T.INT8].append(g.op("ADD", [a8, other], [g.tensor(T.INT8)]))
        elif k == "relu" and af:
            pool[T.FLOAT32].append(g.op("RELU", [af], [g.tensor(T.FLOAT32)]))
        elif k == "add" and af:
            pool[T.FLOAT32].append(g.op("ADD", [af, pick(r, pool[T.FLOAT32])], [g.tensor(T.FLOAT32)]))
        elif k == "q" and af and af not in g.inputs:
            pool[T.INT8].append(g.op("QUANTIZE", [af], [g.tensor(T.INT8)]))
        elif k == "deq" and a8:
            pool[T.FLOAT32].append(g.op("DEQUANTIZE", [a8], [g.tensor(T.FLOAT32)]))
        elif k == "lceq" and (a8 or af):
            pool[T.INT32].append(g.op("LceQuantize", [r.choice([x for x in (a8, af) if x])], [g.tensor(T.INT32)]))
        elif k == "conv" and ab:
            typ = r.choice([T.FLOAT32, T.INT8, T.INT32])
            w = g.tensor(T.INT32, const=r.randbytes(16), hint="w")
            pool[typ].append(g.op("LceBconv2d", [ab, w] + ([-1, -1, w] if typ == T.INT32 else [w, w, -1]), [g.tensor(typ)], r.randbytes(5)))
        elif k == "pool" and ab:
            pool[T.INT32].append(g.op("LceBMaxPool2d", [ab], [g.tensor(T.INT32)], r.randbytes(3)))
        elif k == "lcedeq" and ab:
            typ = r.choice([T.FLOAT32, T.INT8])
            pool[typ].append(g.op("LceDequantize", [ab], [g.tensor(typ)]))
        elif k == "lstm" and a8:
            inter = [g.tensor(T.INT8, hint="inter") for _ in range(r.randint(1, 3))]
            pool[T.INT8].append(g.op("LSTM", [a8, -1], [g.tensor(T.INT8)], inter=inter))
        elif k == "var" and af:
            h = g.op("VAR", [], [g.tensor(T.INT32)])
            g.op("ASSIGN", [h, af], [])
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.choice(["deq", "deq", "deq", "int8", "float", "deq+use", "dup"] + ([] if ex else ["lce", "lce", "lce8", "lce8deq", "lce8deq", "bits", "lce+use", "deq16", "lce8deq+use", "lceodd", "const", "state"]))
        a8, af, ab = pick(r, pool[T.INT8]), pick(r, pool[T.FLOAT32]), pick(r, pool[T.INT32])
        kinds.append("out:" + k)
        if k in ("deq", "deq+use") and a8:
            y = g.op("DEQUANTIZE", [a8], [g.tensor(T.FLOAT32, hint="out_")])
            g.outputs.append(y)
            if k == "deq+use":
                g.outputs.append(g.op("RELU", [y], [g.tensor(T.FLOAT32)]))
        elif k == "deq16":
            h = g.op("ADD", [], [g.tensor(r.choice([T.FLOAT16, T.UINT8, T.INT16]))])
            g.outputs.append(g.op("DEQUANTIZE", [h], [g.tensor(T.FLOAT32)]))
        elif k == "lceodd":
            h = g.op("ADD", [], [g.tensor(r.choice([T.UINT8, T.INT16, T.INT64, T.FLOAT32, T.INT8, T.INT32]))])
            g.outputs.append(g.op("LceDequantize", [h], [g.tensor(r.choice([T.FLOAT32, T.INT8, T.INT16, T.INT32]))]))
        elif k == "const":
            g.outputs.append(g.op("DEQUANTIZE", [g.tensor(T.INT8, const=r.randbytes(4), hint="w")], [g.tensor(T.FLOAT32, hint="out_")]))
        elif k == "state":
            g.outputs.append(g.op("READ", [g.op("VAR", [], [g.tensor(T.INT32)])], [g.tensor(T.FLOAT32)]))
        elif k == "int8" and a8:
            g.outputs.append(a8)
        elif k == "float" and af:
            g.outputs.append(af)
        elif k == "bits" and ab:
            g.outputs.append(ab)
        elif k == "dup" and g.outputs:
            g.outputs.append(r.choice(g.outputs))
        elif k in ("lce", "lce+use") and ab:
            y = g.op("LceDequantize", [ab], [g.tensor(T.FLOAT32, hint="out_")])
            g.outputs.append(y)
            if k == "lce+use":
                g.outputs.append(g.op("RELU", [y], [g.tensor(T.FLOAT32)]))
        elif k == "lce8" and ab:
            g.outputs.append(g.op("LceDequantize", [ab], [g.tensor(T.INT8, hint="out_")]))
        elif k in ("lce8deq", "lce8deq+use") and ab:
            y = g.op("LceDequantize", [ab], [g.tensor(T.INT8, hint="mid_")])
            g.outputs.append(g.op("DEQUANTIZE", [y], [g.tensor(T.FLOAT32, hint="out_")]))
            if k == "lce8deq+use":
                g.outputs.append(g.op("RELU", [y], [g.tensor(T.INT8)]))
    if not g.outputs:
        g.outputs.append(pick(r, pool[T.INT8] + pool[T.FLOAT32] + pool[T.INT32] + g.inputs) or g.tensor(T.FLOAT32, const=r.randbytes(16), hint="w"))
        kinds.append("out:plain")
    return g, kinds


def pack(r, graphs, metadata):
    # Some writers of models leave empty lists out.
    short = r.random() < .4
    full = lambda l: None if short and not l else l
    m = S.ModelT()
    m.version, m.description = 3, "model of verif"
    m.buffers, m.operatorCodes, m.subgraphs = [S.BufferT()], [], []
    codes = {}
    kinds = sorted({o["kind"] for g in graphs for o in g.ops})
    if r.random() < .4:
        kinds += [k for k in ("QUANTIZE", "DEQUANTIZE", "LceDequantize") if k not in kinds and r.random() < .5]
    r.shuffle(kinds)
    for k in kinds:
        c = S.OperatorCodeT()
        c.version = 1
        if k in BUILTINS:
            c.builtinCode = BUILTINS[k]
            c.deprecatedBuiltinCode = min(BUILTINS[k], 127)
        else:
            c.builtinCode = c.deprecatedBuiltinCode = B.CUSTOM
            c.customCode = k
        codes[k] = len(m.operatorCodes)
        m.operatorCodes.append(c)
    sigs = []
    for gi, g in enumerate(graphs):
        sg = S.SubGraphT()
        sg.name = "graph%d" % gi
        names = list(g.t)
        how = r.random()
        if how < .5:
            r.shuffle(names)
        elif how < .75:  # what may go away, last
            names.sort(key=lambda n: ("out_" in n or "in_" in n or "mid_" in n))
        idx = {n: i for i, n in enumerate(names)}
        idx[-1] = -1
        sg.tensors = []
        for n in names:
            d = g.t[n]
            t = S.TensorT()
            t.name, t.type, t.shape, t.buffer = n, d["type"], d["shape"], 0
            if r.random() < .3:
                t.shapeSignature = [-1, 4]
            if d["quant"]:
                t.quantization = S.QuantizationParametersT()
                t.quantization.scale, t.quantization.zeroPoint = [d["quant"][0]], [d["quant"][1]]
            if d["const"] is not None:
                b = S.BufferT()
                b.data = list(d["const"])
                t.buffer = len(m.buffers)
                m.buffers.append(b)
            sg.tensors.append(t)
        sg.inputs, sg.outputs = [idx[n] for n in g.inputs], [idx[n] for n in g.outputs]
        sg.operators = []
        for o in g.ops:
            op = S.OperatorT()
            op.opcodeIndex = codes[o["kind"]]
            op.inputs, op.outputs = full([idx[n] for n in o["ins"]]), full([idx[n] for n in o["outs"]])
            if op.inputs is None:
                rep.count("operators_without_list")
            if o["kind"] in OPTIONS:
                op.builtinOptionsType, op.builtinOptions = OPTIONS[o["kind"]][0], OPTIONS[o["kind"]][1]()
            elif o["kind"] not in BUILTINS:
                op.customOptions = list(o["opts"])
            if o["inter"]:
                op.intermediates = [idx[n] for n in o["inter"]]
            sg.operators.append(op)
        m.subgraphs.append(sg)
        for s in range(r.choice([0, 1, 1, 1, 2])):
            sd = S.SignatureDefT()
            sd.signatureKey, sd.subgraphIndex = "sig%d_%d" % (gi, s), gi
            sd.inputs, sd.outputs = [], []
            for what, l in (("inputs", sg.inputs), ("outputs", sg.outputs)):
                pos = list(range(len(l)))
                r.shuffle(pos)
                for p in pos:
                    tm = S.TensorMapT()
                    tm.name, tm.tensorIndex = "%s_%d" % (what[:-1], p), l[p]
                    getattr(sd, what).append(tm)
            sd.inputs, sd.outputs = full(sd.inputs), full(sd.outputs)
            sigs.append(sd)
        sg.inputs, sg.operators = full(sg.inputs), full(sg.operators)
        if not sg.inputs:
            rep.count("graphs_without_inputs")
    r.shuffle(sigs)
    m.signatureDefs = sigs or None
    if metadata:
        md = S.MetadataT()
        md.name, md.buffer = "min_runtime_version", len(m.buffers)
        b = S.BufferT()
        b.data = list(b"1.5.0")
        m.buffers.append(b)
        m.metadata = [md]
    b = flatbuffers.Builder(1024)
    b.Finish(m.Pack(b), file_identifier=b"TFL3")
    return bytes(b.Output())


class Bad(Exception):
    pass


def lst(x):
    return [] if x is None else [int(i) for i in x]


def plain(x):
    """Any generated object, comparable."""
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.tobytes())
    if isinstance(x, (list, tuple)):
        return tuple(plain(i) for i in x)
    if hasattr(x, "__dict__"):
        return (type(x).__name__,) + tuple((k, plain(v)) for k, v in sorted(x.__dict__.items()))
    return x


def opname(m, op):
    c = m.operatorCodes[op.opcodeIndex]
    if c.customCode:
        return c.customCode.decode()
    for k, v in BUILTINS.items():
        if v == c.builtinCode:
            return k
    return "?%d" % c.builtinCode


def options(op):
    return plain([op.builtinOptionsType, op.builtinOptions, op.customOptions, op.customOptionsFormat, op.mutatingVariableInputs])


class View:
    """A subgraph, by tensor names, checked to be well formed."""

    def __init__(self, m, gi):
        sg = m.subgraphs[gi]
        n = len(sg.tensors)
        self.attr, self.ops, self.names = {}, [], [t.name.decode() for t in sg.tensors]
        if len(set(self.names)) != n:
            raise Bad("two tensors of one name")
        for t in sg.tensors:
            if not 0 <= t.buffer < len(m.buffers):
                raise Bad("tensor %s refers to buffer %d of %d" % (t.name, t.buffer, len(m.buffers)))
            self.attr[t.name.decode()] = (t.type, plain(t.shape), plain(t.shapeSignature), plain(t.quantization), t.isVariable,
                                          plain(m.buffers[t.buffer].data))
        def nm(i, what, optional):
            if i == -1 and optional:
                return -1
            if not 0 <= i < n:
                raise Bad("%s refers to tensor %d of %d" % (what, i, n))
            return self.names[i]
        self.inputs = [nm(i, "inputs", False) for i in lst(sg.inputs)]
        self.outputs = [nm(i, "outputs", False) for i in lst(sg.outputs)]
        made = set(self.inputs)
        for t in sg.tensors:
            if m.buffers[t.buffer].data is not None and len(m.buffers[t.buffer].data):
                made.add(t.name.decode())
        self.maker = {}
        for op in sg.operators or []:
            if not 0 <= op.opcodeIndex < len(m.operatorCodes):
                raise Bad("operator code %d" % op.opcodeIndex)
            name = opname(m, op)
            ins = [nm(i, "operator " + name, True) for i in lst(op.inputs)]
            outs = [nm(i, "operator " + name, False) for i in lst(op.outputs)]
            inter = [nm(i, "intermediates of " + name, False) for i in lst(op.intermediates)]
            for i in ins:
                if i != -1 and i not in made:
                    raise Bad("%s reads %s, which nothing has made yet" % (name, i))
            for o in outs:
                if o in self.maker or o in self.inputs:
                    raise Bad("%s is made twice" % o)
                made.add(o)
                self.maker[o] = len(self.ops)
            self.ops.append((name, tuple(ins), tuple(outs), tuple(inter), options(op)))
        for o in self.outputs:
            if o not in made:
                raise Bad("output %s is made by nothing" % o)

    def eval(self, given):
        """Symbolic values, hash-consed as tuples."""
        v = dict(given)
        for n, a in self.attr.items():
            if a[5] is not None and a[5] != ():
                v.setdefault(n, ("const", a[:4], a[5]))
        for name, ins, outs, inter, opt in self.ops:
            args = tuple(None if i == -1 else v[i] for i in ins)
            for k, o in enumerate(outs):
                v[o] = hash(("op", name, args, k, opt, self.attr[o][0], self.attr[o][3], len(inter)))
        return v

    def uses(self, t):
        return sum(list(i).count(t) for _, i, _, _, _ in self.ops)


def load(blob):
    if blob[4:8] != b"TFL3":
        raise Bad("no TFL3 identifier")
    return S.ModelT.InitFromObj(S.Model.GetRootAsModel(blob, 0))


def sig_maps(m):
    out = []
    for sd in m.signatureDefs or []:
        sg = m.subgraphs[sd.subgraphIndex]
        def nm(tm):
            if not 0 <= tm.tensorIndex < len(sg.tensors):
                raise Bad("signature %s refers to tensor %d of %d" % (sd.signatureKey, tm.tensorIndex, len(sg.tensors)))
            return sg.tensors[tm.tensorIndex].name.decode()
        out.append((sd.signatureKey, sd.subgraphIndex, [(t.name, nm(t)) for t in sd.inputs or []], [(t.name, nm(t)) for t in sd.outputs or []]))
    return out


def compare(before, after, changes):
    """changes[gi]: (allowed names per input, allowed names per output, removable casts: index of op -> tensors that may go)."""
    for what in ("version", "description"):
        if getattr(before, what) != getattr(after, what):
            raise Bad(what + " changed")
    for what in ("operatorCodes", "buffers", "metadata", "metadataBuffer"):
        if plain(getattr(before, what)) != plain(getattr(after, what)):
            raise Bad(what + " changed")
    if len(before.subgraphs) != len(after.subgraphs):
        raise Bad("number of subgraphs changed")
    views = []
    for gi, (ins, outs, casts) in enumerate(changes):
        a, b = View(before, gi), View(after, gi)
        views.append((a, b))
        if before.subgraphs[gi].name != after.subgraphs[gi].name:
            raise Bad("subgraph name changed")
        for what, al, got in (("input", ins, b.inputs), ("output", outs, b.outputs)):
            if len(al) != len(got):
                raise Bad("%d %ss instead of %d" % (len(got), what, len(al)))
            for p, (ok, g) in enumerate(zip(al, got)):
                if g not in ok:
                    raise Bad("%s %d is %s instead of %s" % (what, p, g, " or ".join(ok)))
        va = a.eval({n: ("in", p) for p, n in enumerate(a.inputs)})
        vb = b.eval({n: va[n] for n in b.inputs})
        for p, n in enumerate(b.outputs):
            if va[n] != vb[n]:
                raise Bad("output %d (%s) no longer computes what that tensor held" % (p, n))
        may_go = set(t for ts in casts.values() for t in ts)
        for n, at in a.attr.items():
            if n not in b.attr:
                if n not in may_go:
                    raise Bad("tensor %s is gone" % n)
            elif b.attr[n] != at:
                raise Bad("tensor %s changed: %s to %s" % (n, at, b.attr[n]))
        if set(b.attr) - set(a.attr):
            raise Bad("new tensors")
        left = collections.Counter(b.ops)
        for k, op in enumerate(a.ops):
            if left[op]:
                left[op] -= 1
            elif k not in casts:
                raise Bad("operator %s %s -> %s is gone or changed" % op[:3])
        if +left:
            raise Bad("new operators %s" % list(+left)[:2])
    sa, sb = sig_maps(before), sig_maps(after)
    if len(sa) != len(sb):
        raise Bad("signatures lost")
    for (k1, g1, i1, o1), (k2, g2, i2, o2) in zip(sa, sb):
        if (k1, g1) != (k2, g2):
            raise Bad("signatures reordered")
        a, b = views[g1]
        for what, l1, l2, t1, t2 in (("input", i1, i2, a.inputs, b.inputs), ("output", o1, o2, a.outputs, b.outputs)):
            if [n for n, _ in l1] != [n for n, _ in l2]:
                raise Bad("signature names changed")
            for (n, x), (_, y) in zip(l1, l2):
                want = {t2[p] for p in range(len(t1)) if t1[p] == x}
                if y not in want:
                    raise Bad("signature %s maps %s %s to %s instead of %s" % (k1.decode(), what, n.decode(), y, want))
                rep.count("signature_entries")
    return views


def plan_p01(m, want_in, want_out):
    """What may and what has to happen to the main subgraph. Returns changes, may_raise, must_raise."""
    changes, may, must = [], False, False
    kinds = [("QUANTIZE" if c.builtinCode == B.QUANTIZE else "DEQUANTIZE" if c.builtinCode == B.DEQUANTIZE else "") for c in m.operatorCodes]
    if "QUANTIZE" not in kinds and "DEQUANTIZE" not in kinds:
        may = must = True
    for gi in range(len(m.subgraphs)):
        v = View(m, gi)
        ins, outs, casts = [{n} for n in v.inputs], [{n} for n in v.outputs], {}
        if gi == 0:
            for k, (name, i, o, _, _) in enumerate(v.ops):
                if name == "QUANTIZE" and i[0] in v.inputs:
                    if v.attr[i[0]][0] != T.FLOAT32 or v.attr[o[0]][0] != T.INT8:
                        may = True
                        must |= want_in and not (v.uses(i[0]) > 1 or i[0] in v.outputs)
                    elif want_in:
                        conflict = v.uses(i[0]) > 1 or i[0] in v.outputs
                        p = v.inputs.index(i[0])
                        if conflict:
                            may = True
                            rep.count("shared_inputs")
                        else:
                            ins[p] = {o[0]}
                            casts[k] = [i[0]]
                            rep.count("input_casts")
                elif name == "DEQUANTIZE" and o[0] in v.outputs:
                    if v.attr[o[0]][0] != T.FLOAT32 or v.attr[i[0]][0] != T.INT8:
                        may = True
                        must |= want_out and not v.uses(o[0])
                    elif want_out:
                        conflict = v.uses(o[0]) > 0
                        for p, n in enumerate(v.outputs):
                            if n == o[0]:
                                outs[p] = {i[0], n} if conflict else {i[0]}
                        casts[k] = [o[0]]
                        if conflict:
                            may = True
                            rep.count("shared_outputs")
                        else:
                            rep.count("output_casts")
        changes.append((ins, outs, casts))
    return changes, may, must


def plan_p02(m):
    changes, may, must = [], False, False
    names = [c.customCode for c in m.operatorCodes]
    if b"LceDequantize" not in names and not any(c.builtinCode == B.DEQUANTIZE for c in m.operatorCodes):
        may = must = True
    for gi in range(len(m.subgraphs)):
        v = View(m, gi)
        ins, outs, casts = [{n} for n in v.inputs], [], {}
        for n in v.outputs:
            allowed, cur, shared = [n], n, False
            for step, (kind, froms, tos) in enumerate((("DEQUANTIZE", (T.INT8,), (T.FLOAT32,)), ("LceDequantize", (T.INT32,), (T.FLOAT32, T.INT8)))):
                k = v.maker.get(cur)
                if k is None or v.ops[k][0] != kind:
                    continue
                src = v.ops[k][1][0]
                if v.attr[src][0] not in froms or v.attr[cur][0] not in tos:
                    may = True
                    must |= not shared
                    break
                others = v.uses(cur) - (1 if step and len(allowed) > 1 else 0)
                # An intermediate value may also go out by itself.
                if others:
                    shared = may = True
                    rep.count("shared_outputs")
                casts[k] = [cur]
                rep.count("strips_" + kind)
                allowed.append(src)
                cur = src
            outs.append(set(allowed) if shared else {cur})
        changes.append((ins, outs, casts))
    return changes, may, must


def run_model(blob, feed, all_tensors):
    it = tf.lite.Interpreter(model_content=blob, num_threads=1, experimental_preserve_all_tensors=all_tensors,
                             experimental_op_resolver_type=tf.lite.experimental.OpResolverType.BUILTIN_WITHOUT_DEFAULT_DELEGATES)
    it.allocate_tensors()
    ids = [d["index"] for d in it.get_input_details()]
    for i, x in zip(it._interpreter.InputIndices(), feed):
        it.set_tensor(i, x)
    it.invoke()
    if all_tensors:
        return {d["name"]: it.get_tensor(d["index"]).copy() for d in it.get_tensor_details() if d["name"]}
    return [it.get_tensor(i).copy() for i in it._interpreter.OutputIndices()]


def case(seed, k):
    r = random.Random(seed * 1000003 + k)
    ex = PROP == "P01" and k % 4 == 0
    graphs, kinds = [], []
    for gi in range(1 if ex else r.choice([1, 1, 2, 3])):
        g, kk = build_graph(r, "g%d" % gi, ex)
        graphs.append(g)
        kinds.append(kk)
    blob = pack(r, graphs, r.random() < .5)
    before = load(blob)
    if PROP == "P01":
        wi, wo = r.random() < .7, r.random() < .7
        changes, may, must = plan_p01(before, wi, wo)
        f = lambda: modify_integer_quantized_model_io_type(blob, inference_input_type=tf.int8 if wi else tf.float32, inference_output_type=tf.int8 if wo else tf.float32)
        key = "in8" * wi + "out8" * wo
    else:
        changes, may, must = plan_p02(before)
        f = lambda: strip_lcedequantize_ops(blob)
        key = "strip"
    rep.count("evaluations")
    what = "%s of %s" % (key, kinds)
    rep.sig((key, kinds, [[o["kind"] for o in g.ops] for g in graphs]))
    if k < 6:
        rep.sample(what)
    try:
        after_blob = f()
    except ValueError as e:
        if not may:
            rep.viol("rejects", "%s: %s" % (what, e))
        rep.count("rejected")
        return
    except Exception as e:
        rep.viol("error:" + type(e).__name__, "%s: %r" % (what, e))
        return
    if must:
        rep.viol("accepts", "%s: a model that cannot be changed this way gave no error" % what)
        return
    try:
        after = load(after_blob)
        views = compare(before, after, changes)
    except Bad as e:
        msg = str(e)
        import re
        rep.viol("model:" + re.sub(r"g\d_\w+|\{.*|\d+", "N", msg)[:60], "%s: %s" % (what, msg))
        return
    rep.count("models_compared")
    rep.count("outputs_compared", sum(len(b.outputs) for _, b in views))
    if ex:
        a, b = views[0]
        feed = []
        rs = np.random.RandomState(r.randrange(2**31))
        for n in a.inputs:
            t = a.attr[n][0]
            feed.append(rs.uniform(-3, 3, (1, 4)).astype(np.float32) if t == T.FLOAT32 else rs.randint(-128, 128, (1, 4)).astype(np.int8))
        try:
            ref = run_model(blob, feed, True)
        except Exception:
            rep.count("not_executable")
            return
        got = run_model(after_blob, [ref[n] for n in b.inputs], False)
        for p, (n, y) in enumerate(zip(b.outputs, got)):
            if ref[n].dtype != y.dtype or not np.array_equal(ref[n], y):
                rep.viol("values", "%s: output %d is %s instead of %s" % (what, p, y, ref[n]))
            rep.count("executed_outputs_compared")


main(case, rep)
