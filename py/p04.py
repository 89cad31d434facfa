"""P04: Predict's batching, on a recording interpreter."""
import os
import random
import sys

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rep import REPO, Report, main, mock_module

for name in ("larq_compute_engine", "larq_compute_engine.tflite", "larq_compute_engine.tflite.python"):
    mock_module(name, __path__=[os.path.join(REPO, *name.split("."))])
from larq_compute_engine.tflite.python.interpreter_base import InterpreterBase, data_generator
from larq_compute_engine.tflite.python.interpreter import Interpreter

rep = Report()
DTYPES = [np.float32, np.int8, np.int32, np.bool_, np.uint8]


class Recorder:
    """A stand-in native interpreter: remembers what it was given and gives outputs from
    which sample and call number can be told."""

    def __init__(self, r, n_in, n_out, reuse, batch_out):
        self.calls, self.n_in, self.reuse = [], n_in, reuse
        self.out_shapes = [tuple([1] + [r.randint(1, 3) for _ in range(r.randint(0, 3))]) for _ in range(n_out)]
        self.out_types = [r.choice(DTYPES[:3]) for _ in range(n_out)]
        self.output_shapes = [s for s in self.out_shapes]
        self.output_types = self.out_types
        self.input_shapes, self.input_types = [(1,)] * n_in, [np.float32] * n_in
        self.input_scales, self.output_scales = [None] * n_in, [.5] * n_out
        self.input_zero_points, self.output_zero_points = [None] * n_in, [3] * n_out
        self.given, self.fails = [], None

    def predict(self, xs):
        self.calls.append([np.array(x, copy=True) if isinstance(x, np.ndarray) else x for x in xs])
        self.types = type(xs)
        k = len(self.calls)
        out = [np.full(s, (10 * k + j) % 127 if t is np.int8 else 10 * k + j, t) for j, (s, t) in enumerate(zip(self.out_shapes, self.out_types))]
        self.given.append([o.copy() for o in out])
        if k == self.fails:
            raise RuntimeError("the native interpreter fails")
        return out


class OwnIterator:
    def __init__(self, items, r):
        self.items, self.i = items, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.i >= len(self.items):
            raise StopIteration
        self.i += 1
        return self.items[self.i - 1]


def case(seed, k):
    r = random.Random(seed * 1000003 + k)
    n_in, n_out = r.choice([1, 1, 2, 3]), r.choice([1, 1, 2, 3])
    samples = r.choice([1, 1, 2, 3, 5, 12]) if r.random() < .97 else r.choice([65, 129, 300])
    rec = Recorder(r, n_in, n_out, False, False)
    it = InterpreterBase(rec)
    if r.random() < .3:
        ext = mock_module("larq_compute_engine.tflite.python.interpreter_wrapper_lite")
        seen = []
        ext.LiteInterpreter = lambda *a: (seen.append(a), rec)[1]
        args = [b"model", r.choice([1, 4]), r.random() < .5, r.random() < .5, r.random() < .5]
        it = Interpreter(*args)
        if tuple(args) != seen[0]:
            rep.viol("constructor", "Interpreter%s called the native constructor with %s" % (args, seen[0]))
        rep.count("constructors")
    for p in ("input", "output"):
        for q in ("types", "shapes", "scales", "zero_points"):
            if getattr(it, p + "_" + q) != getattr(rec, p + "_" + q):
                rep.viol("property", p + "_" + q)
    data = [[np.array(np.random.RandomState(r.randrange(2**31)).randint(0, 2 if t is np.bool_ else 100, sh), t)
             for _ in range(samples)]
            for t, sh in ((r.choice(DTYPES), [r.randint(1, 3) for _ in range(r.randint(0, 3))]) for _ in range(n_in))]
    per_sample = [[data[i][s] for i in range(n_in)] for s in range(samples)]
    stacked = [np.stack(d) for d in data]
    kind = r.choice(["array", "list", "list", "iter", "iter", "gen", "own", "map", "bad", "bad"])
    order = r.random()
    if order < .2:
        stacked = [np.asfortranarray(a) for a in stacked]
    elif order < .3:
        stacked = [np.flip(np.flip(a, 0).copy(), 0) for a in stacked]
    if kind == "array":
        if n_in > 1:
            kind = "list"
        else:
            x = stacked[0]
    if kind == "list":
        x = stacked
    # What an iterator yields: an array (one input), a list or a tuple.
    form = r.choice(["array", "list", "tuple"]) if n_in == 1 else r.choice(["list", "tuple"])
    wrap = lambda s: s[0] if form == "array" else list(s) if form == "list" else tuple(s)
    if kind == "iter":
        x = iter([wrap(s) for s in per_sample])
    elif kind == "gen":
        x = (wrap(s) for s in per_sample)
    elif kind == "own":
        x = OwnIterator([wrap(s) for s in per_sample], r)
    elif kind == "map":
        x = map(wrap, per_sample)
    verbose = r.choice([0, 0, 0, 1])
    rep.count("evaluations")
    if kind == "bad":
        what = r.choice(["tuple", "dict", "string", "number", "none", "set", "iterable", "bytes"])
        x = {"tuple": tuple(stacked), "dict": {"a": stacked[0]}, "string": "data", "number": 3.5, "none": None, "set": {1, 2},
             "iterable": range(3), "bytes": b"xx"}[what]
        try:
            it.predict(x, verbose)
            rep.viol("accepts:" + what, "predict accepted a " + what)
        except ValueError:
            pass
        except Exception as e:
            rep.viol("error:" + what, "predict raised %r for a %s" % (e, what))
        if rec.calls:
            rep.viol("computes:" + what, "the model was run")
        rep.count("rejected_inputs")
        rep.sig(("bad", what))
        return
    if r.random() < .05:
        rec.fails = r.randint(1, samples)
        try:
            it.predict(x, verbose=verbose)
            rep.viol("swallows:" + kind, "predict gave a result although run %d of %d failed" % (rec.fails, samples))
        except RuntimeError:
            pass
        except Exception as e:
            rep.viol("swallows:" + kind, "run %d of %d failed, predict raised %r" % (rec.fails, samples, e))
        rep.count("failing_runs")
        return
    got = it.predict(x, verbose=verbose) if verbose or r.random() < .5 else it.predict(x)
    rep.count("fed_as_" + kind)
    what = "%s of %s, %d samples, %d inputs, %d outputs" % (kind, form, samples, n_in, n_out)
    if len(rec.calls) != samples:
        rep.viol("count:" + kind, "%s: the model ran %d times" % (what, len(rec.calls)))
        return
    for s, call in enumerate(rec.calls):
        want = [np.expand_dims(a, 0) for a in per_sample[s]]
        if len(call) != n_in or any(not isinstance(c, np.ndarray) or c.dtype != w.dtype or c.shape != w.shape or c.tobytes() != np.ascontiguousarray(w).tobytes()
                                    for c, w in zip(call, want)):
            rep.viol("sample:" + kind, "%s: run %d got %s instead of %s" % (what, s, call, want))
        rep.count("samples_compared")
    want = [np.concatenate([g[j] for g in rec.given]) for j in range(n_out)]
    if n_out == 1:
        if not isinstance(got, np.ndarray):
            rep.viol("single output", "%s: a single-output model gave %s" % (what, type(got)))
            return
        got = [got]
    elif not isinstance(got, list) or len(got) != n_out:
        rep.viol("outputs", "%s: %d outputs gave %s" % (what, n_out, type(got)))
        return
    for j, (g, w) in enumerate(zip(got, want)):
        if g.dtype != w.dtype or g.shape != w.shape or not np.array_equal(g, w):
            rep.viol("output:" + kind, "%s: output %d is %s instead of %s" % (what, j, g, w))
        rep.count("outputs_compared")
    rep.sig((kind, form, samples, n_in, n_out, verbose, [a.shape for a in stacked], [str(a.dtype) for a in stacked]))
    if k < 6:
        rep.sample(what)


main(case, rep)
