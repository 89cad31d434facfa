"""The registry of checks: how each property is built, run and judged."""
import os
import re
import shutil

import check as C
from check import JOBS, NoVerdict, REPO, SEED, TIER, VERIF, Result, build_all, run_harness

CHECKS = {}
SHIM = os.path.join(VERIF, "shim")
ASAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"]
TSAN = ["-fsanitize=thread"]
CXX = ["clang++", "-std=c++17", "-gline-tables-only", "-fno-omit-frame-pointer", "-ffp-contract=off",
       "-DTFLITE_WITH_RUY", "-pthread", "-w"]


def quick(q, t):
    return q if TIER == "quick" else t


# ------------------------------------------------------------------- kernels
KSRC = ["tflite/kernels/bconv2d.cc", "tflite/kernels/bmaxpool.cc", "tflite/kernels/quantization.cc"]


def build_kernels(work, name, flags, defs=()):
    d = os.path.join(work, name)
    os.makedirs(d)
    inc = ["-I" + SHIM, "-I" + REPO, "-I" + os.path.join(VERIF, "kernels")]
    srcs = [os.path.join(VERIF, "kernels", "main.cc")] + [os.path.join(REPO, "larq_compute_engine", s) for s in KSRC]
    objs, cmds = [], []
    for s in srcs:
        o = os.path.join(d, os.path.basename(s) + ".o")
        objs.append(o)
        cmds.append(CXX + ["-O1"] + flags + list(defs) + inc + ["-c", s, "-o", o])
    build_all(cmds, "the operators")
    exe = os.path.join(d, "harness")
    build_all([CXX + flags + objs + ["-o", exe]], "the operators")
    return exe


def kernel_runner(pid, plan):
    """plan: list of (build name, flags, quick cases, thorough cases)."""
    def go(work):
        total = Result()
        for name, flags, q, t in plan:
            exe = build_kernels(work, name, flags)
            argv = lambda first, count, prog, exe=exe: [exe, pid, str(SEED), str(first), str(count), prog]
            r = run_harness(argv, quick(q, t))
            r.stat = {(k if k == "evaluations" or len(plan) == 1 else name + "_" + k): v for k, v in r.stat.items()}
            total.merge(r)
        return total
    return go


def kernel(pid, q, t, rule, must=(), plan=None):
    CHECKS[pid] = dict(
        run=kernel_runner(pid, plan or [("asan", ASAN, q, t)]), rule=rule, must_observe=list(must), min_evaluations=q // 4,
        assumptions=["TensorFlow Lite, ruy and flexbuffers are stand-ins (/verif/shim) with their documented contracts",
                     "x86-64 build: the AArch64 and Arm32 assembly paths are not executed by this check"])


CONV_RULE = ("random convolution nodes (batch 1-3, images 1x1 to 20x20, 1-512 input and 1-130 output channels, filters 1-7, "
             "strides and dilations per axis, groups, VALID / SAME with one or zero padding, every activation); distinct by full "
             "configuration; all have at least one output value compared with a from-the-definition oracle")
kernel("K01", 60000, 2000000, "random rows x columns, types, zero points inside, at and outside of the type's range, values incl. "
       "NaN, infinities and signed zeros; distinct by (type, rows, columns, zero point)", ["words", "with_padding_bits"])
kernel("K02", 40000, 1500000, "random rows x columns of random words incl. rubbish padding bits, default and custom result values; "
       "distinct by (type, rows, columns)", ["values", "roundtrip_words", "roundtrip_values"])
kernel("K03", 6000, 120000, CONV_RULE, ["runs_reference", "runs_bgemm", "runs_indirect"])
kernel("K04", 6000, 100000, CONV_RULE + "; output scales over 80 binary orders of magnitude", ["runs_reference", "runs_bgemm", "runs_indirect", "kernel_comparisons"])
kernel("K05", 6000, 120000, CONV_RULE + "; thresholds incl. INT_MIN, INT_MAX, -1 and K", ["runs_reference", "runs_bgemm", "runs_indirect"])
kernel("K06", 15000, 300000, CONV_RULE + "; zero padding only, small images preferred", ["border_" + b for b in
       ("T", "B", "L", "R", "TL", "TR", "BL", "BR", "TB", "LR", "TBLR")])
kernel("K07", 8000, 150000, CONV_RULE, ["compared_float", "compared_int8", "compared_bits", "grouped_offered"])
kernel("K08", 12000, 200000, CONV_RULE, ["compared_float", "compared_int8", "compared_bits"])
kernel("K09", 0, 0, CONV_RULE + "; each with 1, 2, 3 and 8 threads under random block partitions and orders of the multiplication; "
       "distinct by configuration and schedule", ["tsan_threaded_multiplications", "asan_threaded_multiplications"],
       plan=[("tsan", TSAN, 700, 12000), ("asan", ASAN, 900, 20000)])
kernel("K10", 20000, 500000, "random pooling nodes (batch, image, filter, stride per axis, padding, words); distinct by configuration", ["output_words"])
kernel("K11", 30000, 600000, "random ranks 1-5, types, scales, zero points and channel counts; distinct by configuration",
       ["quantized_words", "dequantized_values", "roundtrip_words"])
kernel("K12", 40000, 800000, "valid nodes with 0-3 random damages (missing or odd parameters, types, ranks, sizes, absent inputs, arity, "
       "failing resizes) judged by an independent acceptance rule; distinct by configuration and damage",
       ["judged_accept", "judged_reject", "judged_either", "failed_resizes", "accepted_and_run"])
kernel("K13", 20000, 300000, "random histories of 2-7 resizes, preparations (some of them failing), buffer moves, replaced constants and invocations over small networks, every "
       "invocation compared with a fresh interpreter; distinct by configuration and history",
       ["step_resize", "step_move", "step_prepare", "step_invoke", "step_again", "step_constants", "step_failure", "invocations_compared"])
kernel("K14", 12000, 200000, "random valid nodes run with three different contents of the 16 slack bytes, scratch and output memory "
       "under ASan and UBSan; distinct by configuration", ["memory_checks", "runs"])
kernel("K16", 0, 0, "2-6 threads each creating, invoking and destroying interpreters over shared models, three identical rounds; "
       "distinct by set of models and thread count", ["tsan_invocations_compared", "asan_leak_checks"],
       plan=[("tsan", TSAN, 800, 12000), ("asan", ASAN, 500, 8000)])


# ------------------------------------------------------------------- AArch64
A64_GUEST = ["clang++", "--target=aarch64-linux-gnu", "-std=c++17", "-O1", "-w", "-nostdinc++", "-nostdlibinc", "-fno-vectorize",
             "-fno-slp-vectorize", "-mno-outline-atomics", "-fPIC", "-ffp-contract=off", "-DTFLITE_WITH_RUY", "-DVERIF_A64"]
A64_EMU = ["clang++", "-std=c++17", "-O2", "-g", "-w", "-fsanitize=address", "-mllvm", "-asan-instrument-reads=0", "-mllvm",
           "-asan-instrument-writes=0"]


def system_includes():
    """The host compiler's header directories: the guest is compiled against the same
    declarations of the C and C++ libraries that it is going to call."""
    rc, out, err = C.run(["clang++", "-E", "-x", "c++", "/dev/null", "-v"], timeout=60)
    m = re.search(r"search starts here:\n(.*?)\nEnd of", out + err, re.S)
    if not m:
        raise NoVerdict("no header directories")
    dirs = [l.strip() for l in re.findall(r"^ (/.*)$", (out + err)[(out + err).index("#include <...>"):], re.M)]
    return [f for d in dirs for f in ("-isystem", d)]


def run_a64(pid, q, t):
    def go(work):
        a64, lce = os.path.join(VERIF, "a64"), os.path.join(REPO, "larq_compute_engine")
        inc = ["-I" + SHIM, "-I" + REPO]
        guest, host = [], []
        cmds = []
        for s in [os.path.join(lce, s) for s in KSRC] + [os.path.join(a64, "guest.cc")]:
            o = os.path.join(work, "g_" + os.path.basename(s) + ".o")
            guest.append(o)
            cmds.append(A64_GUEST + ["-isystem", os.path.join(a64, "sysinc")] + inc + system_includes() + ["-c", s, "-o", o])
        for s, cxx in (("kernels/main.cc", CXX + ["-O1", "-DVERIF_A64"] + ASAN), ("a64/bridge.cc", A64_EMU), ("a64/emu.cc", A64_EMU)):
            o = os.path.join(work, os.path.basename(s) + ".o")
            host.append(o)
            cmds.append(cxx + inc + ["-I" + os.path.join(VERIF, "kernels"), "-I" + a64, "-c", os.path.join(VERIF, s), "-o", o])
        build_all(cmds, "the AArch64 operators")
        image, exe = os.path.join(work, "guest.so"), os.path.join(work, "harness")
        build_all([["ld.lld", "-shared", "-Bsymbolic"] + guest + ["-o", image], CXX + ASAN + host + ["-ldl", "-o", exe]], "the AArch64 image")
        argv = lambda first, count, prog: [exe, pid, str(SEED), str(first), str(count), prog]
        return run_harness(argv, quick(q, t), per_case_s=20.0, env={"VERIF_A64_IMAGE": image, "ASAN_OPTIONS": "detect_leaks=0"})
    return go


A32_GUEST = ["clang++", "--target=armv7a-linux-gnueabihf", "-marm", "-mfpu=neon", "-std=c++17", "-fno-exceptions", "-fno-rtti",
             "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-O1", "-w", "-nostdinc++", "-nostdlibinc", "-fno-vectorize", "-fno-slp-vectorize", "-fPIC",
             "-ffp-contract=off", "-DTFLITE_WITH_RUY", "-DVERIF_A32"]


def run_a32(pid, q, t):
    def go(work):
        a32, lce = os.path.join(VERIF, "a32"), os.path.join(REPO, "larq_compute_engine")
        inc = ["-I" + SHIM, "-I" + REPO, "-I" + a32]
        guest, host, cmds = [], [], []
        for s in [os.path.join(lce, s) for s in KSRC] + [os.path.join(a32, "guest.cc")]:
            o = os.path.join(work, "g_" + os.path.basename(s) + ".o")
            guest.append(o)
            cmds.append(A32_GUEST + ["-isystem", os.path.join(a32, "sysinc")] + inc + system_includes() + ["-c", s, "-o", o])
        for s, cxx in (("kernels/main.cc", CXX + ["-O1", "-DVERIF_A32"] + ASAN), ("a32/bridge.cc", A64_EMU), ("a32/emu.cc", A64_EMU)):
            o = os.path.join(work, os.path.basename(s) + ".o")
            host.append(o)
            cmds.append(cxx + inc + ["-I" + os.path.join(VERIF, "kernels"), "-c", os.path.join(VERIF, s), "-o", o])
        build_all(cmds, "the 32-bit Arm operators")
        image, exe = os.path.join(work, "guest.so"), os.path.join(work, "harness")
        build_all([["ld.lld", "-shared", "-Bsymbolic"] + guest + ["-o", image], CXX + ASAN + host + ["-ldl", "-o", exe]], "the 32-bit Arm image")
        argv = lambda first, count, prog: [exe, pid, str(SEED), str(first), str(count), prog]
        return run_harness(argv, quick(q, t), per_case_s=20.0, env={"VERIF_A32_IMAGE": image, "ASAN_OPTIONS": "detect_leaks=0"})
    return go


CHECKS["A03"] = dict(
    run=run_a32("A03", 4000, 80000),
    rule=CONV_RULE + "; also large depths, pooling, packing, quantization, histories of resizes and moves, and runs with different slack "
    "contents, all on the 32-bit Arm build; distinct by configuration",
    must_observe=["runs_reference", "runs_bgemm", "runs_indirect", "executed_in_4x4_float", "executed_in_4x4_int8", "invocations_compared",
                  "memory_checks", "words", "quantized_words", "emulated_instructions", "emulated_vector_instructions", "loads_checked", "stores_checked", "returns_checked"],
    min_evaluations=2000,
    technique="the operators' real 32-bit Arm build (A32 with NEON, inline assembly included) executed by an instruction-level emulator whose "
              "every load and store is looked up in AddressSanitizer's shadow memory; values judged by from-the-definition oracles",
    assumptions=["the emulator (/verif/a32) interprets the A32, VFP and Advanced SIMD instructions as the architecture defines them; an "
                 "instruction it does not know ends the check without a verdict",
                 "the code is generated by clang 18 for armv7-a hard-float at -O1 without auto-vectorisation or contraction; the C library's "
                 "functions run natively",
                 "TensorFlow Lite, ruy and flexbuffers are stand-ins (/verif/shim) with their documented contracts; the emulated code runs on one thread",
                 "the Thumb build, which rounds with vcvtr, is not executed"])


def a64(pid, q, t, rule, must):
    CHECKS[pid] = dict(
        run=run_a64(pid, q, t), rule=rule, must_observe=must + ["emulated_instructions", "emulated_vector_instructions", "loads_checked", "stores_checked", "returns_checked"],
        min_evaluations=q // 2,
        technique="the operators' real AArch64 build (inline assembly and intrinsics included) executed by an instruction-level emulator whose "
                  "every load and store is looked up in AddressSanitizer's shadow memory; values judged by from-the-definition oracles",
        assumptions=["the emulator (/verif/a64) interprets the A64 instructions as the architecture defines them; an instruction it does not know "
                     "ends the check without a verdict",
                     "AArch64 code is generated by clang 18 at -O1 without auto-vectorisation or contraction; calls of the C and C++ libraries and "
                     "of TensorFlow Lite run natively",
                     "TensorFlow Lite, ruy and flexbuffers are stand-ins (/verif/shim) with their documented contracts; the emulated code runs on one thread",
                     "one 64-bit instruction set; the 32-bit one is A03's"])


a64("A01", 3200, 60000, CONV_RULE + "; also depths around 2^16 with sums at both ends of the range, pooling, histories of resizes and "
    "moves, and runs with different slack contents, all on the AArch64 build; distinct by configuration",
    ["runs_bgemm", "runs_indirect", "deep_16_bit", "deep_between", "deep_32_bit", "deep_exactly_2_to_16", "invocations_compared", "memory_checks"])
a64("A02", 24000, 400000, "random rows x columns (up to 1200), types and zero points packed by the AArch64 build, directly and through the "
    "quantize operator; distinct by (type, rows, columns, zero point)", ["words", "with_padding_bits", "quantized_words"])


def run_k15(work):
    """Everything that registers operators, in one program: the registration function on
    any resolver, the benchmark tool's main, the Java binding and the example."""
    total = Result()
    lce = os.path.join(REPO, "larq_compute_engine")
    srcs = [(os.path.join(VERIF, "kernels", "k15.cc"), [])] + [(os.path.join(lce, s), []) for s in KSRC] + [
        (os.path.join(lce, "tflite/benchmark/lce_benchmark_main.cc"), ["-Dmain=lce_benchmark_main"]),
        (os.path.join(lce, "tflite/benchmark/lce_benchmark_tflite_model.cc"), []),
        (os.path.join(lce, "tflite/java/lce_ops_jni.cc"), []),
        (os.path.join(REPO, "examples/lce_minimal.cc"), ["-Dmain=lce_minimal_main"])]
    inc = ["-I" + SHIM, "-I" + REPO, "-I" + os.path.join(VERIF, "kernels")]
    for name, cxx, q, t in (("ruy", CXX, 1200, 30000), ("portable", [c for c in CXX if c != "-DTFLITE_WITH_RUY"], 400, 8000)):
        d = os.path.join(work, name)
        os.makedirs(d)
        objs = [os.path.join(d, os.path.basename(s) + ".o") for s, _ in srcs]
        build_all([cxx + ["-O1"] + ASAN + f + inc + ["-c", s, "-o", o] for (s, f), o in zip(srcs, objs)], "the registration harness")
        exe = os.path.join(d, "harness")
        build_all([cxx + ASAN + objs + ["-o", exe]], "the registration harness")
        r = run_harness(lambda first, count, prog, exe=exe: [exe, "K15", str(SEED), str(first), str(count), prog], quick(q, t))
        r.stat = {(k if k == "evaluations" else name + "_" + k): v for k, v in r.stat.items()}
        total.merge(r)
    return total


CHECKS["K15"] = dict(
    run=run_k15, min_evaluations=400,
    rule="random histories of registrations on several resolvers, benchmark command lines, Java resolvers and example runs, built with "
         "and without ruy; what a name resolves to is told from the nodes it accepts and the values it computes; distinct by history or command line",
    must_observe=[b + "_" + k for b in ("ruy", "portable") for k in ("via_RegisterLCECustomOps", "via_benchmark", "via_java", "via_example",
                  "flags_reference", "flags_+indirect", "flags_reference+indirect", "flags_default", "operators_executed")],
    assumptions=["TensorFlow Lite's resolver, interpreter and benchmark tool are stand-ins (/verif/shim) with their documented contracts",
                 "the Python binding's flag passing is observed by P05"])
for p in ("K03", "K04", "K05", "K07", "K08", "K14"):
    CHECKS[p]["min_evaluations"] = 1000
CHECKS["K09"]["min_evaluations"] = 300
CHECKS["K16"]["min_evaluations"] = 300


# -------------------------------------------------------------------- Python
VENV = "/opt/lce/venv/bin/python"
PYENV = {"TF_USE_LEGACY_KERAS": "1", "TF_CPP_MIN_LOG_LEVEL": "3", "CUDA_VISIBLE_DEVICES": "-1", "TF_ENABLE_ONEDNN_OPTS": "0",
         "PYTHONDONTWRITEBYTECODE": "1", "VERIF_REPO": REPO, "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "2"}


def py_runner(script, q, t, build=None, per_case=2.0, **extra):
    def go(work):
        env = dict(PYENV, **extra)
        if build:
            env.update(build(work))
        argv = lambda first, count, prog: [VENV, os.path.join(VERIF, "py", script), str(SEED), str(first), str(count), prog]
        return run_harness(argv, quick(q, t), per_case_s=per_case, env=env, cwd=work)
    return go


def build_binding(work):
    lce = os.path.join(REPO, "larq_compute_engine")
    flags = CXX + ["-O1", "-fPIC", "-shared-libasan"] + ASAN + ["-I" + SHIM, "-I" + REPO, "-I" + os.path.join(VERIF, "kernels"),
            "-I/usr/include/python3.12", "-I/opt/lce/venv/lib/python3.12/site-packages/pybind11/include"]
    srcs = [os.path.join(lce, s) for s in KSRC] + [os.path.join(lce, "tflite/python/interpreter_wrapper_lite.cc"),
                                                    os.path.join(VERIF, "py", "binding_acc.cc")]
    objs = [os.path.join(work, os.path.basename(s) + ".o") for s in srcs]
    build_all([flags + ["-c", s, "-o", o] for s, o in zip(srcs, objs)], "the binding")
    so = os.path.join(work, "interpreter_wrapper_lite.so")
    build_all([flags + ["-shared"] + objs + ["-o", so]], "the binding")
    return dict(preload(), VERIF_BINDING=so)


CHECKS["P04"] = dict(
    run=py_runner("p04.py", 4000, 100000), min_evaluations=2000,
    rule="random sample counts, input and output counts, shapes, dtypes and memory orders, fed as arrays, lists, iterators, generators, maps and "
         "own iterator classes yielding arrays, lists or tuples, and unsupported kinds; distinct by all of that",
    must_observe=["fed_as_" + k for k in ("array", "list", "iter", "gen", "own", "map")] + ["samples_compared", "outputs_compared", "rejected_inputs", "constructors", "failing_runs"],
    assumptions=["the native interpreter is a recording stand-in", "zero samples, and lists whose arrays disagree in length, are left unspecified"])
CHECKS["P05"] = dict(
    run=py_runner("p05.py", 4000, 120000, build_binding), min_evaluations=2000,
    rule="random histories of metadata reads, accepted and refused predictions over one or two interpreters with random tensors, in eleven memory "
         "layouts; kernel flags told from the models accepted; distinct by history",
    must_observe=["layout_" + k for k in ("c", "fortran", "strided", "transposed", "negative", "readonly", "unaligned", "unpickled", "subclass", "alias", "memoryview")]
    + ["refused_" + k for k in ("count+", "count-", "type", "rank+", "rank-", "dim", "swap", "ragged", "object", "none")]
    + ["kernel_reference", "kernel_indirect", "kernel_bgemm", "arrays_compared", "kept_arrays_compared", "metadata_lists", "dropped_interpreters", "failing_models", "crowded_models", "inputs_that_are_outputs"],
    assumptions=["the interpreter behind the binding is a stand-in (/verif/shim) that copies tensors, counts invocations and runs the real operators",
                 "string tensors are not exercised"])
CHECKS["P03"] = dict(
    run=py_runner("p03.py", 640, 16000, per_case=30.0), min_evaluations=300,
    rule="random Keras models (functional with several inputs and outputs, sequential, subclassed, tf.function, larq layers, quantizers in the body or in "
         "functions, open and fixed batches), saved-model files and directories of every kind, valid and invalid options, failures of either route; "
         "what the back end receives is executed and compared with the model; distinct by model and options",
    must_observe=["first_route", "second_route", "saved_models_executed", "graphs_executed", "saved_models_converted", "failures", "interrupts", "float_models_refused",
                  "open_batches", "open_shapes_refused", "quantized_graphs", "quantizers_in_functions", "results_unchanged", "results_with_int8", "path_entry",
                  "path_fspath", "path_path", "path_str", "inputs_of_numbers"]
    + ["refused_" + k for k in ("options", "graph", "mixed_float16", "mixed_sequential", "none", "str", "layer", "module", "class", "positional")]
    + ["rejected_" + k for k in ("options", "version", "directory", "graph_mode")],
    assumptions=["the native module is a recording stand-in (its own behaviour is P06's)", "TensorFlow 2.16 with the legacy Keras it supports",
                 "the order of several outputs, and 8-bit inputs or outputs of a graph in which nothing is quantized, are left unspecified",
                 "the contents of modified flatbuffers are judged by P01"])
for p, q in (("P01", "the model IO"), ("P02", "the binarized dequantize operators")):
    CHECKS[p] = dict(
        run=py_runner("p01p02.py", 5000, 100000, VERIF_PROP=p), min_evaluations=3000,
        rule="random flatbuffer models (shared and multiple inputs and outputs, several signatures, extra subgraphs, intermediates, optional inputs) "
             "passed through the real surgery; the result is compared with the original by evaluating every output symbolically over the graph, "
             "following " + q + "; some models are executed by the TensorFlow Lite interpreter before and after; distinct by model bytes",
        must_observe=["models_compared", "outputs_compared", "signature_entries", "graphs_without_inputs", "operators_without_list", "rejected"]
        + (["input_casts", "output_casts", "executed_outputs_compared", "shared_inputs", "shared_outputs"] if p == "P01" else ["strips_DEQUANTIZE", "strips_LceDequantize"]),
        assumptions=["TensorFlow 2.16's generated schema module stands in for the build's generated schema",
                     "every kind of operator has one entry in the table of operator codes, as the converter writes it"])

# ------------------------------------------------------------------ converter
MSRC = os.path.join(VERIF, "mlir")
LLVM = "/usr/lib/llvm-18"
MASAN = ASAN + ["-fno-sanitize=vptr"]
TD = {"optimize": [("optimize_patterns_target_arm", "optimize_target_arm"), ("optimize_patterns_common", "optimize_target_other"),
                   ("bitpack_activations_patterns", "bitpack_activations")],
      "prepare_tf": [("prepare_patterns_target_arm", "prepare_target_arm"), ("prepare_patterns_common", "prepare_target_other")],
      "bitpack_weights": [("bitpack_weights_patterns", "bitpack_weights")], "quantize": [("quantize_patterns", "quantize")],
      "fuse_padding": [("fuse_padding", "fuse_padding")], "op_removal": [("op_removal_patterns", "op_removal")]}
MENV = {"ASAN_OPTIONS": C.SAN_ENV["ASAN_OPTIONS"] + ":detect_container_overflow=0"}


def preload():
    rc, out, _ = C.run(["clang++", "-print-file-name=libclang_rt.asan-x86_64.so"])
    return {"LD_PRELOAD": out.strip(), "PYTHONMALLOC": "malloc"}


def build_mlir(work, harness, passes, dialects=True, extra=(), defs=(), module=False):
    """A harness (or, with module, a Python extension module) of /verif/mlir linked with passes of the converter; the TableGen files are
    translated by gen.py, the passes are instrumented."""
    gen = os.path.join(work, "gen")
    lce = os.path.join(REPO, "larq_compute_engine")
    for d in ("verif_generated", "json", "larq_compute_engine/mlir/ir", "larq_compute_engine/mlir/transforms"):
        os.makedirs(os.path.join(gen, d))
    inc = ["-I" + gen, "-I" + MSRC + "/inc", "-I" + SHIM, "-I" + REPO, "-I" + LLVM + "/include", "-I" + os.path.join(VERIF, "kernels")]
    tds = []
    if dialects:
        I = MSRC + "/inc/tensorflow/compiler/mlir"
        tds = [("tfl", I + "/lite/ir/tfl_ops.td"), ("tf", I + "/tensorflow/ir/tf_ops.td"), ("tf_executor", I + "/tensorflow/ir/tf_executor.td"),
               ("lq", lce + "/mlir/ir/lce_ops.td")]
        for p in passes:
            tds += [(n, lce + "/mlir/transforms/%s.td" % s) for s, n in TD.get(p, [])]
    js = lambda n: os.path.join(gen, "json", n + ".json")
    build_all([[LLVM + "/bin/llvm-tblgen", "--dump-json", "-I" + MSRC + "/inc", "-I" + LLVM + "/include", "-I" + REPO, f, "-o", js(n)]
               for n, f in tds], "the TableGen records")
    g = []
    for n, _ in tds:
        if n in ("tfl", "tf"):
            g += [("op-decls", n, "verif_generated/%s_ops.h.inc" % n, n), ("op-defs", n, "verif_generated/%s_ops.cc.inc" % n, n)]
        elif n == "tf_executor":
            g += [("op-decls", n, "verif_generated/tf_executor.h.inc", n), ("op-defs", n, "verif_generated/tf_executor.cc.inc", n)]
        elif n == "lq":
            g += [("op-decls", n, "larq_compute_engine/mlir/ir/lce_ops.h.inc", n), ("op-defs", n, "larq_compute_engine/mlir/ir/lce_ops.cc.inc", n),
                  ("dialect-decls", n, "larq_compute_engine/mlir/ir/lce_dialect.h.inc", n), ("dialect-defs", n, "larq_compute_engine/mlir/ir/lce_dialect.cc.inc", n)]
        else:
            g += [("rewriters", n, "larq_compute_engine/mlir/transforms/generated_%s.inc" % n, "")]
    build_all([["python3", MSRC + "/gen.py", m, js(n), os.path.join(gen, out)] + ([d] if d else []) for m, n, out, d in g], "the generated code")
    cxx = [c for c in CXX if c not in ("-DTFLITE_WITH_RUY",)] + ["-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS"] + list(defs) + inc
    san = MASAN + (["-shared-libasan"] if module else [])
    if module:
        cxx += ["-fPIC", "-I/usr/include/python3.12", "-I/opt/lce/venv/lib/python3.12/site-packages/pybind11/include"]
    jobs = [(MSRC + "/" + harness, ["-O0" if module else "-O1"])]
    if dialects:
        jobs += [(MSRC + "/dialects.cc", ["-O0", "-g0"]), (lce + "/mlir/ir/lce_ops.cc", ["-O1"] + san), (lce + "/mlir/transforms/bitpack.cc", ["-O1"] + san)]
    jobs += [(lce + "/mlir/transforms/%s.cc" % p, ["-O1"] + san) for p in passes] + list(extra)
    objs, cmds = [], []
    for s, f in jobs:
        o = os.path.join(work, os.path.basename(s) + ".o")
        objs.append(o)
        cmds.append(cxx + list(f) + ["-c", s, "-o", o])
    build_all(cmds, "the converter passes")
    exe = os.path.join(work, "module.so" if module else "harness")
    build_all([cxx + san + (["-shared"] if module else []) + objs + ["-L" + LLVM + "/lib", "-lMLIR", "-lLLVM-18", "-Wl,-rpath," + LLVM + "/lib", "-o", exe]], "the converter passes")
    return exe


def mlir(pid, harness, passes, q, t, rule, must, dialects=True, extra=(), defs=(), assume=(), **kw):
    def go(work):
        exe = build_mlir(work, harness, passes, dialects, extra() if callable(extra) else extra, defs)
        return run_harness(lambda first, count, prog: [exe, pid, str(SEED), str(first), str(count), prog], quick(q, t), env=MENV)
    CHECKS[pid] = dict(run=go, rule=rule, must_observe=list(must), min_evaluations=q // 4,
                       assumptions=(["TensorFlow's dialects are stand-ins (/verif/mlir/inc, dialects.cc) holding the operators the converter mentions",
                                     "the TableGen patterns are translated by /verif/mlir/gen.py in place of mlir-tblgen"] if dialects else []) + list(assume), **kw)


mlir("C01", "c01.cc", ["set_batch_size"], 30000, 1000000,
     "random modules of 1-3 functions and declarations with 0-5 inputs of every kind of type (ranked, unranked, scalar, encoded, quantized, memref, vector, "
     "tuple, function), bodies with regions and several blocks, argument, result and function attributes; the pass's result is compared operation by "
     "operation with the original; distinct by module text", ["functions", "declarations", "inputs_expected_to_change", "inputs_expected_to_stay",
     "returned_inputs_expected_to_change"],
     dialects=False, assume=["the pass is run by the function pass manager on every function of a module"])
mlir("C02", "c02.cc", ["prepare_tf"], 20000, 400000,
     "random graphs of one sign (select over a condition or comparison, sign of sign plus a constant, explicit, absent; also scalars, dynamic shapes, "
     "other element types), an optional pad, space-to-batch or second use, and one or two convolutions (binary, scaled, nearly binary, zero or variable "
     "filters, grouped, strided, dilated, SAME/VALID/EXPLICIT, both layouts), both targets; executed before and after on two random inputs by an own "
     "interpreter; distinct by module text",
     ["convolutions_recognised", "convolutions_left", "signs_recognised", "recognised_select+-", "recognised_select-+", "recognised_sign+0.1",
      "recognised_filter_unit", "recognised_filter_scaled", "recognised_filter_nearly", "left_filter_off", "left_filter_zero", "recognised_SAME",
      "recognised_VALID", "left_EXPLICIT", "recognised_dilated-pattern", "recognised_padded0one", "left_padded0other", "left_select_other",
      "left_SAME-nchw", "values_compared"],
     assume=["NaN inputs are excluded", "a filter counts as binary when all magnitudes of a channel agree to half a percent, as documented in the code"])
mlir("C03", "c03.cc", ["optimize"], 30000, 800000,
     "random DAGs of up to eight binary convolutions (all paddings, groups, activations, constant and variable parameters), additions, subtractions, "
     "multiplications and divisions with constants of every broadcastable shape on either side, activations, poolings, comparisons of floats and "
     "integers and signs, with intermediate values among the results, both targets; executed before and after on exactly representable numbers "
     "(agreement to the bit) or arbitrary ones (up to rounding); distinct by module text",
     ["additions_merged", "multiplications_merged", "divisions_merged", "activations_merged", "pools_binarized", "comparisons_merged", "signs_merged",
      "outputs_bitpacked", "nothing_to_merge", "values_compared"],
     assume=["NaN inputs and divisions by zero are excluded"])
mlir("C04", "c04.cc", ["optimize"], 3000, 60000,
     "random binary convolutions (filters of up to 11x11 and up to 512 channels, odd and even sizes, groups, VALID and SAME-one padding, each activation, "
     "multipliers and biases of any sign, zero, tiny, huge, infinite, NaN or placed on a breaking point) with bitpacked output; thresholds written by the pass are "
     "compared, for every attainable accumulator, with the sign of the float output; distinct by module text",
     ["thresholded", "bits_compared", "bits_rounding_decides", "act_NONE", "act_RELU", "act_RELU6", "act_RELU_N1_TO_1", "positive", "negative", "zero", "odd_sizes", "even_sizes",
      "grouped", "big_filters", "infinite_or_nan"])
mlir("C06", "c06.cc", ["fuse_padding"], 20000, 400000,
     "random pads (of constants of 32 and 64 bits, variable amounts, batch and channel amounts, other pad values, negative) before convolutions of every "
     "stride, dilation, size and padding; executed before and after by the interpreter; distinct by module text", 
     ["fused_conv", "fused_depthwise", "fused_strided", "fused_unstrided", "fused_dilated", "fused_i64", "fused_pad", "fused_padv2_zero", "kept_shared",
      "kept_batch_padded", "kept_padv2_other", "values_compared"])
mlir("C05", "c05.cc", ["bitpack_weights"], 12000, 400000,
     "constants (full, splat, sparse; ranks 0-6, empty, up to 129 channels; float, integer and boolean; signed zeros, NaNs, denormals) behind lq.Quantize, "
     "i32 words behind lq.Dequantize to every type, chains of both and weights of convolutions; what the folders and the weight packing leave behind is "
     "compared word by word and value by value with packing and unpacking done by the interpreter; distinct by module text",
     ["weights_packed", "weights_grouped", "weights_splat", "weights_left", "words_compared", "convolutions_executed", "folded_quantize_f32",
      "folded_dequantize_f32", "folded_chain_f32", "folded_splat", "folded_empty", "left_misfit", "left_undeclared", "values_compared"],
     assume=["a constant of 2^31 or more elements is not tried"])
mlir("C07", "c07.cc", ["quantize"], 12000, 300000,
     "random DAGs of up to nine quantize, dequantize, binary and float operators over float, 8-bit (any scale and zero point), 16-bit, half and bitpacked "
     "tensors, with parameters of convolutions rounded to 8 bits (both, one or none), requantizations and intermediate values among the results; executed "
     "exactly before (parameters taken from before their rounding) and after; distinct by module text",
     ["convolutions_made_8bit", "unpackings_made_8bit", "packings_made_8bit", "parameters_unwrapped", "requantized", "one_parameter_wrapped",
      "unsupported_types", "values_compared"])
mlir("C10", "c10.cc", ["op_removal"], 20000, 500000,
     "random functions of up to twelve pass-through, ordinary, unknown and region-holding operators and constants of twelve kinds (also sparse, of unknown "
     "declared shape, NaNs with payload), with dead code and pass-through operators that change the type; what is left is compared operator by operator, "
     "operand by operand and constant by constant with the original; distinct by module text",
     ["removed", "operators_compared", "constants_compared", "kept_changing_type", "with_region", "with_sparse", "with_undeclared_constant",
      "with_tf.CheckNumerics", "with_tf.Identity", "with_tf.IdentityN", "with_tf.PlaceholderWithDefault", "with_tf.Snapshot", "with_tf.StopGradient"],
     assume=["functions of one block (operators may hold regions); a pass-through operator that changes the static type has to stay"])


def ksrc_jobs(flags=("-O1", "-DTFLITE_WITH_RUY", "-ffp-contract=off", "-pthread")):
    """The operators, for harnesses that run what the converter stores."""
    return [(os.path.join(REPO, "larq_compute_engine", s), list(flags) + MASAN) for s in KSRC]


KDEFS = ("-DTFLITE_WITH_RUY", "-ffp-contract=off", "-pthread")
RUNTIME = ["TensorFlow Lite, ruy and flexbuffers are stand-ins (/verif/shim) with their documented contracts"]
mlir("C08", "c08.cc", ["legalize_tflite"], 12000, 250000,
     "random binary operators (convolutions of every configuration the run time accepts, poolings, packings and unpackings of every rank and type, and "
     "attributes of any integers) lowered; the stored options are read back and compared, and the stored operator is run with the run-time kernels and "
     "compared with a from-the-definition oracle; distinct by module text",
     ["options_compared", "options_only", "run_LceBconv2d", "run_LceBMaxPool2d", "run_LceQuantize", "run_LceDequantize", "run_float", "run_int8", "run_bits",
      "run_grouped", "run_SAME0", "run_SAME1", "run_VALID", "run_act_NONE", "run_act_RELU", "run_act_RELU6", "run_act_RELU_N1_TO_1", "run_two_strides",
      "run_two_dilations", "values_compared"],
     extra=ksrc_jobs, defs=KDEFS, assume=RUNTIME + ["activations TANH and SIGN_BIT, which no kernel has, are excluded"])
mlir("C09", "c09.cc", ["legalize_tflite", "translate_tflite"], 16000, 400000,
     "random graphs of up to twelve binary operators with any integer attributes and operand types (dynamic, unranked, absent), custom operators of other "
     "or nearly the same names with random option bytes, unknown operators and constants; lowered, translated back and lowered again, compared operator by "
     "operator, operand by operand and byte by byte, with the rewriter's rounds counted; distinct by module text",
     ["round_trips", "mixed_graphs", "foreign_only_graphs", "foreign_kept", "ordinary_kept", "recovered_Bconv2d", "recovered_BMaxPool2d",
      "recovered_Quantize", "recovered_Dequantize", "rounds"],
     assume=RUNTIME + ["activations TANH and SIGN_BIT, which no kernel has, are excluded"])
mlir("C11", "c11.cc", ["detection_postprocess"], 16000, 400000,
     "random functions of one to three custom operators with the post-processing or other names, sources dequantized from int8 of any parameters, narrow "
     "ranges, per-axis, unsigned, 4, 16 and 32 bits, half floats, or not dequantized, shared between operators and also used as floats, odd counts of "
     "inputs and results, other result types, unranked results; compared, value by value, with the function the property asks for; distinct by module text",
     ["to_move", "to_stay", "graphs_with_moves", "graphs_untouched", "operators_compared"] +
     ["source_" + k for k in ("f16", "float", "i16", "i32", "i4", "i8", "none", "per-axis", "relu", "u8")])

# The whole converter, with stand-ins for TensorFlow's own passes (tfsim.cc).
PASSES = ["set_batch_size", "op_removal", "prepare_tf", "optimize", "bitpack_weights", "quantize", "detection_postprocess", "fuse_padding", "legalize_tflite"]
PIPELINE = ["TensorFlow's own passes are stand-ins (/verif/mlir/tfsim.cc) that do, for the operators that occur, what TensorFlow documents of them"]


def pipeline_jobs(kernels=True):
    lce = os.path.join(REPO, "larq_compute_engine", "mlir")
    return [(MSRC + "/tfsim.cc", ["-O0", "-g0"])] + [(os.path.join(lce, s), ["-O1"] + MASAN) for s in ("tf_tfl_passes.cc", "tf_to_tfl_flatbuffer.cc")] + (
        ksrc_jobs() if kernels else [])


mlir("C12", "c12.cc", PASSES + ["translate_tflite"], 60000, 2000000,
     "random functions of near misses of every pattern (signs, selects, comparisons, convolutions and their pads, poolings, binary convolutions with "
     "arithmetic, activations and quantization behind them, pass-through operators, post-processing, constants to fold) over known, dynamic, unranked, "
     "zero-sized and scalar tensors of every element type, opaque constants, filters without elements, foreign operators with and without effects; each "
     "pass alone, in the converter's order between MLIR's canonicalizer and CSE, and in random order, for both targets; after each: verified, at rest "
     "(below the rewriter's limit of rounds), at rest again when repeated, effects and signature kept, target respected, graphs without anything to "
     "rewrite untouched; distinct by module text",
     ["in_converter_order", "alone", "in_random_order", "target_arm", "target_xcore", "xcore_results_checked", "graphs_without_baits", "left_alone", "repeated",
      "constants_held_elsewhere", "filters_without_elements", "rounds"] +
     ["rewritten_by_" + p for p in ("op-removal", "prepare", "optimize", "bitpack-weights", "quantize", "detection-postprocess", "fuse-padding", "legalize", "translate",
                                    "set-batch-size")] +
     ["bait_" + b for b in ("sign", "select", "conv", "passthrough", "compare", "maxpool", "bconv", "pad", "quant", "detect", "folds")],
     assume=["operands have the ranks and matching element types TensorFlow and the binary operators require of them",
             "termination is observed as coming to rest within the rewriter's round limit, and as every case ending within the harness's time limit"])
mlir("C13", "c13.cc", PASSES, 3000, 90000,
     "random networks of binary (grouped, strided, dilated, padded with zeros, ones or nothing, with binary or latent filters), full-precision and "
     "batch-normalization layers, poolings, residuals, pads and quantization annotations, with weights as constants or variables, taken through the "
     "whole conversion for both targets; the result is inspected and executed by the run-time kernels, and its values compared with those of the "
     "original graph; distinct by module text",
     ["conversions", "target_arm", "target_xcore", "dynamic_batch", "quantized", "default_ranges", "weights_constant", "weights_arith", "weights_global",
      "weights_session", "filters_latent", "filters_behind_identity", "grouped", "padded_valid", "padded_zeros", "padded_ones", "signs_tie", "signs_select",
      "pools", "residuals", "nchw", "binary_convolutions", "binary_pools", "values_compared", "executions", "quantized_executions",
      "default_range_executions", "kernels_executed"],
     extra=pipeline_jobs, defs=KDEFS, assume=RUNTIME + PIPELINE + ["networks the run time has no kernel for (8-bit results of zero-padded convolutions of odd "
                                                                   "channels, for example) are excluded"])


def build_native(work):
    lce = os.path.join(REPO, "larq_compute_engine", "mlir")
    san = ["-O1"] + MASAN + ["-shared-libasan"]
    extra = [(MSRC + "/tfsim.cc", ["-O0", "-g0"])] + [(os.path.join(lce, s), san) for s in (
        "tf_tfl_passes.cc", "tf_to_tfl_flatbuffer.cc", "python/common.cc", "python/graphdef_tfl_flatbuffer.cc", "python/saved_model_tfl_flatbuffer.cc",
        "python/pybind_export.cc")]
    so = build_mlir(work, "p06_acc.cc", PASSES, extra=extra, module=True)
    return dict(preload(), VERIF_BINDING=so, **MENV)


CHECKS["P06"] = dict(
    run=py_runner("p06.py", 4000, 120000, build_native), min_evaluations=1000,
    rule="random calls of the native conversion functions (GraphDef and saved model routes: names, shapes, types, tags, directories, targets, quantization "
         "options, numbers of entry functions) on random networks, with failures injected, loud or silent, into every step outside this repository; "
         "distinct by options and network",
    must_observe=["conversions_graph", "conversions_saved_model", "conversions_to_text", "quantized", "not_quantized", "post_training", "with_default_ranges",
                  "variables", "without_bundle", "shapes_left_open", "long_names", "names", "binary_convolutions", "convolutions_kept_for_xcore"]
    + ["rejected_" + k for k in ("control_flow", "damage", "entry", "export", "freeze", "import", "names", "pass", "ranges", "target")],
    assumptions=PIPELINE + ["the importers and the exporter are recording stand-ins", "TensorFlow's dialects are stand-ins holding the operators the converter mentions",
                            "a name of more than 50 bytes may be cut a few bytes earlier, at the start of a character"])
