From e574d22f6c44dd3138a520699f4144cd1dc40fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 01/38] fix: zero-padding correction when the filter sticks out
 of opposite sides of the image

---
 .../core/bconv2d/zero_padding_correction.h    | 35 +++++++++++++++++--
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/larq_compute_engine/core/bconv2d/zero_padding_correction.h b/larq_compute_engine/core/bconv2d/zero_padding_correction.h
index a8767ee..753093f 100644
--- a/larq_compute_engine/core/bconv2d/zero_padding_correction.h
+++ b/larq_compute_engine/core/bconv2d/zero_padding_correction.h
@@ -18,6 +18,8 @@
 #ifndef COMPUTE_ENGINE_CORE_BCONV2D_ZERO_PADDING_CORRECTION_H_
 #define COMPUTE_ENGINE_CORE_BCONV2D_ZERO_PADDING_CORRECTION_H_
 
+#include <algorithm>
+
 #include "larq_compute_engine/core/bitpacking/bitpack.h"
 #include "larq_compute_engine/core/types.h"
 #include "tensorflow/lite/kernels/op_macros.h"
@@ -83,8 +85,9 @@ void CacheCorrectionValues(const TBitpacked* filter_data,
   //
   // So we could save this value for every tuple.
   // However (T) and (B) cannot be both true at the same time,
-  // and neither can (L) and (R) because we will assume that the (effective)
-  // filter size is always smaller than the image.
+  // and neither can (L) and (R) as long as the (effective) filter size is
+  // smaller than the image. (`ApplyCorrection` combines several of the cases
+  // below if it is not.)
   //
   // We have the following cases:
   //
@@ -259,7 +262,33 @@ void ApplyCorrection(const int input_batches, const int input_height,
           cache_X = (overflow_right >= 0 ? overflow_right : 0);
           cache_Y = overflow_bot;
         } else {
-          // This cannot happen.
+          // The image is smaller than the (effective) filter, and the kernel
+          // reaches or sticks out of opposite sides of it. A filter value that
+          // sticks out at the top or bottom *and* at the left or right must be
+          // counted once, so by inclusion-exclusion the correction is the sum
+          // of the four cases minus each of the sides on its own.
+          const int top = std::max(overflow_top, 0);
+          const int bot = std::max(overflow_bot, 0);
+          const int left = std::max(overflow_left, 0);
+          const int right = std::max(overflow_right, 0);
+          const auto cached = [&](int case_num, int cache_Y, int cache_X) {
+            return padding_cache +
+                   ((case_num * effective_filter_height + cache_Y) *
+                        effective_filter_width +
+                    cache_X) *
+                       filter_count;
+          };
+          float* output_ptr =
+              output_data +
+              ((batch * output_height + out_y) * output_width + out_x) *
+                  filter_count;
+          for (int out_c = 0; out_c < filter_count; ++out_c) {
+            output_ptr[out_c] +=
+                cached(0, top, left)[out_c] + cached(1, top, right)[out_c] +
+                cached(2, bot, left)[out_c] + cached(3, bot, right)[out_c] -
+                cached(0, top, 0)[out_c] - cached(0, 0, left)[out_c] -
+                cached(1, 0, right)[out_c] - cached(2, bot, 0)[out_c];
+          }
           continue;
         }
 
-- 
2.43.0


From de7337f2259e54236a4c3f9e817b4aa8388ed7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 02/38] fix: int8 output of a convolution wraps around when the
 value exceeds the int32 range

---
 larq_compute_engine/core/bconv2d/output_transform.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/larq_compute_engine/core/bconv2d/output_transform.h b/larq_compute_engine/core/bconv2d/output_transform.h
index d4ec72c..e42a2c3 100644
--- a/larq_compute_engine/core/bconv2d/output_transform.h
+++ b/larq_compute_engine/core/bconv2d/output_transform.h
@@ -138,7 +138,9 @@ struct OutputTransform<std::int8_t, OutputTransformDetails::Default> {
     // The linear transformation is done in float
     float y =
         static_cast<float>(x) * multiplier[out_channel] + bias[out_channel];
-    // And then we round back to int32 and clamp to the int8 range
+    // And then we round back to int32 and clamp to the int8 range. The float is
+    // clamped first, because it may lie outside of the int32 range.
+    y = std::min(std::max(y, -128.0f), 127.0f);
     return saturate(round(y));
   }
 };
-- 
2.43.0


From a68dd01a8f10e59b8e1a4eb9d708f7a0ea34fcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 03/38] fix: signed overflow when bitpacking 31 left-over
 columns with a zero point above the range

---
 larq_compute_engine/core/bitpacking/bitpack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larq_compute_engine/core/bitpacking/bitpack.h b/larq_compute_engine/core/bitpacking/bitpack.h
index acdaa1d..ba71c0f 100644
--- a/larq_compute_engine/core/bitpacking/bitpack.h
+++ b/larq_compute_engine/core/bitpacking/bitpack.h
@@ -276,7 +276,7 @@ inline void bitpack_matrix(const TIn* input, const std::size_t input_num_rows,
       // except the final element, which will have a prefix of ones with a
       // suffix of zeroes.
       const TBitpacked value_with_padding =
-          (1 << (input_num_cols % bitpacking_bitwidth)) - 1;
+          (std::uint32_t(1) << (input_num_cols % bitpacking_bitwidth)) - 1;
       int rows = input_num_rows;
       while (rows--) {
         std::fill(output, output + output_num_cols - 1, ~TBitpacked(0));
-- 
2.43.0


From 6bcf07ac6c80b4dbcd115635cbeaab3923816490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 04/38] fix: indirect BGEMM keeps using the kernel and input
 address of an earlier preparation

---
 larq_compute_engine/tflite/kernels/bconv2d.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/tflite/kernels/bconv2d.cc b/larq_compute_engine/tflite/kernels/bconv2d.cc
index 4eded66..aa927cd 100644
--- a/larq_compute_engine/tflite/kernels/bconv2d.cc
+++ b/larq_compute_engine/tflite/kernels/bconv2d.cc
@@ -59,6 +59,8 @@ struct OpData {
 
   // This is used for the 'indirect bgemm' kernel type.
   std::unique_ptr<core::indirect_bgemm::Kernel> indirect_bgemm_kernel;
+  // The input data that the indirection buffer of that kernel points into.
+  const TBitpacked* indirection_buffer_input = nullptr;
 
   // IDs are the arbitrary identifiers used by TF Lite to identify and access
   // memory buffers. They are unique in the entire TF Lite context.
@@ -295,6 +297,7 @@ TfLiteStatus Prepare(TfLiteContext* context, TfLiteNode* node) {
   // Prepare could be called multiple times; when the input tensor is resized,
   // we shoud always re-do the one-time setup.
   op_data->one_time_setup_complete = false;
+  op_data->indirect_bgemm_kernel.reset();
 
   return kTfLiteOk;
 }
@@ -484,9 +487,16 @@ void EvalOptIndirectBGEMM(TfLiteContext* context, TfLiteNode* node,
             output_transform));
     op_data->indirect_bgemm_kernel->PackWeights(
         GetTensorData<TBitpacked>(filter));
+    op_data->indirection_buffer_input = nullptr;
+  }
+
+  // The input can move without another call to `Prepare`, e.g. when the arena
+  // is released and acquired again.
+  const auto* input_data = GetTensorData<TBitpacked>(input);
+  if (op_data->indirection_buffer_input != input_data) {
     op_data->indirect_bgemm_kernel->FillIndirectionBuffer(
-        &op_data->params, bitpacked_input_shape, output_shape,
-        GetTensorData<TBitpacked>(input));
+        &op_data->params, bitpacked_input_shape, output_shape, input_data);
+    op_data->indirection_buffer_input = input_data;
   }
 
   BConv2DOptimizedIndirectBGEMM<DstScalar>(
-- 
2.43.0


From fc882c0d1a9593ad4c14e9a03cc759201477baa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 05/38] fix: null multiplier dereferenced for zero-padded
 reference convolutions with bitpacked output

---
 larq_compute_engine/tflite/kernels/bconv2d.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/tflite/kernels/bconv2d.cc b/larq_compute_engine/tflite/kernels/bconv2d.cc
index aa927cd..330c965 100644
--- a/larq_compute_engine/tflite/kernels/bconv2d.cc
+++ b/larq_compute_engine/tflite/kernels/bconv2d.cc
@@ -337,9 +337,10 @@ void OneTimeSetup(TfLiteContext* context, TfLiteNode* node, OpData* op_data) {
   const std::int32_t channels_in_per_group =
       bconv2d_params->channels_in / bconv2d_params->groups;
 
-  // For 'same-zero' padding, compute the padding-correction.
+  // For 'same-zero' padding, compute the padding-correction. This is only used
+  // (and the multiplier is only guaranteed to exist) when writing float output.
   if (bconv2d_params->padding_type == kTfLitePaddingSame &&
-      bconv2d_params->pad_value == 0) {
+      bconv2d_params->pad_value == 0 && output->type == kTfLiteFloat32) {
     op_data->padding_buffer.resize(zero_padding_correction::GetCacheSize(
         bconv2d_params->filter_height, bconv2d_params->filter_width,
         bconv2d_params->channels_out, bconv2d_params->dilation_height_factor,
-- 
2.43.0


From 7243c235bb850c867bfca1d77ff6b090cd75ac59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 06/38] fix: overflow when dequantizing to int8 with a very
 small scale

---
 larq_compute_engine/tflite/kernels/quantization.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/larq_compute_engine/tflite/kernels/quantization.cc b/larq_compute_engine/tflite/kernels/quantization.cc
index 68b826d..b5a3a15 100644
--- a/larq_compute_engine/tflite/kernels/quantization.cc
+++ b/larq_compute_engine/tflite/kernels/quantization.cc
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <type_traits>
 
 #include "larq_compute_engine/core/bitpacking/utils.h"
@@ -128,7 +129,8 @@ TfLiteStatus DequantizeEval(TfLiteContext* context, TfLiteNode* node) {
     unpack_matrix(GetTensorData<TBitpacked>(input), num_rows, num_cols,
                   GetTensorData<float>(output));
   } else if (output->type == kTfLiteInt8) {
-    int offset = TfLiteRound(1.0f / output->params.scale);
+    // Any offset of at least 255 saturates; clamp to not overflow an int.
+    int offset = TfLiteRound(std::min(1.0f / output->params.scale, 255.0f));
     std::int8_t zero_bit_result =
         std::min(127, output->params.zero_point + offset);
     std::int8_t one_bit_result =
-- 
2.43.0


From c63419f674a6e48e74f563396f8edd5b08d64c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 07/38] fix: reject malformed nodes instead of dividing by
 zero, dereferencing null or reading out of bounds

---
 larq_compute_engine/tflite/kernels/bconv2d.cc   | 17 +++++++++++++++++
 larq_compute_engine/tflite/kernels/bmaxpool.cc  |  8 ++++----
 .../tflite/kernels/quantization.cc              |  2 ++
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/larq_compute_engine/tflite/kernels/bconv2d.cc b/larq_compute_engine/tflite/kernels/bconv2d.cc
index 330c965..5ed9601 100644
--- a/larq_compute_engine/tflite/kernels/bconv2d.cc
+++ b/larq_compute_engine/tflite/kernels/bconv2d.cc
@@ -153,6 +153,9 @@ TfLiteStatus Prepare(TfLiteContext* context, TfLiteNode* node) {
   const auto* thresholds = GetInput(context, node, 4);
   auto* output = GetOutput(context, node, 0);
 
+  TF_LITE_ENSURE(context, input != nullptr);
+  TF_LITE_ENSURE(context, filter != nullptr);
+  TF_LITE_ENSURE(context, output != nullptr);
   TF_LITE_ENSURE_EQ(context, NumDimensions(input), 4);
   TF_LITE_ENSURE_EQ(context, NumDimensions(filter), 4);
   TF_LITE_ENSURE_EQ(context, input->type, kTfLiteInt32);
@@ -163,6 +166,17 @@ TfLiteStatus Prepare(TfLiteContext* context, TfLiteNode* node) {
                          output->type == kTfLiteFloat32,
                      "Supported output types are int8, int32, and float32.");
 
+  TF_LITE_ENSURE(context, bconv2d_params->stride_height > 0);
+  TF_LITE_ENSURE(context, bconv2d_params->stride_width > 0);
+  TF_LITE_ENSURE(context, bconv2d_params->dilation_height_factor > 0);
+  TF_LITE_ENSURE(context, bconv2d_params->dilation_width_factor > 0);
+  TF_LITE_ENSURE(context, bconv2d_params->channels_in > 0);
+  for (int i = 0; i < 4; ++i) {
+    TF_LITE_ENSURE(context, SizeOfDimension(filter, i) > 0);
+  }
+  TF_LITE_ENSURE_EQ(context, SizeOfDimension(input, 3),
+                    GetBitpackedSize(bconv2d_params->channels_in));
+
   // Read the filter dimensions
   bconv2d_params->channels_out = SizeOfDimension(filter, 0);
   bconv2d_params->filter_height = SizeOfDimension(filter, 1);
@@ -212,11 +226,14 @@ TfLiteStatus Prepare(TfLiteContext* context, TfLiteNode* node) {
       &out_width);
 
   if (output->type == kTfLiteInt32) {
+    TF_LITE_ENSURE(context, thresholds != nullptr);
     TF_LITE_ENSURE_EQ(context, NumDimensions(thresholds), 1);
     TF_LITE_ENSURE_EQ(context, thresholds->type, kTfLiteInt32);
     TF_LITE_ENSURE_EQ(context, SizeOfDimension(thresholds, 0),
                       bconv2d_params->channels_out);
   } else {
+    TF_LITE_ENSURE(context, post_activation_multiplier != nullptr);
+    TF_LITE_ENSURE(context, post_activation_bias != nullptr);
     TF_LITE_ENSURE_EQ(context, post_activation_multiplier->type,
                       kTfLiteFloat32);
     TF_LITE_ENSURE_EQ(context, post_activation_bias->type, kTfLiteFloat32);
diff --git a/larq_compute_engine/tflite/kernels/bmaxpool.cc b/larq_compute_engine/tflite/kernels/bmaxpool.cc
index 8ff7d6f..501fa49 100644
--- a/larq_compute_engine/tflite/kernels/bmaxpool.cc
+++ b/larq_compute_engine/tflite/kernels/bmaxpool.cc
@@ -48,10 +48,10 @@ TfLiteStatus Prepare(TfLiteContext* context, TfLiteNode* node) {
   TF_LITE_ENSURE_EQ(context, NumDimensions(input), 4);
   TF_LITE_ENSURE_EQ(context, input->type, kTfLiteInt32);
   TF_LITE_ENSURE_EQ(context, output->type, kTfLiteInt32);
-  TF_LITE_ENSURE(context, poolparams->stride_height != 0);
-  TF_LITE_ENSURE(context, poolparams->stride_width != 0);
-  TF_LITE_ENSURE(context, poolparams->filter_height != 0);
-  TF_LITE_ENSURE(context, poolparams->filter_width != 0);
+  TF_LITE_ENSURE(context, poolparams->stride_height > 0);
+  TF_LITE_ENSURE(context, poolparams->stride_width > 0);
+  TF_LITE_ENSURE(context, poolparams->filter_height > 0);
+  TF_LITE_ENSURE(context, poolparams->filter_width > 0);
 
   int height = SizeOfDimension(input, 1);
   int width = SizeOfDimension(input, 2);
diff --git a/larq_compute_engine/tflite/kernels/quantization.cc b/larq_compute_engine/tflite/kernels/quantization.cc
index b5a3a15..55a075d 100644
--- a/larq_compute_engine/tflite/kernels/quantization.cc
+++ b/larq_compute_engine/tflite/kernels/quantization.cc
@@ -30,6 +30,7 @@ TfLiteStatus QuantizePrepare(TfLiteContext* context, TfLiteNode* node) {
   TF_LITE_ENSURE_EQ(context, output->type, kTfLiteInt32);
 
   int num_dims = NumDimensions(input);
+  TF_LITE_ENSURE(context, num_dims > 0);
   TF_LITE_ENSURE_EQ(context, num_dims, NumDimensions(output));
 
   TfLiteIntArray* output_dims = TfLiteIntArrayCopy(input->dims);
@@ -54,6 +55,7 @@ TfLiteStatus DequantizePrepare(TfLiteContext* context, TfLiteNode* node) {
                               output->type == kTfLiteBool);
 
   int num_dims = NumDimensions(input);
+  TF_LITE_ENSURE(context, num_dims > 0);
 
   TF_LITE_ENSURE_EQ(context, num_dims, NumDimensions(output));
 
-- 
2.43.0


From b59dc224b8ff024bc558a86da2d7d9b24d504194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 08/38] fix: predict dereferences null for an input that is no
 array

---
 larq_compute_engine/tflite/python/interpreter_wrapper_utils.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h b/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
index a8fd5dc..6b8a88c 100644
--- a/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
+++ b/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
@@ -281,6 +281,9 @@ pybind11::list InterpreterWrapperBase<InterpreterType>::predict(
   for (size_t i = 0; i < inputs_size; ++i) {
     pybind11::array nparray =
         pybind11::array::ensure(input_list[i], pybind11::array::c_style);
+    if (!nparray) {
+      PY_ERROR("Input " << i << " cannot be converted to a numpy array.");
+    }
     const TfLiteTensor* tensor = get_tensor(interpreter_->inputs()[i]);
     if (!SetTensorFromNumpy(tensor, nparray)) {
       PY_ERROR("Failed to set tensor data of input " << i);
-- 
2.43.0


From b5343c2e1f0ce26509fe05171ffd434baafae0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 09/38] fix: predict refuses arrays whose dtype is equal but
 not the same object

---
 .../tflite/python/interpreter_wrapper_utils.h    | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h b/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
index 6b8a88c..781daca 100644
--- a/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
+++ b/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
@@ -94,14 +94,14 @@ class InterpreterWrapperBase {
 };
 
 TfLiteType TfLiteTypeFromPyType(pybind11::dtype py_type) {
-  if (py_type.is(pybind11::dtype::of<float>())) return kTfLiteFloat32;
-  if (py_type.is(pybind11::dtype::of<std::uint8_t>())) return kTfLiteUInt8;
-  if (py_type.is(pybind11::dtype::of<std::int8_t>())) return kTfLiteInt8;
-  if (py_type.is(pybind11::dtype::of<std::int16_t>())) return kTfLiteInt16;
-  if (py_type.is(pybind11::dtype::of<std::int32_t>())) return kTfLiteInt32;
-  if (py_type.is(pybind11::dtype::of<std::int64_t>())) return kTfLiteInt64;
-  if (py_type.is(pybind11::dtype::of<bool>())) return kTfLiteBool;
-  if (py_type.is(pybind11::dtype::of<char*>())) return kTfLiteString;
+  if (py_type.equal(pybind11::dtype::of<float>())) return kTfLiteFloat32;
+  if (py_type.equal(pybind11::dtype::of<std::uint8_t>())) return kTfLiteUInt8;
+  if (py_type.equal(pybind11::dtype::of<std::int8_t>())) return kTfLiteInt8;
+  if (py_type.equal(pybind11::dtype::of<std::int16_t>())) return kTfLiteInt16;
+  if (py_type.equal(pybind11::dtype::of<std::int32_t>())) return kTfLiteInt32;
+  if (py_type.equal(pybind11::dtype::of<std::int64_t>())) return kTfLiteInt64;
+  if (py_type.equal(pybind11::dtype::of<bool>())) return kTfLiteBool;
+  if (py_type.equal(pybind11::dtype::of<char*>())) return kTfLiteString;
   return kTfLiteNoType;
 }
 
-- 
2.43.0


From 6312a8e819245159c680208d2ef3f1024637d0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 10/38] fix: model surgery updates only the first signature,
 whichever subgraph it belongs to

---
 larq_compute_engine/mlir/python/util.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/larq_compute_engine/mlir/python/util.py b/larq_compute_engine/mlir/python/util.py
index df19b2f..8e85162 100644
--- a/larq_compute_engine/mlir/python/util.py
+++ b/larq_compute_engine/mlir/python/util.py
@@ -63,6 +63,15 @@ def _update_signature_def_tensors(tensor_maps, map_old_to_new_tensors):
             ]
 
 
+def _get_signature_defs(model: tflite_schema.ModelT, subgraph: tflite_schema.SubGraphT):
+    """Returns the SignatureDefs that refer to tensors of this subgraph."""
+    return [
+        signature_def
+        for signature_def in model.signatureDefs or []
+        if model.subgraphs[signature_def.subgraphIndex] is subgraph
+    ]
+
+
 def _remove_tensors_from_model(
     model: tflite_schema.ModelT, subgraph: tflite_schema.SubGraphT, remove_tensors_idxs
 ):
@@ -96,8 +105,7 @@ def _remove_tensors_from_model(
         for op in operators:
             update_tensors(op.inputs)
             update_tensors(op.outputs)
-        if model.signatureDefs:
-            signature_def = model.signatureDefs[0]
+        for signature_def in _get_signature_defs(model, subgraph):
             _update_signature_def_tensors(signature_def.inputs, d_old_to_new_tensors)
             _update_signature_def_tensors(signature_def.outputs, d_old_to_new_tensors)
         # Delete the tensors
@@ -194,8 +202,7 @@ def modify_integer_quantized_model_io_type(
         # Remove the inputs and the quant operator
         for op in input_quant_ops:
             subgraph.inputs[subgraph.inputs == op.inputs[0]] = op.outputs[0]
-            if model.signatureDefs:
-                signature_def = model.signatureDefs[0]
+            for signature_def in _get_signature_defs(model, subgraph):
                 for i in range(len(signature_def.inputs)):
                     if signature_def.inputs[i].tensorIndex == op.inputs[0]:
                         signature_def.inputs[i].tensorIndex = op.outputs[0]
@@ -207,8 +214,7 @@ def modify_integer_quantized_model_io_type(
         # Remove the outputs and the dequant operator
         for op in output_dequant_ops:
             subgraph.outputs[subgraph.outputs == op.outputs[0]] = op.inputs[0]
-            if model.signatureDefs:
-                signature_def = model.signatureDefs[0]
+            for signature_def in _get_signature_defs(model, subgraph):
                 for i in range(len(signature_def.outputs)):
                     if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                         signature_def.outputs[i].tensorIndex = op.inputs[0]
@@ -296,8 +302,7 @@ def _strip_lcedequantize_ops_subgraph(
         # Remove the Dequantize operators
         for op in output_dequant_ops:
             subgraph.outputs[subgraph.outputs == op.outputs[0]] = op.inputs[0]
-            if model.signatureDefs:
-                signature_def = model.signatureDefs[0]
+            for signature_def in _get_signature_defs(model, subgraph):
                 for i in range(len(signature_def.outputs)):
                     if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                         signature_def.outputs[i].tensorIndex = op.inputs[0]
@@ -353,8 +358,7 @@ def _strip_lcedequantize_ops_subgraph(
     # Remove the LceDequantize operators
     for op in lce_output_dequant_ops:
         subgraph.outputs[subgraph.outputs == op.outputs[0]] = op.inputs[0]
-        if model.signatureDefs:
-            signature_def = model.signatureDefs[0]
+        for signature_def in _get_signature_defs(model, subgraph):
             for i in range(len(signature_def.outputs)):
                 if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                     signature_def.outputs[i].tensorIndex = op.inputs[0]
-- 
2.43.0


From aaede37e557067cef33ad089438619ce64704fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 11/38] fix: model surgery leaves the intermediate tensors of
 operators dangling

---
 larq_compute_engine/mlir/python/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/larq_compute_engine/mlir/python/util.py b/larq_compute_engine/mlir/python/util.py
index 8e85162..edff47f 100644
--- a/larq_compute_engine/mlir/python/util.py
+++ b/larq_compute_engine/mlir/python/util.py
@@ -105,6 +105,8 @@ def _remove_tensors_from_model(
         for op in operators:
             update_tensors(op.inputs)
             update_tensors(op.outputs)
+            if op.intermediates is not None:
+                update_tensors(op.intermediates)
         for signature_def in _get_signature_defs(model, subgraph):
             _update_signature_def_tensors(signature_def.inputs, d_old_to_new_tensors)
             _update_signature_def_tensors(signature_def.outputs, d_old_to_new_tensors)
-- 
2.43.0


From f87d55f198d15ef20756b57a16be8e76a5bab5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 12/38] fix: model surgery removes tensors and operators that
 are still used

---
 larq_compute_engine/mlir/python/util.py | 38 +++++++++++++++++++------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/larq_compute_engine/mlir/python/util.py b/larq_compute_engine/mlir/python/util.py
index edff47f..b58dd60 100644
--- a/larq_compute_engine/mlir/python/util.py
+++ b/larq_compute_engine/mlir/python/util.py
@@ -72,6 +72,16 @@ def _get_signature_defs(model: tflite_schema.ModelT, subgraph: tflite_schema.Sub
     ]
 
 
+def _is_operator_input(
+    subgraph: tflite_schema.SubGraphT, tensor_idx, ignored_op=None
+) -> bool:
+    """Checks whether any operator (other than `ignored_op`) uses the tensor."""
+    return any(
+        op is not ignored_op and op.inputs is not None and tensor_idx in op.inputs
+        for op in subgraph.operators
+    )
+
+
 def _remove_tensors_from_model(
     model: tflite_schema.ModelT, subgraph: tflite_schema.SubGraphT, remove_tensors_idxs
 ):
@@ -139,8 +149,14 @@ def _find_int8_quantized_inputs_outputs(model):
     # Ensure model inputs and outputs are integer quantized
     input_quant_ops, output_dequant_ops = [], []
     for op in operators:
-        # Find input quantize operator
-        if op.opcodeIndex == quant_opcode_idx and op.inputs[0] in main_subgraph.inputs:
+        # Find input quantize operator. An input that is used by anything else has to
+        # stay a float input.
+        if (
+            op.opcodeIndex == quant_opcode_idx
+            and op.inputs[0] in main_subgraph.inputs
+            and op.inputs[0] not in main_subgraph.outputs
+            and not _is_operator_input(main_subgraph, op.inputs[0], ignored_op=op)
+        ):
             pos, float_tensor, int_tensor = (
                 "input",
                 tensors[op.inputs[0]],
@@ -220,8 +236,10 @@ def modify_integer_quantized_model_io_type(
                 for i in range(len(signature_def.outputs)):
                     if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                         signature_def.outputs[i].tensorIndex = op.inputs[0]
-            remove_tensors_idxs.add(op.outputs[0])
-            operators.remove(op)
+            # Keep the operator if anything else uses the dequantized tensor
+            if not _is_operator_input(subgraph, op.outputs[0]):
+                remove_tensors_idxs.add(op.outputs[0])
+                operators.remove(op)
 
     # Remove tensors marked for deletion.
     _remove_tensors_from_model(model, subgraph, remove_tensors_idxs)
@@ -308,8 +326,10 @@ def _strip_lcedequantize_ops_subgraph(
                 for i in range(len(signature_def.outputs)):
                     if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                         signature_def.outputs[i].tensorIndex = op.inputs[0]
-            remove_tensors_idxs.add(op.outputs[0])
-            operators.remove(op)
+            # Keep the operator if anything else uses the dequantized tensor
+            if not _is_operator_input(subgraph, op.outputs[0]):
+                remove_tensors_idxs.add(op.outputs[0])
+                operators.remove(op)
 
         # Remove tensors marked for deletion.
         _remove_tensors_from_model(model, subgraph, remove_tensors_idxs)
@@ -364,8 +384,10 @@ def _strip_lcedequantize_ops_subgraph(
             for i in range(len(signature_def.outputs)):
                 if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                     signature_def.outputs[i].tensorIndex = op.inputs[0]
-        remove_tensors_idxs.add(op.outputs[0])
-        operators.remove(op)
+        # Keep the operator if anything else uses the dequantized tensor
+        if not _is_operator_input(subgraph, op.outputs[0]):
+            remove_tensors_idxs.add(op.outputs[0])
+            operators.remove(op)
 
     # Remove tensors marked for deletion.
     _remove_tensors_from_model(model, subgraph, remove_tensors_idxs)
-- 
2.43.0


From 026eb41e6b5aa4ac5b87808f25d1f421d700976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 13/38] fix: read 64-bit paddings without misinterpreting them

---
 larq_compute_engine/mlir/transforms/padding.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/padding.h b/larq_compute_engine/mlir/transforms/padding.h
index 69a8c75..552abb0 100644
--- a/larq_compute_engine/mlir/transforms/padding.h
+++ b/larq_compute_engine/mlir/transforms/padding.h
@@ -15,6 +15,7 @@ inline DenseElementsAttr GetValidPadAttr(Attribute paddings_attr) {
   // The shape should be [4,2]
   auto pad_type = paddings.getType();
   if (pad_type.getRank() != 2) return nullptr;
+  if (!pad_type.getElementType().isIntOrIndex()) return nullptr;
   auto pad_shape = pad_type.getShape();
   if (pad_shape[0] != 4 || pad_shape[1] != 2) return nullptr;
   return paddings;
@@ -30,20 +31,26 @@ inline ShapeRefType GetShape4D(Value tensor) {
   return tensor_shape;
 }
 
+// Reads one value of a (32 or 64 bit) paddings attribute.
+inline int64_t GetPadding(DenseElementsAttr paddings, uint64_t dimension,
+                          uint64_t side) {
+  return paddings.getValues<APInt>()[{dimension, side}].getSExtValue();
+}
+
 inline bool IsSamePadding1D(DenseElementsAttr paddings, uint64_t dimension,
                             int input_size, int output_size, int stride) {
   using compute_engine::core::CeilDiv;
-  int pad_before = paddings.getValues<int>()[{dimension, 0}];
-  int pad_after = paddings.getValues<int>()[{dimension, 1}];
-  const int pad_total = pad_before + pad_after;
+  const int64_t pad_before = GetPadding(paddings, dimension, 0);
+  const int64_t pad_after = GetPadding(paddings, dimension, 1);
+  const int64_t pad_total = pad_before + pad_after;
   return (output_size == CeilDiv(input_size, stride)) &&
          (pad_before == (pad_total / 2)) &&
          (pad_after == ((pad_total + 1) / 2));
 }
 
 inline bool IsNoPadding(DenseElementsAttr paddings, uint64_t dimension) {
-  return paddings.getValues<int>()[{dimension, 0}] == 0 &&
-         paddings.getValues<int>()[{dimension, 1}] == 0;
+  return GetPadding(paddings, dimension, 0) == 0 &&
+         GetPadding(paddings, dimension, 1) == 0;
 }
 
 }  // namespace TFL
-- 
2.43.0


From 63a41bbb13d28003129afa74b2ed272cdcd4c4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 14/38] fix: do not treat padding of an unknown image size as
 SAME padding

---
 larq_compute_engine/mlir/transforms/padding.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/larq_compute_engine/mlir/transforms/padding.h b/larq_compute_engine/mlir/transforms/padding.h
index 552abb0..972cb7a 100644
--- a/larq_compute_engine/mlir/transforms/padding.h
+++ b/larq_compute_engine/mlir/transforms/padding.h
@@ -38,7 +38,10 @@ inline int64_t GetPadding(DenseElementsAttr paddings, uint64_t dimension,
 }
 
 inline bool IsSamePadding1D(DenseElementsAttr paddings, uint64_t dimension,
-                            int input_size, int output_size, int stride) {
+                            int64_t input_size, int64_t output_size,
+                            int64_t stride) {
+  if (ShapedType::isDynamic(input_size) || ShapedType::isDynamic(output_size))
+    return false;
   using compute_engine::core::CeilDiv;
   const int64_t pad_before = GetPadding(paddings, dimension, 0);
   const int64_t pad_after = GetPadding(paddings, dimension, 1);
-- 
2.43.0


From c2a9c67f8620f7c5fa25652224e39472090170e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 15/38] fix: pads of strided convolutions that differ from SAME
 padding are fused

---
 .../mlir/transforms/fuse_padding.cc           | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/fuse_padding.cc b/larq_compute_engine/mlir/transforms/fuse_padding.cc
index c6fced9..bd73e5c 100644
--- a/larq_compute_engine/mlir/transforms/fuse_padding.cc
+++ b/larq_compute_engine/mlir/transforms/fuse_padding.cc
@@ -26,9 +26,24 @@ bool IsSamePaddingPartial(Attribute paddings_attr, Value input, Value output,
   if (!strides_attr.isa<IntegerAttr>()) return false;
   const int stride = strides_attr.cast<IntegerAttr>().getInt();
 
-  // Check that there is no padding in the batch and channel dimensions
-  return IsSamePadding1D(paddings, dimension, input_shape[dimension],
-                         output_shape[dimension], stride);
+  if (!IsSamePadding1D(paddings, dimension, input_shape[dimension],
+                       output_shape[dimension], stride))
+    return false;
+
+  // With strides, the same output size can result from different amounts of
+  // padding. SAME padding is the smallest one, with the smaller half in front.
+  auto conv = output.getDefiningOp();
+  auto filter_shape = GetShape4D(conv->getOperand(1));
+  auto dilation = conv->getAttrOfType<IntegerAttr>(
+      dimension == 1 ? "dilation_h_factor" : "dilation_w_factor");
+  if (filter_shape.empty() || !dilation) return false;
+  if (ShapedType::isDynamic(filter_shape[dimension])) return false;
+  const int64_t same_total =
+      (output_shape[dimension] - 1) * stride +
+      (filter_shape[dimension] - 1) * dilation.getInt() + 1 -
+      input_shape[dimension];
+  return GetPadding(paddings, dimension, 0) ==
+         (same_total > 0 ? same_total / 2 : 0);
 }
 
 namespace fuse_padding {
-- 
2.43.0


From 366bda29daf36f6d615a4b3f888ea7e1924ab118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:48 +0000
Subject: [PATCH 16/38] fix: signs and selects are binarized although they
 compute something else

---
 larq_compute_engine/mlir/transforms/common.h  |  1 +
 .../transforms/prepare_patterns_common.td     | 24 ++++++++++++++-----
 .../mlir/transforms/prepare_tf.cc             | 16 +++++++++++++
 3 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/common.h b/larq_compute_engine/mlir/transforms/common.h
index d192d9c..aecfe9d 100644
--- a/larq_compute_engine/mlir/transforms/common.h
+++ b/larq_compute_engine/mlir/transforms/common.h
@@ -8,6 +8,7 @@ namespace TFL {
 
 inline bool IsConstantValue(Attribute values, float expected_value) {
   if (!values.isa<DenseElementsAttr>()) return false;
+  if (!values.cast<DenseElementsAttr>().getElementType().isF32()) return false;
 
   for (auto value : values.cast<DenseElementsAttr>().getValues<float>()) {
     if (value != expected_value) return false;
diff --git a/larq_compute_engine/mlir/transforms/prepare_patterns_common.td b/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
index 3eed4cf..555eb5f 100644
--- a/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
+++ b/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
@@ -22,6 +22,9 @@ def CreateTFBroadcastToOp : NativeCodeCall<
 def CreateTFShapeOp : NativeCodeCall<
     "$_builder.create<TF::ShapeOp>($0.getLoc(), $1, $2)">;
 
+// A tensor with at least one dimension, and a known number of channels.
+def KnownChannels : Constraint<CPred<"HasKnownChannels($0)">>;
+
 // Base quantiser patterns that match the `tf.where` implementation of `ste_sign`.
 multiclass QuantDequantPatterns<Op SelectOp> {
   def : Pat<(SelectOp:$select_op
@@ -37,7 +40,7 @@ multiclass QuantDequantPatterns<Op SelectOp> {
                             $select_op,
                             $select_op,
                             /*use 32bit*/ConstBoolAttrFalse)))),
-            []>;
+            [(AnyStaticShapeTensor $select_op), (KnownChannels $select_op)]>;
   def : Pat<(SelectOp:$select_op
                 $cond,
                 (Arith_ConstantOp ConstantValue<"-1.0f">),
@@ -51,17 +54,26 @@ multiclass QuantDequantPatterns<Op SelectOp> {
                             $select_op,
                             $select_op,
                             /*use 32bit*/ConstBoolAttrFalse)))),
-            []>;
+            [(AnyStaticShapeTensor $select_op), (KnownChannels $select_op)]>;
 }
 foreach SelectOp = [TF_SelectOp, TF_SelectV2Op]<Op> in
   defm : QuantDequantPatterns<SelectOp>;
 
 // A fallback for the old version of `ste_sign` that uses a specific `tf.sign`
 // based implementation of `larq.math.sign`.
-def : Pat<(TF_SignOp (TF_AddV2Op (TF_SignOp $arg), $c)),
-          (LQ_DequantizeOp (LQ_QuantizeOp $arg)), []>;
-def : Pat<(TF_SignOp (TF_AddV2Op $c, (TF_SignOp $arg))),
-          (LQ_DequantizeOp (LQ_QuantizeOp $arg)), []>;
+// The constant may only decide the sign of zero, and must not change the shape.
+def SignTieBreaker : Constraint<CPred<"IsSignTieBreaker($0)">>;
+def SameType : Constraint<CPred<"$0.getType() == $1.getType()">>;
+def : Pat<(TF_SignOp:$output
+              (TF_AddV2Op (TF_SignOp $arg), (Arith_ConstantOp $c))),
+          (LQ_DequantizeOp (LQ_QuantizeOp $arg)),
+          [(SignTieBreaker $c), (SameType $arg, $output),
+           (KnownChannels $arg)]>;
+def : Pat<(TF_SignOp:$output
+              (TF_AddV2Op (Arith_ConstantOp $c), (TF_SignOp $arg))),
+          (LQ_DequantizeOp (LQ_QuantizeOp $arg)),
+          [(SignTieBreaker $c), (SameType $arg, $output),
+           (KnownChannels $arg)]>;
 
 // Copied from legalize_patterns.td
 class I32VectorElementsAttr<int len> : ElementsAttrBase<
diff --git a/larq_compute_engine/mlir/transforms/prepare_tf.cc b/larq_compute_engine/mlir/transforms/prepare_tf.cc
index 111fc6b..8383c2c 100644
--- a/larq_compute_engine/mlir/transforms/prepare_tf.cc
+++ b/larq_compute_engine/mlir/transforms/prepare_tf.cc
@@ -89,6 +89,22 @@ bool IsBinaryFilter(TypedAttr filter_attr) {
   return true;
 }
 
+// Whether `sign(sign(x) + c)` is the sign of `x`, with +1 for zero.
+bool IsSignTieBreaker(Attribute c) {
+  if (!c.isa<DenseElementsAttr>()) return false;
+  auto values = c.cast<DenseElementsAttr>();
+  if (!values.getElementType().isF32()) return false;
+  for (auto value : values.getValues<float>()) {
+    if (!(value > 0.0f && value < 1.0f)) return false;
+  }
+  return true;
+}
+
+bool HasKnownChannels(Value value) {
+  auto type = value.getType().dyn_cast<RankedTensorType>();
+  return type && type.getRank() > 0 && !type.isDynamicDim(type.getRank() - 1);
+}
+
 bool IsSamePadding(Attribute paddings_attr, Value input, Value output,
                    ArrayAttr strides_attr) {
   auto paddings = GetValidPadAttr(paddings_attr);
-- 
2.43.0


From b13cf4e575b7518dc11799cc019eaf423f6cea03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 17/38] fix: comparisons of non-float or broadcasted tensors
 are binarized wrongly

---
 .../mlir/transforms/optimize_patterns_common.td      | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/optimize_patterns_common.td b/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
index 9bc11fa..cf35345 100644
--- a/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
+++ b/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
@@ -11,6 +11,13 @@ def F32ElementsAttr : ElementsAttrBase<
 // Checks if the value has only one user.
 def HasOneUse : Constraint<CPred<"$0.hasOneUse()">>;
 
+def IsF32 : Constraint<CPred<"getElementTypeOrSelf($0.getType()).isF32()">>;
+def SameShape : Constraint<
+    CPred<"$0.getType().cast<ShapedType>().hasRank() && "
+          "$1.getType().cast<ShapedType>().hasRank() && "
+          "$0.getType().cast<ShapedType>().getShape() == "
+          "$1.getType().cast<ShapedType>().getShape()">>;
+
 class ConstantValue<string val> : AttrConstraint<CPred<"IsConstantValue($_self, " # val # ")">>;
 
 // This pattern has priority (addBenefit) over the more generic pattern below
@@ -19,7 +26,8 @@ def : Pat<(LQ_QuantizeOp
                   $input,
                   (Arith_ConstantOp ConstantValue<"0.0f">))),
           (LQ_QuantizeOp $input),
-          [(HasOneUse $ge_op)], [], (addBenefit 100)>;
+          [(HasOneUse $ge_op), (IsF32 $input), (SameShape $input, $ge_op)],
+          [], (addBenefit 100)>;
 
 def : Pat<(LQ_QuantizeOp
               (TFL_GreaterEqualOp:$ge_op
@@ -27,7 +35,7 @@ def : Pat<(LQ_QuantizeOp
                   $threshold)),
           (LQ_QuantizeOp
               (TFL_SubOp $input, $threshold, TFL_AF_None)),
-          [(HasOneUse $ge_op)]>;
+          [(HasOneUse $ge_op), (IsF32 $input)]>;
 
 def : Pat<(LQ_QuantizeOp
               (TFL_LessEqualOp:$ge_op $lhs, $rhs)),
-- 
2.43.0


From c113f1c911caad5e23cf988b0dfe985513c96789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 18/38] fix: arithmetic with a constant that is not per channel
 is fused into binary convolutions

---
 larq_compute_engine/mlir/transforms/optimize.cc | 13 +++++++++++++
 .../mlir/transforms/optimize_patterns_common.td | 17 +++++++++++------
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/optimize.cc b/larq_compute_engine/mlir/transforms/optimize.cc
index 9646a3d..8e7a196 100644
--- a/larq_compute_engine/mlir/transforms/optimize.cc
+++ b/larq_compute_engine/mlir/transforms/optimize.cc
@@ -243,6 +243,19 @@ DenseElementsAttr GetBitpackedOutputThresholds(
   return DenseElementsAttr::get(type, thresholds);
 }
 
+// Whether a constant is a scalar or a vector that has one element, or one for
+// each channel of `output`.
+bool IsPerChannelValue(TypedAttr value, Value output) {
+  auto value_type = value.getType().dyn_cast<RankedTensorType>();
+  auto output_type = output.getType().dyn_cast<RankedTensorType>();
+  if (!value_type || !output_type || output_type.getRank() == 0) return false;
+  if (value_type.getRank() == 0) return true;
+  if (value_type.getRank() != 1) return false;
+  return value_type.getDimSize(0) == 1 ||
+         value_type.getDimSize(0) ==
+             output_type.getDimSize(output_type.getRank() - 1);
+}
+
 namespace optimize_target_arm {
 #include "larq_compute_engine/mlir/transforms/generated_optimize_target_arm.inc"
 }
diff --git a/larq_compute_engine/mlir/transforms/optimize_patterns_common.td b/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
index cf35345..f74bf7d 100644
--- a/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
+++ b/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
@@ -43,9 +43,13 @@ def : Pat<(LQ_QuantizeOp
               (TFL_GreaterEqualOp $rhs, $lhs)),
           [(HasOneUse $ge_op)]>;
 
-// TODO: Check shapes before fusing
+// The post-activation parameters are vectors, so only values that are the same
+// for all pixels can be merged into them, and the shape must not change.
+def IsPerChannel : Constraint<CPred<"IsPerChannelValue($0, $1)">>;
+def SameType : Constraint<CPred<"$0.getType() == $1.getType()">>;
+
 multiclass FuseAddOrSubWithBConv2D<Op binaryOp> {
-  def : Pat<(binaryOp
+  def : Pat<(binaryOp:$result
                 (LQ_Bconv2dOp:$output
                     $input,
                     $filter,
@@ -76,14 +80,14 @@ multiclass FuseAddOrSubWithBConv2D<Op binaryOp> {
                 $padding,
                 $stride_height,
                 $stride_width),
-            [(HasOneUse $output)]>;
+            [(HasOneUse $output), (IsPerChannel $value, $output),
+             (SameType $result, $output)]>;
 }
 foreach binaryOp = [TFL_AddOp, TFL_SubOp] in
   defm : FuseAddOrSubWithBConv2D<binaryOp>;
 
-// TODO: Check shapes before fusing
 multiclass FuseMulOrDivWithBConv2D<Op binaryOp> {
-  def : Pat<(binaryOp
+  def : Pat<(binaryOp:$result
                 (LQ_Bconv2dOp:$conv_output
                     $input,
                     $filter,
@@ -115,7 +119,8 @@ multiclass FuseMulOrDivWithBConv2D<Op binaryOp> {
                 $padding,
                 $stride_height,
                 $stride_width),
-            [(HasOneUse $conv_output)]>;
+            [(HasOneUse $conv_output), (IsPerChannel $value, $conv_output),
+             (SameType $result, $conv_output)]>;
 }
 foreach binaryOp = [TFL_DivOp, TFL_MulOp] in
   defm : FuseMulOrDivWithBConv2D<binaryOp>;
-- 
2.43.0


From 104ebeba421e3611d2b457d9e5aef28acf23eede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 19/38] fix: activation dropped when max pooling is binarized

---
 .../mlir/transforms/optimize_patterns_target_arm.td             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td b/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td
index 36f8a4b..e1f01af 100644
--- a/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td
+++ b/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td
@@ -9,7 +9,7 @@ def : Pat<(LQ_QuantizeOp
                   $stride_h,
                   $filter_width,
                   $filter_height,
-                  $fused_activation_function)),
+                  TFL_AF_None)),
           (LQ_BMaxPool2dOp
               (LQ_QuantizeOp $input),
               $padding,
-- 
2.43.0


From ad8ff82b2c736633657edadcc4aac8a0802e5135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 20/38] fix: thresholds of bitpacked outputs round small biases
 away

---
 .../mlir/transforms/optimize.cc               | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/optimize.cc b/larq_compute_engine/mlir/transforms/optimize.cc
index 8e7a196..d67c92c 100644
--- a/larq_compute_engine/mlir/transforms/optimize.cc
+++ b/larq_compute_engine/mlir/transforms/optimize.cc
@@ -126,9 +126,10 @@ struct OptimizeLCE
  * `optimize_patterns_common.td`.
  */
 void ComputeWriteBitpackedOutputThresholds(
-    Builder& builder, const float backtransform_add, const float clamp_min,
-    const float clamp_max, const DenseElementsAttr& multipliers,
-    const DenseElementsAttr& biases, std::vector<Attribute>& thresholds) {
+    Builder& builder, const std::int32_t backtransform_add,
+    const float clamp_min, const float clamp_max,
+    const DenseElementsAttr& multipliers, const DenseElementsAttr& biases,
+    std::vector<Attribute>& thresholds) {
   assert(thresholds.size() == 0);
 
   const auto element_type = builder.getIntegerType(32);
@@ -180,10 +181,14 @@ void ComputeWriteBitpackedOutputThresholds(
       continue;
     }
 
-    // The general case.
+    // The general case. The even part of `a` is added after rounding down, so
+    // that it cannot absorb a small 𝛃 / 𝛄.
+    const double bias_ratio = static_cast<double>(bias) / std::abs(mult);
     thresholds.push_back(IntegerAttr::get(
         element_type,
-        std::floor(0.5 * (bias / std::abs(mult) + backtransform_add))));
+        static_cast<std::int64_t>(
+            std::floor(0.5 * (bias_ratio + backtransform_add % 2))) +
+            backtransform_add / 2));
   }
 }
 
@@ -234,9 +239,9 @@ DenseElementsAttr GetBitpackedOutputThresholds(
 
   std::vector<Attribute> thresholds;
   ComputeWriteBitpackedOutputThresholds(
-      builder, static_cast<float>(backtransform_add),
-      static_cast<float>(clamp_min), static_cast<float>(clamp_max),
-      post_activation_multiplier, post_activation_bias, thresholds);
+      builder, backtransform_add, static_cast<float>(clamp_min),
+      static_cast<float>(clamp_max), post_activation_multiplier,
+      post_activation_bias, thresholds);
 
   const RankedTensorType type = RankedTensorType::get(
       {(std::int32_t)thresholds.size()}, builder.getIntegerType(32));
-- 
2.43.0


From 14b5b053293b55041410dc05c17798ebf85e7629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:40 +0000
Subject: [PATCH 21/38] fix: folding constants of other ranks or types reads
 out of bounds or crashes

The constant folders of lq.Quantize and lq.Dequantize assumed dense constants of
rank 4, and that everything that is not float32 is quantized to 8 bits. Dense
attributes of a quantized element type cannot be created either. Leave all of
these unfolded.
---
 .../mlir/transforms/bitpack.cc                | 52 +++++++------------
 1 file changed, 18 insertions(+), 34 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/bitpack.cc b/larq_compute_engine/mlir/transforms/bitpack.cc
index cbde408..dc5fb90 100644
--- a/larq_compute_engine/mlir/transforms/bitpack.cc
+++ b/larq_compute_engine/mlir/transforms/bitpack.cc
@@ -1,28 +1,26 @@
 #include "larq_compute_engine/mlir/transforms/bitpack.h"
 
-#include <cmath>
 #include <vector>
 
 #include "larq_compute_engine/core/bitpacking/bitpack.h"
 #include "larq_compute_engine/core/types.h"
-#include "mlir/Dialect/Quant/QuantTypes.h"
 
 namespace mlir {
 namespace TFL {
 
 using compute_engine::core::bitpacking_bitwidth;
-using compute_engine::core::round;
-using compute_engine::core::saturate;
 using compute_engine::core::TBitpacked;
 using namespace compute_engine::core::bitpacking;
 
 DenseElementsAttr Bitpack(mlir::Builder* builder, Attribute x) {
-  if (!x) return nullptr;
+  auto dense_attr = x.dyn_cast_or_null<DenseElementsAttr>();
+  if (!dense_attr) return nullptr;
 
   // ShapedType is something like tensor<1x2x3xf32> and element_type is f32
-  auto shaped_type = x.cast<TypedAttr>().getType().cast<ShapedType>();
+  auto shaped_type = dense_attr.getType();
   auto shape = shaped_type.getShape();
   auto element_type = shaped_type.getElementType();
+  if (shape.size() != 4) return nullptr;
 
   int num_rows = shape[0] * shape[1] * shape[2];
   int unpacked_channels = shape[3];
@@ -31,8 +29,7 @@ DenseElementsAttr Bitpack(mlir::Builder* builder, Attribute x) {
   std::vector<TBitpacked> new_values(num_rows * packed_channels);
 
   if (element_type.isF32()) {
-    const auto& dense_elements_iter =
-        x.cast<DenseElementsAttr>().getValues<float>();
+    const auto& dense_elements_iter = dense_attr.getValues<float>();
 
     std::vector<float> old_values(num_rows * unpacked_channels);
 
@@ -57,13 +54,17 @@ DenseElementsAttr Bitpack(mlir::Builder* builder, Attribute x) {
 }
 
 DenseElementsAttr Unpack(Attribute x, ShapedType result_type) {
-  if (!x) return nullptr;
+  auto dense_attr = x.dyn_cast_or_null<DenseElementsAttr>();
+  if (!dense_attr) return nullptr;
   if (!result_type.hasStaticShape()) return nullptr;
 
-  auto input_shape =
-      x.cast<TypedAttr>().getType().cast<ShapedType>().getShape();
+  auto input_shape = dense_attr.getType().getShape();
   auto output_shape = result_type.getShape();
-  auto output_type = result_type.getElementType();
+  if (input_shape.size() != 4 || output_shape.size() != 4) return nullptr;
+
+  // Other types are currently not supported. In particular, a dense attribute
+  // cannot have a quantized element type.
+  if (!result_type.getElementType().isF32()) return nullptr;
 
   int num_rows = output_shape[0] * output_shape[1] * output_shape[2];
   int unpacked_channels = output_shape[3];
@@ -75,8 +76,7 @@ DenseElementsAttr Unpack(Attribute x, ShapedType result_type) {
 
   std::vector<TBitpacked> old_values(num_rows * packed_channels);
 
-  const auto& dense_elements_iter =
-      x.cast<DenseElementsAttr>().getValues<TBitpacked>();
+  const auto& dense_elements_iter = dense_attr.getValues<TBitpacked>();
 
   int i = 0;
   for (TBitpacked x : dense_elements_iter) {
@@ -84,28 +84,12 @@ DenseElementsAttr Unpack(Attribute x, ShapedType result_type) {
   }
   assert(i == num_rows * packed_channels);
 
-  if (output_type.isF32()) {
-    std::vector<float> new_values(num_rows * unpacked_channels);
-
-    unpack_matrix(old_values.data(), num_rows, unpacked_channels,
-                  new_values.data());
-
-    return DenseElementsAttr::get<float>(result_type, new_values);
-  } else {
-    auto quant_type = output_type.cast<mlir::quant::UniformQuantizedType>();
-    const double scale = quant_type.getScale();
-    const int zero_point = quant_type.getZeroPoint();
+  std::vector<float> new_values(num_rows * unpacked_channels);
 
-    std::int8_t zero_bit_result = saturate(zero_point + round(+1.0 / scale));
-    std::int8_t one_bit_result = saturate(zero_point + round(-1.0 / scale));
+  unpack_matrix(old_values.data(), num_rows, unpacked_channels,
+                new_values.data());
 
-    std::vector<std::int8_t> new_values(num_rows * unpacked_channels);
-
-    unpack_matrix(old_values.data(), num_rows, unpacked_channels,
-                  new_values.data(), zero_bit_result, one_bit_result);
-
-    return DenseElementsAttr::get<std::int8_t>(result_type, new_values);
-  }
+  return DenseElementsAttr::get<float>(result_type, new_values);
 }
 
 }  // namespace TFL
-- 
2.43.0


From f7c254faee796448a6f74f12e75ffed7b0869f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:07 +0000
Subject: [PATCH 22/38] fix: quantization patterns drop a first quantization or
 give unsupported types

A quantize step applied to an output that is already quantized was merged as if
that output were float, and 16-bit, half-precision and per-axis tensors were
merged into operators that do not support them.
---
 .../mlir/transforms/quantize.cc                | 10 ++++++++++
 .../mlir/transforms/quantize_patterns.td       | 18 +++++++++++++-----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/quantize.cc b/larq_compute_engine/mlir/transforms/quantize.cc
index bc970b7..2112478 100644
--- a/larq_compute_engine/mlir/transforms/quantize.cc
+++ b/larq_compute_engine/mlir/transforms/quantize.cc
@@ -1,7 +1,9 @@
 // This transformation pass applies quantization on Larq dialect.
 
 #include "larq_compute_engine/mlir/ir/lce_ops.h"
+#include "mlir/Dialect/Quant/QuantTypes.h"
 #include "mlir/IR/PatternMatch.h"
+#include "mlir/IR/TypeUtilities.h"
 #include "mlir/Pass/Pass.h"
 #include "mlir/Transforms/GreedyPatternRewriteDriver.h"
 #include "tensorflow/compiler/mlir/lite/ir/tfl_ops.h"
@@ -22,6 +24,14 @@ struct LCEQuantizePass
   void runOnOperation() override;
 };
 
+// Whether the value is a tensor quantized to 8 bits, with a single scale and
+// zero point.
+bool IsQuantized8Bit(Value value) {
+  auto type = getElementTypeOrSelf(value)
+                  .dyn_cast<mlir::quant::UniformQuantizedType>();
+  return type && type.getStorageTypeIntegralWidth() == 8;
+}
+
 namespace lce_quantize {
 #include "larq_compute_engine/mlir/transforms/generated_quantize.inc"
 }
diff --git a/larq_compute_engine/mlir/transforms/quantize_patterns.td b/larq_compute_engine/mlir/transforms/quantize_patterns.td
index 553734f..de1e649 100644
--- a/larq_compute_engine/mlir/transforms/quantize_patterns.td
+++ b/larq_compute_engine/mlir/transforms/quantize_patterns.td
@@ -36,7 +36,13 @@ def : Pat<(LQ_Bconv2dOp
 // Checks if the value has only one user.
 def HasOneUse : Constraint<CPred<"$0.hasOneUse()">>;
 
-def : Pat<(TFL_QuantizeOp
+// Checks if the value is a float tensor.
+def IsFloat : Constraint<CPred<"getElementTypeOrSelf($0).isF32()">>;
+
+// Checks if the value is a tensor quantized to 8 bits, with one scale.
+def IsQuantized8Bit : Constraint<CPred<"IsQuantized8Bit($0)">>;
+
+def : Pat<(TFL_QuantizeOp:$quantized
             (LQ_Bconv2dOp:$output
               $input,
               $filter,
@@ -65,12 +71,14 @@ def : Pat<(TFL_QuantizeOp
               $padding,
               $stride_height,
               $stride_width),
-          [(HasOneUse $output)]>;
+          [(HasOneUse $output), (IsFloat $output),
+           (IsQuantized8Bit $quantized)]>;
 
-def : Pat<(TFL_QuantizeOp (LQ_DequantizeOp:$output $input), $qtype),
+def : Pat<(TFL_QuantizeOp:$quantized (LQ_DequantizeOp:$output $input), $qtype),
           (LQ_DequantizeOp $input),
-          [(HasOneUse $output)]>;
+          [(HasOneUse $output), (IsFloat $output),
+           (IsQuantized8Bit $quantized)]>;
 
 def : Pat<(LQ_QuantizeOp (TFL_DequantizeOp:$output $input)),
           (LQ_QuantizeOp $input),
-          [(HasOneUse $output)]>;
+          [(HasOneUse $output), (IsQuantized8Bit $input)]>;
-- 
2.43.0


From 71ae7b8e3279a80548d84c32f0273804192d4680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:04 +0000
Subject: [PATCH 23/38] fix: pass-through operators that change the static type
 are removed

Replacing such an operator by its operand changes the types its users were
verified against, for instance the results of the function.
---
 .../mlir/transforms/op_removal_patterns.td            | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/op_removal_patterns.td b/larq_compute_engine/mlir/transforms/op_removal_patterns.td
index 3508852..f0c98ab 100644
--- a/larq_compute_engine/mlir/transforms/op_removal_patterns.td
+++ b/larq_compute_engine/mlir/transforms/op_removal_patterns.td
@@ -20,5 +20,12 @@ def : Pat<(TF_PlaceholderWithDefaultOp $arg), (TF_IdentityOp $arg)>;
 //===----------------------------------------------------------------------===//
 // Op removal patterns.
 //===----------------------------------------------------------------------===//
-def : Pat<(TF_IdentityOp $arg), (replaceWithValue $arg)>;
-def : Pat<(TF_IdentityNOp $arg), (replaceWithValue $arg)>;
+// These ops may also change the (static) type, for example to one with fewer
+// known dimensions, that the users of the result rely on.
+def HasSameType : Constraint<CPred<"$0.getType() == $1.getType()">>;
+def HaveSameTypes : Constraint<CPred<"$0.getTypes() == $1.getTypes()">>;
+
+def : Pat<(TF_IdentityOp:$res $arg), (replaceWithValue $arg),
+          [(HasSameType $res, $arg)]>;
+def : Pat<(TF_IdentityNOp:$res $arg), (replaceWithValue $arg),
+          [(HaveSameTypes $res, $arg)]>;
-- 
2.43.0


From d29bf54ee647b154297c1313f9a02f27b26e3d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:57 +0000
Subject: [PATCH 24/38] fix: translation claims to have rewritten foreign
 custom operators

---
 larq_compute_engine/mlir/transforms/translate_tflite.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/larq_compute_engine/mlir/transforms/translate_tflite.cc b/larq_compute_engine/mlir/transforms/translate_tflite.cc
index 45974be..2d50416 100644
--- a/larq_compute_engine/mlir/transforms/translate_tflite.cc
+++ b/larq_compute_engine/mlir/transforms/translate_tflite.cc
@@ -74,6 +74,8 @@ struct TranslateToLCEPattern : public OpRewritePattern<TFL::CustomOp> {
           ConvertPaddingAttr(
               static_cast<tflite::Padding>(map["padding"].AsInt32())),
           map["stride_height"].AsInt32(), map["stride_width"].AsInt32());
+    } else {
+      return failure();
     }
 
     return success();
-- 
2.43.0


From d5eb3db5ee5049cd192f6f0ab8ff47ff04b4c253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:53 +0000
Subject: [PATCH 25/38] fix: detection post-processing given operands that are
 not int8

---
 .../mlir/transforms/detection_postprocess.cc   | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/larq_compute_engine/mlir/transforms/detection_postprocess.cc b/larq_compute_engine/mlir/transforms/detection_postprocess.cc
index 4dfe6cd..38aea51 100644
--- a/larq_compute_engine/mlir/transforms/detection_postprocess.cc
+++ b/larq_compute_engine/mlir/transforms/detection_postprocess.cc
@@ -77,6 +77,21 @@ struct RemoveDequantizeBeforePostProcess : public OpRewritePattern<CustomOp> {
       });
     }
 
+    // The quantized version of the op supports per-tensor int8 inputs only
+    for (auto dequantize_op :
+         {original_boxes_dequantize_op, original_scores_dequantize_op,
+          original_anchors_dequantize_op}) {
+      auto element_type = getElementTypeOrSelf(dequantize_op.getInput());
+      auto quantized_type =
+          llvm::dyn_cast<quant::UniformQuantizedType>(element_type);
+      if (!quantized_type || !quantized_type.isSigned() ||
+          quantized_type.getStorageTypeIntegralWidth() != 8) {
+        return rewriter.notifyMatchFailure(detection_op, [&](Diagnostic& diag) {
+          diag << "expected int8 inputs with per-tensor quantization";
+        });
+      }
+    }
+
     // Verify the output types of the current detection op:
     // Output type #0: [int32] detection boxes (scaled by 2048)
     // Output type #1: [int32] detection class IDs
@@ -92,7 +107,8 @@ struct RemoveDequantizeBeforePostProcess : public OpRewritePattern<CustomOp> {
       auto original_type =
           original_detection_outputs[i].getType().cast<ShapedType>();
       auto original_data_type = original_type.getElementType();
-      if (output_data_types[i] != original_data_type) {
+      if (output_data_types[i] != original_data_type ||
+          !original_type.hasRank()) {
         return rewriter.notifyMatchFailure(detection_op, [&](Diagnostic& diag) {
           diag << "unexpected output type of the op";
         });
-- 
2.43.0


From 851f36948d8204dde3ec1510e205f529fe3e9c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:18 +0000
Subject: [PATCH 26/38] fix: SetBatchSize keeps the function signature in step
 with returned inputs

An input with a dynamic batch size that is returned as it is got a new type,
while the function's result type stayed as it was, so the module no longer
verified and the conversion failed.
---
 .../mlir/transforms/set_batch_size.cc         | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/set_batch_size.cc b/larq_compute_engine/mlir/transforms/set_batch_size.cc
index 6cb81ec..c7b8fd4 100644
--- a/larq_compute_engine/mlir/transforms/set_batch_size.cc
+++ b/larq_compute_engine/mlir/transforms/set_batch_size.cc
@@ -43,17 +43,31 @@ struct SetBatchSizePass
       if (new_type) input_type = new_type;
     }
 
-    auto signature_new = mlir::FunctionType::get(
-        signature.getContext(), signature_inputs, signature.getResults());
-    // Set the new signature
-    func.setFunctionTypeAttr(mlir::TypeAttr::get(signature_new));
-
-    // Now apply the same change to the mlir::Value objects
+    // Apply the same change to the mlir::Value objects
     for (mlir::BlockArgument arg : func.getArguments()) {
       // mlir::BlockArgument is a sublcass of mlir::Value
       auto new_type = SetBatchSize(arg.getType());
       if (new_type) arg.setType(new_type);
     }
+
+    // An input that is returned as it is takes the type of the corresponding
+    // result with it
+    std::vector<mlir::Type> signature_results(signature.getResults());
+    for (mlir::Block& block : func.getBody()) {
+      auto return_op =
+          llvm::dyn_cast<mlir::func::ReturnOp>(block.getTerminator());
+      if (!return_op) continue;
+      for (auto it : llvm::enumerate(return_op.getOperands())) {
+        auto arg = it.value().dyn_cast<mlir::BlockArgument>();
+        if (arg && arg.getOwner() == &func.getBody().front())
+          signature_results[it.index()] = arg.getType();
+      }
+    }
+
+    auto signature_new = mlir::FunctionType::get(
+        signature.getContext(), signature_inputs, signature_results);
+    // Set the new signature
+    func.setFunctionTypeAttr(mlir::TypeAttr::get(signature_new));
   }
 };
 
-- 
2.43.0


From 399ef4cf10bf8f16f045d3a950d76c61c1c5012c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:13 +0000
Subject: [PATCH 27/38] fix: report a conversion pass that fails without a
 diagnostic instead of returning an empty model

---
 larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc b/larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc
index be080ce..7060d89 100644
--- a/larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc
+++ b/larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc
@@ -93,7 +93,8 @@ absl::Status ConvertTFExecutorToTFLOrFlatbuffer(
 
   tensorflow::AddPreVariableFreezingTFToLCETFLConversionPasses(&pass_manager);
   if (mlir::failed(pass_manager.run(module))) {
-    return statusHandler.ConsumeStatus();
+    return statusHandler.Combine(
+        absl::InternalError("Passes before variable freezing failed."));
   }
 
   // Freeze variables if a session is provided.
@@ -118,7 +119,8 @@ absl::Status ConvertTFExecutorToTFLOrFlatbuffer(
     pass_manager.addPass(mlir::odml::createPrintOpStatsPass(
         mlir::odml::GetAcceptedTFLiteDialects()));
     if (mlir::failed(pass_manager.run(module))) {
-      return statusHandler.ConsumeStatus();
+      return statusHandler.Combine(
+          absl::InternalError("Printing op statistics failed."));
     }
 
     llvm::raw_string_ostream os(*result);
-- 
2.43.0


From dedc829b806dbc7c45a726927b5fd71c0767f139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:06 +0000
Subject: [PATCH 28/38] fix: convert_saved_model accepts every os.PathLike, not
 only those whose str() is their path

---
 larq_compute_engine/mlir/python/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larq_compute_engine/mlir/python/converter.py b/larq_compute_engine/mlir/python/converter.py
index fc5192e..40f2111 100644
--- a/larq_compute_engine/mlir/python/converter.py
+++ b/larq_compute_engine/mlir/python/converter.py
@@ -130,7 +130,7 @@ def convert_saved_model(
         experimental_default_int8_range=experimental_default_int8_range,
     )
 
-    saved_model_dir = str(saved_model_dir)
+    saved_model_dir = os.fspath(saved_model_dir)
     saved_model_tags = [tf.saved_model.SERVING]
     saved_model_exported_names = [tf.saved_model.DEFAULT_SERVING_SIGNATURE_DEF_KEY]
 
-- 
2.43.0


From 71e0c77b5eb46a9774bc50804835c01df6f70fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:20 +0000
Subject: [PATCH 29/38] fix: filters without elements and inputs of unknown
 channels crash the recognition of binary convolutions

---
 larq_compute_engine/mlir/transforms/prepare_tf.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/prepare_tf.cc b/larq_compute_engine/mlir/transforms/prepare_tf.cc
index 8383c2c..f34f3e2 100644
--- a/larq_compute_engine/mlir/transforms/prepare_tf.cc
+++ b/larq_compute_engine/mlir/transforms/prepare_tf.cc
@@ -71,7 +71,7 @@ bool IsBinaryFilter(TypedAttr filter_attr) {
   auto element_type = filter_type.getElementType();
   if (!element_type.isF32()) return false;
   auto shape = filter_type.getShape();
-  if (shape.size() != 4) return false;
+  if (shape.size() != 4 || filter.empty()) return false;
 
   for (std::size_t h = 0; h < shape[0]; ++h) {
     for (std::size_t w = 0; w < shape[1]; ++w) {
@@ -130,11 +130,13 @@ bool IsSamePadding(Attribute paddings_attr, Value input, Value output,
          IsNoPadding(paddings, 3);
 }
 
-// Verify that the filter shape is compatible with the input shape. Will fail if
-// any other type is passed. Will emit an error and return false if the two
+// Verify that the filter shape is compatible with the input shape. Will return
+// false if the number of input channels is unknown, and fail if any other type
+// is passed. Will emit an error and return false if the two
 // shapes are incompatible (specifically, if the shapes imply a grouped
 // convolution with a group-shape that is not a multiple of 32).
 bool HasValidFilterShape(Value input_val, Value filter_val) {
+  if (!HasKnownChannels(input_val)) return false;
   auto input_type = input_val.getType().cast<ShapedType>();
   auto input_shape_vector = input_type.getShape();
   auto total_input_channels = input_shape_vector[input_shape_vector.size() - 1];
-- 
2.43.0


From ea1ac4d67228c2271cc780aab7519c12d07010db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:24 +0000
Subject: [PATCH 30/38] fix: binarizing a pooling of an input of unknown rank
 or channels crashes

---
 larq_compute_engine/mlir/transforms/common.h             | 9 +++++++++
 .../mlir/transforms/optimize_patterns_target_arm.td      | 5 ++++-
 larq_compute_engine/mlir/transforms/prepare_tf.cc        | 5 -----
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/common.h b/larq_compute_engine/mlir/transforms/common.h
index aecfe9d..97a7416 100644
--- a/larq_compute_engine/mlir/transforms/common.h
+++ b/larq_compute_engine/mlir/transforms/common.h
@@ -2,6 +2,8 @@
 
 #include "mlir/IR/Attributes.h"
 #include "mlir/IR/BuiltinAttributes.h"
+#include "mlir/IR/BuiltinTypes.h"
+#include "mlir/IR/Value.h"
 
 namespace mlir {
 namespace TFL {
@@ -16,5 +18,12 @@ inline bool IsConstantValue(Attribute values, float expected_value) {
   return true;
 }
 
+// Whether the value is a tensor with at least one dimension, and a known number
+// of channels.
+inline bool HasKnownChannels(Value value) {
+  auto type = value.getType().dyn_cast<RankedTensorType>();
+  return type && type.getRank() > 0 && !type.isDynamicDim(type.getRank() - 1);
+}
+
 }  // namespace TFL
 }  // namespace mlir
diff --git a/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td b/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td
index e1f01af..835fe83 100644
--- a/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td
+++ b/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td
@@ -1,5 +1,8 @@
 include "larq_compute_engine/mlir/transforms/optimize_patterns_common.td"
 
+// A tensor with at least one dimension, and a known number of channels.
+def KnownChannels : Constraint<CPred<"HasKnownChannels($0)">>;
+
 // Insert a binary maxpool if a maxpool is followed by a sign op.
 def : Pat<(LQ_QuantizeOp
               (TFL_MaxPool2DOp:$pool_output
@@ -17,4 +20,4 @@ def : Pat<(LQ_QuantizeOp
               $stride_h,
               $filter_width,
               $filter_height),
-          [(HasOneUse $pool_output)]>;
+          [(HasOneUse $pool_output), (KnownChannels $input)]>;
diff --git a/larq_compute_engine/mlir/transforms/prepare_tf.cc b/larq_compute_engine/mlir/transforms/prepare_tf.cc
index f34f3e2..becd912 100644
--- a/larq_compute_engine/mlir/transforms/prepare_tf.cc
+++ b/larq_compute_engine/mlir/transforms/prepare_tf.cc
@@ -100,11 +100,6 @@ bool IsSignTieBreaker(Attribute c) {
   return true;
 }
 
-bool HasKnownChannels(Value value) {
-  auto type = value.getType().dyn_cast<RankedTensorType>();
-  return type && type.getRank() > 0 && !type.isDynamicDim(type.getRank() - 1);
-}
-
 bool IsSamePadding(Attribute paddings_attr, Value input, Value output,
                    ArrayAttr strides_attr) {
   auto paddings = GetValidPadAttr(paddings_attr);
-- 
2.43.0


From 2a89c0ea3cbebd48046895bf7a118915a546ce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:33 +0000
Subject: [PATCH 31/38] fix: opaque constants crash the fusing of multipliers,
 biases and thresholds

---
 .../mlir/transforms/bitpack_activations_patterns.td           | 4 +++-
 .../mlir/transforms/optimize_patterns_common.td               | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/bitpack_activations_patterns.td b/larq_compute_engine/mlir/transforms/bitpack_activations_patterns.td
index f6beab3..6529327 100644
--- a/larq_compute_engine/mlir/transforms/bitpack_activations_patterns.td
+++ b/larq_compute_engine/mlir/transforms/bitpack_activations_patterns.td
@@ -6,7 +6,9 @@ include "larq_compute_engine/mlir/ir/lce_ops.td"
 
 
 def F32ElementsAttr : ElementsAttrBase<
-  CPred<"$_self.cast<ElementsAttr>().getShapedType().getElementType().isF32()">, "float constant tensor">;
+  CPred<"$_self.isa<DenseElementsAttr>() && "
+        "$_self.cast<DenseElementsAttr>().getElementType().isF32()">,
+  "non-opaque float constant tensor">;
 
 // Checks if the value has only one user.
 def HasOneUse : Constraint<CPred<"$0.hasOneUse()">>;
diff --git a/larq_compute_engine/mlir/transforms/optimize_patterns_common.td b/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
index f74bf7d..d4f3514 100644
--- a/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
+++ b/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
@@ -6,7 +6,9 @@ include "larq_compute_engine/mlir/ir/lce_ops.td"
 
 
 def F32ElementsAttr : ElementsAttrBase<
-  CPred<"$_self.cast<ElementsAttr>().getShapedType().getElementType().isF32()">, "float constant tensor">;
+  CPred<"$_self.isa<DenseElementsAttr>() && "
+        "$_self.cast<DenseElementsAttr>().getElementType().isF32()">,
+  "non-opaque float constant tensor">;
 
 // Checks if the value has only one user.
 def HasOneUse : Constraint<CPred<"$0.hasOneUse()">>;
-- 
2.43.0


From 68d5ab5c4a79f3cbba230f7c431ef98c3b256676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:24 +0000
Subject: [PATCH 32/38] fix: infinite and NaN multipliers and biases give
 undefined thresholds

---
 larq_compute_engine/mlir/transforms/optimize.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/optimize.cc b/larq_compute_engine/mlir/transforms/optimize.cc
index d67c92c..d393c6b 100644
--- a/larq_compute_engine/mlir/transforms/optimize.cc
+++ b/larq_compute_engine/mlir/transforms/optimize.cc
@@ -164,10 +164,9 @@ void ComputeWriteBitpackedOutputThresholds(
       effective_clamp_max = -1 * clamp_min;
     }
 
-    const float output_range_start =
-        (effective_clamp_min * std::abs(mult) + bias);
-    const float output_range_end =
-        (effective_clamp_max * std::abs(mult) + bias);
+    const double abs_mult = std::abs(mult);
+    const double output_range_start = effective_clamp_min * abs_mult + bias;
+    const double output_range_end = effective_clamp_max * abs_mult + bias;
 
     // Check for the clamping range not crossing zero special case.
     if (output_range_start < 0 && output_range_end < 0) {
@@ -175,7 +174,8 @@ void ComputeWriteBitpackedOutputThresholds(
           element_type, neg_inf));  // We need to always write a 1-bit.
       continue;
     }
-    if (output_range_start >= 0 && output_range_end >= 0) {
+    // NaN is not below zero.
+    if (!(output_range_start < 0) && !(output_range_end < 0)) {
       thresholds.push_back(IntegerAttr::get(
           element_type, pos_inf));  // We need to always write a 0-bit.
       continue;
@@ -183,7 +183,7 @@ void ComputeWriteBitpackedOutputThresholds(
 
     // The general case. The even part of `a` is added after rounding down, so
     // that it cannot absorb a small 𝛃 / 𝛄.
-    const double bias_ratio = static_cast<double>(bias) / std::abs(mult);
+    const double bias_ratio = std::isinf(abs_mult) ? 0.0 : bias / abs_mult;
     thresholds.push_back(IntegerAttr::get(
         element_type,
         static_cast<std::int64_t>(
-- 
2.43.0


From 94856d42de54d166b6ff67dcb2e304722972a6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:33 +0000
Subject: [PATCH 33/38] fix: the AArch64 kernels read multipliers and biases
 beyond their padding

The 8x4 kernels read multipliers and biases in blocks of eight floats, up to 28
bytes beyond the last one, but LCE_EXTRA_BYTES only covered 16.
---
 larq_compute_engine/core/types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larq_compute_engine/core/types.h b/larq_compute_engine/core/types.h
index 24da7d4..ed23522 100644
--- a/larq_compute_engine/core/types.h
+++ b/larq_compute_engine/core/types.h
@@ -35,7 +35,7 @@ inline bool FastBoundsCheck(const int index, const int limit) {
 // In our kernels we may occasionally read (but never write) beyond the end of
 // an array. This is the maximum number of extra bytes that will be read, and
 // should be added as padding to the end of tensor allocations.
-#define LCE_EXTRA_BYTES 16
+#define LCE_EXTRA_BYTES 32
 
 // Define these once here, so they can be included everywhere.
 using TBitpacked = std::int32_t;
-- 
2.43.0


From 73015cb2ee1dd0083bc09d5afce7445e7137443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:33 +0000
Subject: [PATCH 34/38] fix: the AArch64 BGEMM kernel reads beyond the
 thresholds tensor

The kernel that writes bitpacked output reads thresholds in blocks of eight, but
the tensor they come from has no padding; give it a padded copy instead.
---
 larq_compute_engine/tflite/kernels/bconv2d.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/tflite/kernels/bconv2d.cc b/larq_compute_engine/tflite/kernels/bconv2d.cc
index 5ed9601..dcb6da1 100644
--- a/larq_compute_engine/tflite/kernels/bconv2d.cc
+++ b/larq_compute_engine/tflite/kernels/bconv2d.cc
@@ -54,6 +54,10 @@ struct OpData {
   std::vector<float> output_transform_multiplier;
   std::vector<float> output_transform_bias;
 
+  // A padded copy of the thresholds. This is only used when writing bitpacked
+  // output.
+  std::vector<std::int32_t> output_transform_thresholds;
+
   // This is used when we have 'same-zero' padding.
   std::vector<float> padding_buffer;
 
@@ -409,6 +413,17 @@ void OneTimeSetup(TfLiteContext* context, TfLiteNode* node, OpData* op_data) {
         -1 * nominal_clamp_min + backtransform_add;
   }
 
+  // The optimized kernels read the thresholds in blocks, and so may read beyond
+  // the last one; the thresholds tensor has no padding, so copy them.
+  if (output->type == kTfLiteInt32) {
+    const auto* thresholds =
+        GetTensorData<std::int32_t>(GetInput(context, node, 4));
+    op_data->output_transform_thresholds.assign(
+        thresholds, thresholds + bconv2d_params->channels_out);
+    op_data->output_transform_thresholds.resize(
+        bconv2d_params->channels_out + LCE_EXTRA_BYTES / sizeof(std::int32_t));
+  }
+
   op_data->one_time_setup_complete = true;
 }
 
@@ -430,8 +445,7 @@ void GetOutputTransform(OutputTransform<DstScalar>& output_transform,
 void GetOutputTransform(OutputTransform<TBitpacked>& output_transform,
                         TfLiteContext* context, TfLiteNode* node,
                         OpData* op_data) {
-  const auto* thresholds = GetInput(context, node, 4);
-  output_transform.thresholds = GetTensorData<std::int32_t>(thresholds);
+  output_transform.thresholds = op_data->output_transform_thresholds.data();
 }
 
 template <typename AccumScalar, typename DstScalar>
-- 
2.43.0


From 90ab7a49238e82b9247086ed306f6e0ade70f6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:33 +0000
Subject: [PATCH 35/38] fix: the 4x4 AArch64 BGEMM kernel accumulates data
 beyond the depth

The streaming loop advances by 8 levels of depth, so with a depth that is an odd
multiple of 4 it read and accumulated 4 levels too many.
---
 larq_compute_engine/core/bgemm/kernels_aarch64.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/core/bgemm/kernels_aarch64.h b/larq_compute_engine/core/bgemm/kernels_aarch64.h
index f555a2b..ebb1ca6 100644
--- a/larq_compute_engine/core/bgemm/kernels_aarch64.h
+++ b/larq_compute_engine/core/bgemm/kernels_aarch64.h
@@ -234,9 +234,11 @@ void BinaryKernelNeon4x4(const BinaryKernelParams<DstScalar, 4, 4>& params) {
       LCE_BMLA(v24, v4, v0, v1, v2, v3)
 
 #if RUY_OPT(MAX_STREAMING)
-      "cmp w12, #8\n"
+      // The loop below loads and processes 8 levels of depth at a time, on top
+      // of the 8 levels that have been loaded before it.
+      "cmp w12, #16\n"
       "blt 78f\n"
-      "and w2, w12, #-4\n"
+      "and w2, w12, #-8\n"
 
       // Load the next 64 bytes of LHS and RHS data.
       "ld1 {v8.4s, v9.4s, v10.4s, v11.4s}, [%[lhs_ptr]], #64\n"
-- 
2.43.0


From 48ede20f1269ecc4cd41ed35935fdba892a0bccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:33 +0000
Subject: [PATCH 36/38] fix: 16-bit accumulators are selected from the size of
 the input

The indirect kernels' accumulators are bounded by the size of the filter, not of
the input: with a filter larger than the (padded) input they overflowed.
---
 larq_compute_engine/core/indirect_bgemm/select_kernel.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/larq_compute_engine/core/indirect_bgemm/select_kernel.h b/larq_compute_engine/core/indirect_bgemm/select_kernel.h
index 7f4c20a..6b51f49 100644
--- a/larq_compute_engine/core/indirect_bgemm/select_kernel.h
+++ b/larq_compute_engine/core/indirect_bgemm/select_kernel.h
@@ -42,9 +42,10 @@ inline std::unique_ptr<Kernel> SelectRuntimeKernel(
   // on whether the bitpacked number of input channels is a multiple of 4, 2, or
   // 1, and whether that multiple is 1 or more than 1.
 
-  const auto max_accumulator_value = bitpacking_bitwidth *
-                                     bitpacked_input_shape.FlatSize() /
-                                     bconv2d_params->groups;
+  const auto max_accumulator_value =
+      bitpacking_bitwidth * bconv2d_params->filter_height *
+      bconv2d_params->filter_width *
+      (bitpacked_input_shape.Dims(3) / bconv2d_params->groups);
   const bool fits_in_uint16_accumulators =
       max_accumulator_value < std::numeric_limits<std::uint16_t>::max();
 
-- 
2.43.0


From 9ec79b01968ee39d71422bb0b8ac313206fe4c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:30 +0000
Subject: [PATCH 37/38] fix: rewrite models whose main subgraph has no inputs

The first input was assigned to itself, which fails if there is none.
---
 larq_compute_engine/mlir/python/util.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/larq_compute_engine/mlir/python/util.py b/larq_compute_engine/mlir/python/util.py
index b58dd60..3a47683 100644
--- a/larq_compute_engine/mlir/python/util.py
+++ b/larq_compute_engine/mlir/python/util.py
@@ -41,7 +41,6 @@ def _convert_model_from_bytearray_to_object(model_bytearray):
     model_object = tflite_schema.Model.GetRootAsModel(model_bytearray, 0)
     model_object = tflite_schema.ModelT.InitFromObj(model_object)
     model_object = copy.deepcopy(model_object)
-    model_object.subgraphs[0].inputs[0] = model_object.subgraphs[0].inputs[0]
     return model_object
 
 
-- 
2.43.0


From e4338acc6a8f56d4557bbdec6b08c705fe20e549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:30 +0000
Subject: [PATCH 38/38] fix: rewrite models with lists that are absent instead
 of empty

Some writers leave empty lists out of the flatbuffer, which gives None for
the inputs of an operator or subgraph, for example.
---
 larq_compute_engine/mlir/python/util.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/larq_compute_engine/mlir/python/util.py b/larq_compute_engine/mlir/python/util.py
index 3a47683..4baabf6 100644
--- a/larq_compute_engine/mlir/python/util.py
+++ b/larq_compute_engine/mlir/python/util.py
@@ -36,11 +36,25 @@ def _convert_tflite_enum_type_to_tf_type(tflite_enum_type):
     return tf_type
 
 
+def _set_absent_lists(table, *names):
+    """Sets the given fields of a flatbuffer object to empty lists if they are None."""
+    for name in names:
+        if getattr(table, name) is None:
+            setattr(table, name, [])
+
+
 def _convert_model_from_bytearray_to_object(model_bytearray):
     """Converts a tflite model from a bytearray into a parsable object."""
     model_object = tflite_schema.Model.GetRootAsModel(model_bytearray, 0)
     model_object = tflite_schema.ModelT.InitFromObj(model_object)
     model_object = copy.deepcopy(model_object)
+    # Lists that are absent from the flatbuffer are empty.
+    for subgraph in model_object.subgraphs:
+        _set_absent_lists(subgraph, "tensors", "inputs", "outputs", "operators")
+        for op in subgraph.operators:
+            _set_absent_lists(op, "inputs", "outputs")
+    for signature_def in model_object.signatureDefs or []:
+        _set_absent_lists(signature_def, "inputs", "outputs")
     return model_object
 
 
-- 
2.43.0

