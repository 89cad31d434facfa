// Stand-ins for the parts of TensorFlow that the conversion pipeline and the native binding
// call: declarations only, with the documented meaning of each; /verif/mlir/tfsim.cc defines them.
#ifndef VERIF_TF_H_
#define VERIF_TF_H_
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/IR/BuiltinAttributes.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/Diagnostics.h"
#include "mlir/IR/OwningOpRef.h"
#include "mlir/Pass/Pass.h"
#include "mlir/Pass/PassInstrumentation.h"
#include "mlir/Pass/PassManager.h"

namespace absl {
class Status {
 public:
  Status() = default;
  explicit Status(std::string m, bool) : bad_(true), message_(std::move(m)) {}
  bool ok() const { return !bad_; }
  const std::string& message() const { return message_; }
  std::string ToString() const { return bad_ ? message_ : "OK"; }

 private:
  bool bad_ = false;
  std::string message_;
};
inline Status OkStatus() { return Status(); }
inline Status InternalError(const std::string& m) { return Status(m, true); }
inline Status InvalidArgumentError(const std::string& m) { return Status(m, true); }
template <class T> class StatusOr {
 public:
  StatusOr(T v) : value_(std::move(v)) {}
  StatusOr(Status s) : status_(std::move(s)) {}
  bool ok() const { return status_.ok(); }
  const Status& status() const { return status_; }
  T& value() {
    if (!value_) throw std::runtime_error("value() of a failed StatusOr");
    return *value_;
  }
  T& operator*() { return value(); }
  T* operator->() { return &value(); }

 private:
  Status status_;
  std::optional<T> value_;
};
template <class T> class Span {
 public:
  Span() = default;
  Span(T* p, size_t n) : p_(p), n_(n) {}
  template <class C, class = decltype(std::declval<C&>().data())> Span(C& c) : p_(c.data()), n_(c.size()) {}
  T* begin() const { return p_; }
  T* end() const { return p_ + n_; }
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  T& operator[](size_t i) const { return p_[i]; }

 private:
  T* p_ = nullptr;
  size_t n_ = 0;
};
}  // namespace absl

namespace tensorflow {
using std::string;
using Status = absl::Status;
template <class T> using StatusOr = absl::StatusOr<T>;
inline Status OkStatus() { return Status(); }
namespace errors {
inline Status InvalidArgument(const std::string& m) { return Status(m, true); }
inline Status Internal(const std::string& m) { return Status(m, true); }
}  // namespace errors
enum DataType { DT_INVALID = 0, DT_FLOAT = 1, DT_DOUBLE = 2, DT_INT32 = 3, DT_UINT8 = 4, DT_INT16 = 5, DT_INT8 = 6, DT_STRING = 7, DT_BOOL = 10, DT_QINT8 = 11, DT_QUINT8 = 12, DT_QINT32 = 13, DT_QINT16 = 15, DT_QUINT16 = 16, DT_HALF = 19 };

// Knows the values of the variables a saved model was loaded with.
class Session {
 public:
  std::vector<std::pair<std::string, std::string>> variables;  // name, attribute as text
};
struct SavedModelBundle {
  std::unique_ptr<Session> session;
  Session* GetSession() const { return session.get(); }
};
struct GraphDef { std::string bytes; };
struct GraphDebugInfo {};
struct ArrayInfo {
  std::string name, dtype;
  std::optional<std::vector<int>> shape;
};
struct GraphImportConfig {
  std::vector<ArrayInfo> inputs;
  std::vector<std::string> outputs;
  bool prune_unused_nodes = false, convert_legacy_fed_inputs = false, graph_as_function = false, upgrade_legacy = false;
};
Status LoadProtoFromBuffer(const std::string& bytes, GraphDef* graph);
Status ParseInputArrayInfo(const std::vector<std::string>& names, const std::vector<std::string>& dtypes,
                           const std::vector<std::optional<std::vector<int>>>& shapes, std::vector<ArrayInfo>* inputs);
Status ParseOutputArrayInfo(const std::vector<std::string>& names, std::vector<std::string>* outputs);
absl::StatusOr<mlir::OwningOpRef<mlir::ModuleOp>> ConvertGraphdefToMlir(const GraphDef&, const GraphDebugInfo&, const GraphImportConfig&, mlir::MLIRContext*,
                                                                        bool add_default_attributes = true);
absl::StatusOr<mlir::OwningOpRef<mlir::ModuleOp>> ImportSavedModel(const std::string& dir, int version, const std::unordered_set<std::string>& tags,
                                                                   absl::Span<const std::string> custom_opdefs, absl::Span<std::string> exported_names,
                                                                   const GraphImportConfig& specs, bool enable_variable_lifting, mlir::MLIRContext* context,
                                                                   std::unique_ptr<SavedModelBundle>* bundle);
}  // namespace tensorflow

namespace toco {
class TocoFlags {
 public:
  void set_force_select_tf_ops(bool v) { force_select_ = v; }
  void set_allow_custom_ops(bool v) { allow_custom_ = v; }
  bool force_select_tf_ops() const { return force_select_; }
  bool allow_custom_ops() const { return allow_custom_; }

 private:
  bool force_select_ = false, allow_custom_ = false;
};
}  // namespace toco
namespace tensorflow {
namespace internal { Status RegisterAllCustomOps(const toco::TocoFlags&); }

// Names of operators and values, from their locations; made unique by the caller.
using OpOrVal = llvm::PointerUnion<mlir::Operation*, mlir::Value>;
class OpOrArgLocNameMapper {
 public:
  virtual ~OpOrArgLocNameMapper() = default;
  std::string GetUniqueName(OpOrVal v);

 protected:
  virtual std::string GetName(OpOrVal v);

 private:
  std::unordered_set<std::string> used_;
};
}  // namespace tensorflow

namespace tflite {
namespace metrics {
struct ConverterErrorData { enum ErrorCode { UNKNOWN = 0, ERROR_UNSUPPORTED_CONTROL_FLOW_V1 = 203 }; };
}  // namespace metrics
struct FlatbufferExportOptions {
  toco::TocoFlags toco_flags;
  std::unordered_set<std::string> saved_model_tags;
  tensorflow::OpOrArgLocNameMapper* op_or_arg_name_mapper = nullptr;
};
bool MlirToFlatBufferTranslateFunction(mlir::ModuleOp module, const FlatbufferExportOptions& options, std::string* result, bool serialize_stablehlo_ops = false);
}  // namespace tflite

namespace mlir {
class StatusScopedDiagnosticHandler {
 public:
  StatusScopedDiagnosticHandler(MLIRContext* context, bool propagate = false, bool filter_stack = false);
  ~StatusScopedDiagnosticHandler();
  absl::Status ConsumeStatus();
  absl::Status Combine(absl::Status other);

 private:
  MLIRContext* context_;
  DiagnosticEngine::HandlerID id_;
  std::string errors_;
};

namespace quant {
enum class QDQConversionMode { kQDQNone, kQDQStatic, kQDQDynamic };
struct QuantizationSpecs {
  tensorflow::DataType inference_type = tensorflow::DT_FLOAT;
  tensorflow::DataType inference_input_type = tensorflow::DT_FLOAT;
  bool post_training_quantization = false;
  bool weight_quantization = false;
  std::vector<std::pair<std::optional<double>, std::optional<double>>> input_ranges;
  std::pair<std::optional<double>, std::optional<double>> default_ranges;
  std::string target_func = "main";
  QDQConversionMode qdq_conversion_mode = QDQConversionMode::kQDQNone;
  bool RunPropagationAndRewriteQuantizationPasses() const { return inference_type != tensorflow::DT_FLOAT && !weight_quantization; }
  bool IsSignedInferenceType() const { return inference_type != tensorflow::DT_QUINT8 && inference_type != tensorflow::DT_QUINT16; }
};
}  // namespace quant

namespace tf_saved_model {
LogicalResult FreezeVariables(ModuleOp module, tensorflow::Session* session);
std::unique_ptr<OperationPass<ModuleOp>> CreateOptimizeGlobalTensorsPass();
std::unique_ptr<OperationPass<ModuleOp>> CreateFreezeGlobalTensorsPass(bool allow_mutable_tensors = false);
std::unique_ptr<OperationPass<ModuleOp>> CreateFreezeAssetsPass(std::string saved_model_dir = "");
}  // namespace tf_saved_model

namespace odml {
std::vector<std::string> GetAcceptedTFLiteDialects();
std::unique_ptr<OperationPass<ModuleOp>> createPrintOpStatsPass(std::vector<std::string> accepted_dialects);
}  // namespace odml

namespace TF {
struct StandardPipelineOptions { bool enable_inliner = false, form_clusters = false; };
struct LayoutOptimizationPipelineOptions {
  std::string force_data_format;
  bool skip_fold_transpose_in_ops = false;
};
void CreateTFStandardPipeline(OpPassManager& pm, const StandardPipelineOptions& options);
void CreateLayoutOptimizationPipeline(OpPassManager& pm, const LayoutOptimizationPipelineOptions& options);
std::unique_ptr<OperationPass<func::FuncOp>> CreateDeviceIndexSelectorPass();
std::unique_ptr<OperationPass<ModuleOp>> CreateTFShapeInferencePass();
std::unique_ptr<OperationPass<ModuleOp>> CreateTFFunctionalControlFlowToRegions();
std::unique_ptr<OperationPass<ModuleOp>> CreateTFRegionControlFlowToFunctional();
std::unique_ptr<OperationPass<func::FuncOp>> CreateInitTextFileToImportPass(std::string saved_model_dir = "");
}  // namespace TF
namespace TFDevice { std::unique_ptr<OperationPass<func::FuncOp>> CreateDecomposeResourceOpsPass(); }

namespace TFL {
std::vector<std::string> AllTfFakeQuantOps();
std::unique_ptr<OperationPass<func::FuncOp>> CreateRaiseCustomOpsPass(const std::vector<std::string>& target_ops);
std::unique_ptr<OperationPass<ModuleOp>> CreatePrepareCompositeFunctionsPass();
std::unique_ptr<OperationPass<ModuleOp>> CreateLowerStaticTensorListPass();
std::unique_ptr<OperationPass<ModuleOp>> CreateLegalizeTFWhilePass();
std::unique_ptr<OperationPass<func::FuncOp>> CreateReduceWhileOperandsPass();
std::unique_ptr<OperationPass<func::FuncOp>> CreatePrepareTFPass(bool unfold_batch_matmul, bool allow_bf16_and_f16_type_legalization);
std::unique_ptr<OperationPass<func::FuncOp>> CreateLegalizeTFPass(bool run_tfl_runtime_verification);
std::unique_ptr<OperationPass<ModuleOp>> CreateAnalyzeVariablesPass();
std::unique_ptr<OperationPass<ModuleOp>> CreateLegalizeVariablesPass();
std::unique_ptr<OperationPass<ModuleOp>> CreateLegalizeHashTablesPass();
std::unique_ptr<OperationPass<func::FuncOp>> CreateOptimizePass(bool enable_canonicalization);
std::unique_ptr<OperationPass<ModuleOp>> CreateOptimizeFunctionalOpsPass();
std::unique_ptr<OperationPass<func::FuncOp>> CreatePrepareQuantizePass(const quant::QuantizationSpecs& specs);
std::unique_ptr<OperationPass<func::FuncOp>> CreateDefaultQuantParamsPass(double min, double max, bool is_signed);
std::unique_ptr<OperationPass<func::FuncOp>> CreateQuantizePass();
std::unique_ptr<OperationPass<func::FuncOp>> CreatePostQuantizePass(bool emit_quant_adaptor_ops);
std::unique_ptr<OperationPass<func::FuncOp>> CreatePostQuantizeRemoveQDQPass();
std::unique_ptr<OperationPass<func::FuncOp>> CreateOptimizeOpOrderPass();
std::unique_ptr<OperationPass<func::FuncOp>> CreateSplitMergedOperandsPass();
std::unique_ptr<OperationPass<ModuleOp>> CreateInsertCallOnceOpFromSessionInitializerPass();
std::unique_ptr<OperationPass<ModuleOp>> CreateUnfoldLargeSplatConstantPass();
std::unique_ptr<OperationPass<ModuleOp>> CreateWhileOutlinePass();
std::unique_ptr<OperationPass<func::FuncOp>> CreateRuntimeVerifyPass();
void AttachErrorCode(InFlightDiagnostic&& diag, tflite::metrics::ConverterErrorData::ErrorCode code);
class ErrorCollectorInstrumentation : public PassInstrumentation {
 public:
  explicit ErrorCollectorInstrumentation(MLIRContext*) {}
};
}  // namespace TFL
}  // namespace mlir

namespace tensorflow {
namespace converter { struct DebugOptions {}; }
void InitPassManager(mlir::PassManager& pm, const converter::DebugOptions& options);
}  // namespace tensorflow
#endif
