// What the stand-ins for TensorFlow record and how they can be made to fail.
#ifndef VERIF_TFSIM_H_
#define VERIF_TFSIM_H_
#include <map>
#include <set>
#include <string>
#include <vector>
#include "mlir/IR/OwningOpRef.h"
#include "verif_tf.h"
namespace vm { struct VM; }
namespace sim {
struct State {
  std::vector<std::string> ran, assets, text_dirs, names, tags;
  struct Default { double lo, hi; bool is_signed; };
  std::vector<Default> defaults;
  long folded = 0, freezes = 0, exports = 0;
  bool allow_custom = false, force_select = false, stablehlo = false;
  mlir::OwningOpRef<mlir::ModuleOp> exported;  // what was handed to the flatbuffer exporter
  std::string flatbuffer = "TFL3 flatbuffer";
  bool keep = true;             // keep a copy of it; otherwise a summary
  std::vector<std::string> ops; // operators handed to the exporter; custom ones by their code
  std::string exported_text;
  std::vector<std::string> full_names;  // without truncation
  tensorflow::Session* frozen_with = nullptr;
  bool specs_seen = false;
  mlir::quant::QuantizationSpecs specs;
  // faults
  std::string fail_pass;
  bool fail_freeze = false, fail_export = false, damage = false, silent = false;
  bool wrap_parameters = false;
};
State& state();
void registerDialects(mlir::DialectRegistry& r);
bool fakeQuant(mlir::Operation* op, vm::VM& x);
bool variables(mlir::Operation* op, vm::VM& x, const std::map<std::string, std::string>& session);
}  // namespace sim
#endif
