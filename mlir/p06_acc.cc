// The importers TensorFlow would provide, and what the workload needs to see of a conversion.
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include "larq_compute_engine/mlir/tf_to_tfl_flatbuffer.h"
#include "mlir/Parser/Parser.h"
#include "tfsim.h"

namespace sim {
struct Import {
  long loads = 0, parsed_inputs = 0, parsed_outputs = 0, graphs = 0, models = 0, registered = 0, live_modules = 0;
  std::string fault, text, bytes, dir;
  std::vector<tensorflow::ArrayInfo> inputs;
  std::vector<std::string> outputs, tags, names;
  int version = -1;
  bool prune = false, legacy_fed = false, as_function = false, upgrade = false, lifting = false, has_session = false;
  size_t custom_opdefs = 0;
  std::vector<std::pair<std::string, std::string>> variables;
  tensorflow::Session* session = nullptr;
};
static Import& import() { static Import i; return i; }

static absl::StatusOr<mlir::OwningOpRef<mlir::ModuleOp>> read(mlir::MLIRContext* c, const char* fault) {
  auto& i = import();
  if (i.fault == fault) return absl::InternalError("cannot be imported");
  mlir::DialectRegistry reg;
  registerDialects(reg);
  c->appendDialectRegistry(reg);
  c->loadAllAvailableDialects();
  c->allowUnregisteredDialects();
  auto m = mlir::parseSourceString<mlir::ModuleOp>(i.text, mlir::ParserConfig(c));
  if (!m) return absl::InternalError("the text does not parse");
  return m;
}
}  // namespace sim

namespace tensorflow {
Status LoadProtoFromBuffer(const std::string& b, GraphDef* g) {
  auto& i = sim::import();
  ++i.loads;
  if (i.fault == "load") return absl::InternalError("no GraphDef");
  g->bytes = b;
  return Status();
}
Status ParseInputArrayInfo(const std::vector<std::string>& names, const std::vector<std::string>& dtypes, const std::vector<std::optional<std::vector<int>>>& shapes,
                           std::vector<ArrayInfo>* out) {
  auto& i = sim::import();
  ++i.parsed_inputs;
  if (i.fault == "inputs" || names.size() != dtypes.size() || names.size() != shapes.size()) return absl::InvalidArgumentError("bad inputs");
  for (size_t k = 0; k < names.size(); ++k) out->push_back({names[k], dtypes[k], shapes[k]});
  return Status();
}
Status ParseOutputArrayInfo(const std::vector<std::string>& names, std::vector<std::string>* out) {
  auto& i = sim::import();
  ++i.parsed_outputs;
  if (i.fault == "outputs") return absl::InvalidArgumentError("bad outputs");
  *out = names;
  return Status();
}
absl::StatusOr<mlir::OwningOpRef<mlir::ModuleOp>> ConvertGraphdefToMlir(const GraphDef& g, const GraphDebugInfo&, const GraphImportConfig& s, mlir::MLIRContext* c, bool) {
  auto& i = sim::import();
  ++i.graphs;
  i.bytes = g.bytes, i.inputs = s.inputs, i.outputs = s.outputs;
  i.prune = s.prune_unused_nodes, i.legacy_fed = s.convert_legacy_fed_inputs, i.as_function = s.graph_as_function, i.upgrade = s.upgrade_legacy;
  return sim::read(c, "import");
}
absl::StatusOr<mlir::OwningOpRef<mlir::ModuleOp>> ImportSavedModel(const std::string& dir, int version, const std::unordered_set<std::string>& tags,
                                                                   absl::Span<const std::string> custom, absl::Span<std::string> names, const GraphImportConfig& s,
                                                                   bool lifting, mlir::MLIRContext* c, std::unique_ptr<SavedModelBundle>* bundle) {
  auto& i = sim::import();
  ++i.models;
  i.dir = dir, i.version = version, i.tags.assign(tags.begin(), tags.end()), i.names.assign(names.begin(), names.end());
  i.upgrade = s.upgrade_legacy, i.lifting = lifting, i.custom_opdefs = custom.size();
  auto m = sim::read(c, "import");
  if (!m.ok()) return m;
  if (i.fault == "no bundle") {
    bundle->reset();
  } else {
    (*bundle)->session = std::make_unique<Session>();
    (*bundle)->session->variables = i.variables;
    i.session = (*bundle)->GetSession();
  }
  return m;
}
namespace internal {
Status RegisterAllCustomOps(const toco::TocoFlags&) {
  ++sim::import().registered;
  return sim::import().fault == "register" ? absl::InternalError("the operators cannot be registered") : Status();
}
}  // namespace internal
}  // namespace tensorflow

namespace py = pybind11;
PYBIND11_MODULE(simstate, m) {
  m.def("reset", [](const std::string& text, const std::string& fault, const std::string& fail_pass, bool silent, const py::bytes& flatbuffer,
                    const std::vector<std::pair<std::string, std::string>>& variables) {
    auto& i = sim::import();
    auto& s = sim::state();
    i = sim::Import();
    i.text = text, i.fault = fault, i.variables = variables;
    s.ran.clear(), s.assets.clear(), s.text_dirs.clear(), s.names.clear(), s.full_names.clear(), s.tags.clear(), s.defaults.clear(), s.ops.clear();
    s.exported_text.clear(), s.exported = nullptr, s.folded = s.freezes = s.exports = 0;
    s.allow_custom = s.force_select = s.stablehlo = s.keep = s.specs_seen = false;
    s.frozen_with = nullptr, s.specs = {}, s.flatbuffer = std::string(flatbuffer), s.fail_pass = fail_pass, s.silent = silent;
    s.fail_freeze = fault == "freeze", s.fail_export = fault == "export", s.damage = fault == "damage", s.wrap_parameters = false;
  });
  m.def("state", [] {
    auto& i = sim::import();
    auto& s = sim::state();
    py::dict d, c;
    c["load"] = i.loads, c["inputs"] = i.parsed_inputs, c["outputs"] = i.parsed_outputs, c["graph"] = i.graphs, c["model"] = i.models, c["register"] = i.registered;
    c["freeze"] = s.freezes, c["export"] = s.exports;
    d["calls"] = c;
    d["bytes"] = py::bytes(i.bytes);
    py::list in;
    for (auto& a : i.inputs) in.append(py::make_tuple(a.name, a.dtype, a.shape ? py::cast(*a.shape) : py::none()));
    d["inputs"] = in, d["outputs"] = i.outputs;
    d["flags"] = py::make_tuple(i.prune, i.legacy_fed, i.as_function, i.upgrade, i.lifting);
    d["dir"] = i.dir, d["version"] = i.version, d["tags"] = i.tags, d["names"] = i.names, d["custom_opdefs"] = i.custom_opdefs;
    d["frozen_with_session"] = s.frozen_with != nullptr, d["right_session"] = s.frozen_with == i.session;
    d["ran"] = s.ran, d["assets"] = s.assets, d["text_dirs"] = s.text_dirs, d["export_tags"] = s.tags;
    py::list given, full;  // a name may have been cut inside a character
    for (auto& n : s.names) given.append(py::bytes(n));
    for (auto& n : s.full_names) full.append(py::bytes(n));
    d["op_names"] = given, d["full_names"] = full, d["ops"] = s.ops, d["text"] = py::bytes(s.exported_text);
    d["allow_custom"] = s.allow_custom, d["force_select"] = s.force_select, d["stablehlo"] = s.stablehlo;
    py::list def;
    for (auto& q : s.defaults) def.append(py::make_tuple(q.lo, q.hi, q.is_signed));
    d["defaults"] = def;
    d["specs_seen"] = s.specs_seen, d["inference_type"] = (int)s.specs.inference_type, d["input_type"] = (int)s.specs.inference_input_type;
    d["post_training"] = s.specs.post_training_quantization, d["weight_quantization"] = s.specs.weight_quantization;
    py::list ranges;
    for (auto& q : s.specs.input_ranges) ranges.append(py::make_tuple(q.first ? py::cast(*q.first) : py::none(), q.second ? py::cast(*q.second) : py::none()));
    d["input_ranges"] = ranges;
    return d;
  });
  // Conversion to text, which no Python entry point reaches.
  m.def("to_text", [](const std::string& text, bool xcore) -> py::tuple {
    mlir::MLIRContext c(mlir::MLIRContext::Threading::DISABLED);
    sim::import().text = text;
    auto mod = sim::read(&c, "import");
    if (!mod.ok()) throw std::runtime_error("the text does not parse");
    std::string out;
    mlir::quant::QuantizationSpecs specs;
    std::string errors;
    auto st = tensorflow::ConvertTFExecutorToTFLOrFlatbuffer(mod.value().get(), true, xcore ? LCETarget::XCORE : LCETarget::ARM, specs, {}, "", std::nullopt, &out);
    std::string print;
    llvm::raw_string_ostream(print) << *mod.value();
    return py::make_tuple(st.ok(), out, print);
  });
}
