#!/usr/bin/env python3
"""A small mlir-tblgen: turns the records of a .td file (as dumped by llvm-tblgen --dump-json) into
the C++ the converter includes. The sandbox has LLVM's and MLIR's headers and libraries but no
mlir-tblgen, so the dialect and pattern files of the repository are translated here.

usage: gen.py MODE in.td.json out [DialectName]
MODE: dialect-decls dialect-defs op-decls op-defs rewriters
"""
import json
import re
import sys


class Db:
    def __init__(self, path):
        with open(path) as f:
            self.d = json.load(f)

    def __getitem__(self, n):
        return self.d[n]

    def isa(self, n, cls):
        return n in self.d and cls in self.d[n].get("!superclasses", [])

    def instances(self, cls):
        return self.d["!instanceof"].get(cls, [])


def defname(x):
    return x["def"] if isinstance(x, dict) and x.get("kind") == "def" else None


def isdag(x):
    return isinstance(x, dict) and x.get("kind") == "dag"


def code(x):
    return x or ""


# ---------------------------------------------------------------- predicates

def subst(s, ctx):
    """Replace $_self, $_builder, $_op, $0.. in s; longest names first."""
    def rep(m):
        k = m.group(1)
        if k in ctx:
            return ctx[k]
        return m.group(0)
    return re.sub(r"\$(_self|_builder|_op|_loc|\d+)", rep, s)


def pred(db, n, ctx):
    if n is None:
        return "true"
    r = db[n]
    if "predExpr" in r:
        return "(" + subst(r["predExpr"], ctx) + ")"
    return subst(rawpred(db, n), ctx)


def rawpred(db, n):
    r = db[n]
    if "predExpr" in r:
        return "(" + r["predExpr"] + ")"
    kind = defname(r["kind"])
    ch = [rawpred(db, defname(c)) for c in r["children"]]
    if kind == "PredCombinerAnd":
        return "(" + " && ".join(ch) + ")" if ch else "true"
    if kind == "PredCombinerOr":
        return "(" + " || ".join(ch) + ")" if ch else "false"
    if kind == "PredCombinerNot":
        return "(!" + ch[0] + ")"
    if kind == "PredCombinerSubstLeaves":
        return ch[0].replace(r["pattern"], r["replacement"])
    if kind == "PredCombinerConcat":
        return "(" + r["prefix"] + ch[0] + r["suffix"] + ")"
    raise SystemExit("gen.py: predicate combiner %s is not supported" % kind)


# ---------------------------------------------------------------- operators

def camel(s, upper=True):
    out = "".join(p[:1].upper() + p[1:] for p in s.split("_"))
    return out if upper else out[:1].lower() + out[1:]


class Arg:
    pass


class OpInfo:
    def __init__(self, db, n):
        r = db[n]
        self.db, self.rec, self.name = db, r, n
        dia = db[defname(r["opDialect"])]
        self.dialect = dia
        pre = dia["name"]
        self.opname = pre + "." + r["opName"] if pre else r["opName"]
        self.ns = (r.get("cppNamespace") or "").strip(":")
        self.cls = n.split("_", 1)[1] if "_" in n else n
        self.qual = "::" + self.ns + "::" + self.cls if self.ns else self.cls
        self.args = []
        for i, (t, nm) in enumerate(r["arguments"]["args"]):
            self.args.append(self.mkarg(t, nm))
        self.results = [self.mkarg(t, nm) for t, nm in r["results"]["args"]]
        self.operands = [a for a in self.args if a.kind == "operand"]
        self.attrs = [a for a in self.args if a.kind == "attr"]
        for i, a in enumerate(self.operands):
            a.index = i
        for i, a in enumerate(self.results):
            a.index = i
        self.traits, self.pure = [], False
        self.collect(r["traits"])
        builders = r.get("builders") or []
        self.builders = [db[defname(b)] for b in builders]
        self.regions = r["regions"]["args"]
        self.successors = r["successors"]["args"]

    def mkarg(self, t, nm):
        db = self.db
        a = Arg()
        a.name = nm or ""
        while db.isa(defname(t), "OpVariable"):      # Arg<>, Res<>: decorated constraint
            t = db[defname(t)]["constraint"]
        a.con = defname(t)
        rec = db[a.con]
        a.rec = rec
        if "AttrConstraint" in rec["!superclasses"]:
            a.kind = "attr"
            base = rec
            a.optional = bool(rec.get("isOptional"))
            a.default = rec.get("defaultValue")
            a.storage = (base.get("storageType") or "::mlir::Attribute").strip()
            a.ret = (base.get("returnType") or a.storage).strip()
            a.conv = (base.get("convertFromStorage") or "$_self").strip()
            a.constb = (base.get("constBuilderCall") or "").strip() or None
            if a.default is not None and a.default == "":
                a.default = None
        else:
            a.kind = "operand"
            a.variadic = "Variadic" in rec["!superclasses"]
            a.optional = "Optional" in rec["!superclasses"]
            a.default = None
        return a

    def collect(self, traits):
        for t in traits:
            n = defname(t)
            r = self.db[n]
            sup = r["!superclasses"]
            if "TraitList" in sup:
                self.collect(r["traits"])
            elif "SideEffectsTraitBase" in sup:
                self.pure = not r.get("effects")
                self.traits.append("::mlir::MemoryEffectOpInterface::Trait")
                if r.get("effects"):
                    raise SystemExit("gen.py: memory effects of %s are not supported" % self.name)
            elif "OpInterfaceTrait" in sup or "InterfaceTrait" in sup or "OpInterface" in sup:
                ns = (r.get("cppNamespace") or "").strip(":")
                self.traits.append("::" + ns + "::" + r["cppInterfaceName"] + "::Trait")
            elif "NativeOpTrait" in sup or "NativeTrait" in sup or "ParamNativeTrait" in sup:
                ns = (r.get("cppNamespace") or "::mlir::OpTrait").strip(":")
                self.traits.append("::" + ns + "::" + r["trait"])
            elif "PredOpTrait" in sup or "PredTrait" in sup:
                self.predtraits = getattr(self, "predtraits", []) + [r]
            elif "GenInternalOpTrait" in sup or "GenInternalTrait" in sup:
                pass
            else:
                raise SystemExit("gen.py: trait %s of %s is not supported" % (n, self.name))

    def hastrait(self, t):
        return any(x.endswith("::" + t) for x in self.traits)


def ranges(op, what, items, adaptor=False):
    """body of getODS{Operand,Result}IndexAndLength"""
    n = len(items)
    var = [i for i, a in enumerate(items) if a.variadic or a.optional]
    if len(var) > 1:
        raise SystemExit("gen.py: more than one variadic %s in %s" % (what, op.name))
    if not var:
        return "  return {index, 1u};\n"
    v = var[0]
    return ("  unsigned var = %s - %du;\n  if (index < %du) return {index, 1u};\n"
            "  if (index == %du) return {index, var};\n  return {index - 1u + var, 1u};\n"
            % ("total", n - 1, v, v))


def default_expr(a, builder):
    return "(" + subst(subst(a.constb, {"0": subst(a.default, {"_builder": builder})}), {"_builder": builder}) + ")"


def op_class_decl(op):
    o = []
    C = op.cls
    nres, nopd = len(op.results), len(op.operands)
    vres = any(a.variadic or a.optional for a in op.results)
    vopd = any(a.variadic or a.optional for a in op.operands)
    if op.regions or op.successors:
        raise SystemExit("gen.py: regions or successors of %s are not supported" % op.name)
    tr = ["::mlir::OpTrait::ZeroRegions"]
    if vres:
        tr.append("::mlir::OpTrait::VariadicResults")
    elif nres == 0:
        tr.append("::mlir::OpTrait::ZeroResults")
    elif nres == 1:
        t = op.results[0].rec.get("cppClassName") or "::mlir::Type"
        tr += ["::mlir::OpTrait::OneResult", "::mlir::OpTrait::OneTypedResult<%s>::Impl" % t]
    else:
        tr.append("::mlir::OpTrait::NResults<%d>::Impl" % nres)
    tr.append("::mlir::OpTrait::ZeroSuccessors")
    if vopd:
        tr.append("::mlir::OpTrait::VariadicOperands")
    elif nopd == 0:
        tr.append("::mlir::OpTrait::ZeroOperands")
    elif nopd == 1:
        tr.append("::mlir::OpTrait::OneOperand")
    else:
        tr.append("::mlir::OpTrait::NOperands<%d>::Impl" % nopd)
    tr.append("::mlir::OpTrait::OpInvariants")
    tr += op.traits
    # adaptor
    o.append("namespace detail {\nclass %sGenericAdaptorBase {\nprotected:\n  ::mlir::DictionaryAttr odsAttrs;\n"
             "  ::std::optional<::mlir::OperationName> odsOpName;\n  ::mlir::RegionRange odsRegions;\npublic:\n"
             "  %sGenericAdaptorBase(::mlir::DictionaryAttr attrs = nullptr, const ::mlir::EmptyProperties &properties = {}, ::mlir::RegionRange regions = {});\n"
             "  %sGenericAdaptorBase(%s op);\n"
             "  std::pair<unsigned, unsigned> getODSOperandIndexAndLength(unsigned index, unsigned total);\n"
             "  ::mlir::DictionaryAttr getAttributes() { return odsAttrs; }\n" % (C, C, C, C))
    for a in op.attrs:
        o.append("  %s get%sAttr();\n" % (a.storage, camel(a.name)))
        o.append("  %s get%s();\n" % (retty(a), camel(a.name)))
    o.append("};\n}  // namespace detail\n")
    o.append("template <typename RangeT>\nclass %sGenericAdaptor : public detail::%sGenericAdaptorBase {\n"
             "  using ValueT = ::llvm::detail::ValueOfRange<RangeT>;\n  using Base = detail::%sGenericAdaptorBase;\npublic:\n"
             "  %sGenericAdaptor(RangeT values, ::mlir::DictionaryAttr attrs = nullptr, const ::mlir::EmptyProperties &properties = {}, ::mlir::RegionRange regions = {}) : Base(attrs, properties, regions), odsOperands(values) {}\n"
             "  %sGenericAdaptor(RangeT values, ::mlir::DictionaryAttr attrs, ::mlir::OpaqueProperties, ::mlir::RegionRange regions = {}) : %sGenericAdaptor(values, attrs, ::mlir::EmptyProperties{}, regions) {}\n"
             "  template <typename LateInst = %s, typename = std::enable_if_t<std::is_same_v<LateInst, %s>>>\n"
             "  %sGenericAdaptor(RangeT values, LateInst op) : Base(op), odsOperands(values) {}\n"
             "  std::pair<unsigned, unsigned> getODSOperandIndexAndLength(unsigned index) { return Base::getODSOperandIndexAndLength(index, odsOperands.size()); }\n"
             "  RangeT getODSOperands(unsigned index) {\n    auto r = getODSOperandIndexAndLength(index);\n"
             "    return {std::next(odsOperands.begin(), r.first), std::next(odsOperands.begin(), r.first + r.second)};\n  }\n"
             % (C, C, C, C, C, C, C, C, C))
    for a in op.operands:
        if a.variadic:
            o.append("  RangeT get%s() { return getODSOperands(%d); }\n" % (camel(a.name), a.index))
        else:
            o.append("  ValueT get%s() { return (*getODSOperands(%d).begin()); }\n" % (camel(a.name), a.index))
    o.append("  RangeT getOperands() { return odsOperands; }\nprivate:\n  RangeT odsOperands;\n};\n")
    o.append("class %sAdaptor : public %sGenericAdaptor<::mlir::ValueRange> {\npublic:\n  using %sGenericAdaptor::%sGenericAdaptor;\n"
             "  %sAdaptor(%s op);\n  ::mlir::LogicalResult verify(::mlir::Location loc) { return ::mlir::success(); }\n};\n" % (C, C, C, C, C, C))
    o.append("class %s : public ::mlir::Op<%s, %s> {\npublic:\n  using Op::Op;\n  using Op::print;\n  using Adaptor = %sAdaptor;\n"
             "  template <typename RangeT>\n  using GenericAdaptor = %sGenericAdaptor<RangeT>;\n"
             "  using FoldAdaptor = GenericAdaptor<::llvm::ArrayRef<::mlir::Attribute>>;\n" % (C, C, ", ".join(tr), C, C))
    if op.attrs:
        o.append("  static ::llvm::ArrayRef<::llvm::StringRef> getAttributeNames() {\n    static ::llvm::StringRef names[] = {%s};\n    return ::llvm::ArrayRef(names);\n  }\n"
                 % ", ".join('::llvm::StringRef("%s")' % a.name for a in op.attrs))
    else:
        o.append("  static ::llvm::ArrayRef<::llvm::StringRef> getAttributeNames() { return {}; }\n")
    for i, a in enumerate(op.attrs):
        o.append("  ::mlir::StringAttr get%sAttrName() { return (*this)->getName().getAttributeNames()[%d]; }\n" % (camel(a.name), i))
    o.append("  static constexpr ::llvm::StringLiteral getOperationName() { return ::llvm::StringLiteral(\"%s\"); }\n" % op.opname)
    o.append("  std::pair<unsigned, unsigned> getODSOperandIndexAndLength(unsigned index);\n"
             "  ::mlir::Operation::operand_range getODSOperands(unsigned index);\n"
             "  std::pair<unsigned, unsigned> getODSResultIndexAndLength(unsigned index);\n"
             "  ::mlir::Operation::result_range getODSResults(unsigned index);\n")
    for a in op.operands:
        if not a.name:
            continue
        if a.variadic:
            o.append("  ::mlir::Operation::operand_range get%s() { return getODSOperands(%d); }\n" % (camel(a.name), a.index))
            o.append("  ::mlir::MutableOperandRange get%sMutable() { auto r = getODSOperandIndexAndLength(%d); return ::mlir::MutableOperandRange(getOperation(), r.first, r.second); }\n" % (camel(a.name), a.index))
        else:
            o.append("  ::mlir::Value get%s() { return *getODSOperands(%d).begin(); }\n" % (camel(a.name), a.index))
            o.append("  ::mlir::OpOperand &get%sMutable() { return getOperation()->getOpOperand(getODSOperandIndexAndLength(%d).first); }\n" % (camel(a.name), a.index))
    for a in op.results:
        if not a.name:
            continue
        if a.variadic:
            o.append("  ::mlir::Operation::result_range get%s() { return getODSResults(%d); }\n" % (camel(a.name), a.index))
        else:
            o.append("  ::mlir::Value get%s() { return *getODSResults(%d).begin(); }\n" % (camel(a.name), a.index))
    for a in op.attrs:
        N = camel(a.name)
        o.append("  %s get%sAttr();\n  %s get%s();\n  void set%sAttr(%s attr);\n" % (a.storage, N, retty(a), N, N, a.storage))
        if settable(a):
            o.append("  void set%s(%s v);\n" % (N, retty(a)))
        if a.optional:
            o.append("  ::mlir::Attribute remove%sAttr() { return (*this)->removeAttr(\"%s\"); }\n" % (N, a.name))
    if any(a.default is not None and "DefaultValuedOptionalAttr" not in a.rec["!superclasses"] for a in op.attrs):
        o.append("  static void populateDefaultAttrs(const ::mlir::OperationName &opName, ::mlir::NamedAttrList &attributes);\n")
    for sig in builder_sigs(op):
        o.append("  static void build(%s);\n" % sig[0])
    o.append("  ::mlir::LogicalResult verifyInvariantsImpl();\n  ::mlir::LogicalResult verifyInvariants();\n")
    r = op.rec
    if r.get("hasVerifier"):
        o.append("  ::mlir::LogicalResult verify();\n")
    if r.get("hasFolder"):
        if nres == 1 and not vres:
            o.append("  ::mlir::OpFoldResult fold(FoldAdaptor adaptor);\n")
        else:
            o.append("  ::mlir::LogicalResult fold(FoldAdaptor adaptor, ::llvm::SmallVectorImpl<::mlir::OpFoldResult> &results);\n")
    if r.get("hasCanonicalizer"):
        o.append("  static void getCanonicalizationPatterns(::mlir::RewritePatternSet &results, ::mlir::MLIRContext *context);\n")
    if r.get("hasCanonicalizeMethod"):
        o.append("  static ::mlir::LogicalResult canonicalize(%s op, ::mlir::PatternRewriter &rewriter);\n" % C)
    if op.pure:
        o.append("  void getEffects(::llvm::SmallVectorImpl<::mlir::SideEffects::EffectInstance<::mlir::MemoryEffects::Effect>> &effects) {}\n")
    if r.get("hasCustomAssemblyFormat") or r.get("assemblyFormat"):
        raise SystemExit("gen.py: custom assembly of %s is not supported" % op.name)
    o.append("public:\n" + code(r.get("extraClassDeclaration")) + "\n};\n")
    return "".join(o)


def retty(a):
    return "::std::optional<%s>" % a.ret if a.optional and a.ret != "bool" else a.ret


def settable(a):
    return a.storage in ("::mlir::IntegerAttr", "::mlir::StringAttr", "::mlir::BoolAttr") and a.constb and not a.optional


def rawarg(a):
    """raw value builder parameter type, or None"""
    if a.constb and not a.optional and a.ret in ("uint32_t", "uint64_t", "::llvm::StringRef", "bool", "int32_t", "int64_t"):
        return a.ret
    return None


def builder_sigs(op):
    """list of (parameter list, body)"""
    sigs = []
    B = "::mlir::OpBuilder &odsBuilder, ::mlir::OperationState &odsState"
    vres = any(a.variadic or a.optional for a in op.results)
    infer = op.hastrait("SameOperandsAndResultType") and len(op.operands) > 0
    for b in op.builders:
        ps = []
        for t, nm in b["dagParams"]["args"]:
            df = ""
            if not isinstance(t, str):
                df = db_def(op, t)
                t = op.db[defname(t)]["type"]
            ps.append("%s %s%s" % (t, nm, df))
        sigs.append((", ".join(["::mlir::OpBuilder &" + ("odsBuilder" if b.get("body") else ""), "::mlir::OperationState &odsState"] + ps), b.get("body") or None, True))
    if op.rec.get("skipDefaultBuilders"):
        return sigs

    def params(raw):
        out, body = [], []
        for a in op.args:
            if a.kind == "operand":
                if a.variadic:
                    out.append("::mlir::ValueRange " + a.name)
                    body.append("  odsState.addOperands(%s);\n" % a.name)
                elif a.optional:
                    out.append("::mlir::Value " + a.name)
                    body.append("  if (%s) odsState.addOperands(%s);\n" % (a.name, a.name))
                else:
                    out.append("::mlir::Value " + a.name)
                    body.append("  odsState.addOperands(%s);\n" % a.name)
            else:
                rt = rawarg(a) if raw else None
                if rt:
                    out.append("%s %s" % (rt, a.name))
                    body.append('  odsState.addAttribute("%s", %s);\n' % (a.name, subst(a.constb, {"_builder": "odsBuilder", "0": a.name})))
                else:
                    out.append("%s %s" % (a.storage, a.name))
                    if a.optional or a.default is not None:
                        body.append('  if (%s) odsState.addAttribute("%s", %s);\n' % (a.name, a.name, a.name))
                    else:
                        body.append('  odsState.addAttribute("%s", %s);\n' % (a.name, a.name))
        return out, "".join(body)

    variants = [False]
    if any(a.kind == "attr" and rawarg(a) for a in op.args):
        variants.append(True)
    for raw in variants:
        ps, body = params(raw)
        if op.results and not (vres and len(op.results) == 1):
            rp = ["::mlir::Type %s" % (a.name or "r%d" % a.index) for a in op.results]
            rb = "".join("  odsState.addTypes(%s);\n" % (a.name or "r%d" % a.index) for a in op.results)
            sigs.append((", ".join([B] + rp + ps), body + rb, False))
        sigs.append((", ".join([B, "::mlir::TypeRange resultTypes"] + ps), body + "  odsState.addTypes(resultTypes);\n", False))
        if infer:
            sigs.append((", ".join([B] + ps), body + "  odsState.addTypes({%s.getType()});\n" % op.operands[0].name, False))
    gen = "  odsState.addOperands(operands);\n  odsState.addAttributes(attributes);\n"
    sigs.append((B + ", ::mlir::TypeRange resultTypes, ::mlir::ValueRange operands, ::llvm::ArrayRef<::mlir::NamedAttribute> attributes = {}",
                 gen + "  odsState.addTypes(resultTypes);\n", False))
    if infer:
        sigs.append((B + ", ::mlir::ValueRange operands, ::llvm::ArrayRef<::mlir::NamedAttribute> attributes = {}",
                     gen + "  odsState.addTypes({operands.front().getType()});\n", False))
    seen, out = set(), []
    for s in sigs:
        key = re.sub(r"\s*=\s*\{\}", "", s[0])
        key = tuple(" ".join(p.split()[:-1]) for p in key.split(", "))
        if key in seen:
            continue
        seen.add(key)
        out.append(s)
    return out


def db_def(op, t):
    v = op.db[defname(t)].get("defaultValue")
    return " = " + v if v else ""


def op_defs(op):
    o, C = [], op.cls
    B = "detail::%sGenericAdaptorBase" % C
    o.append("namespace detail {\n%sGenericAdaptorBase::%sGenericAdaptorBase(::mlir::DictionaryAttr attrs, const ::mlir::EmptyProperties &, ::mlir::RegionRange regions) : odsAttrs(attrs), odsRegions(regions) { if (odsAttrs) odsOpName.emplace(\"%s\", odsAttrs.getContext()); }\n"
             "%sGenericAdaptorBase::%sGenericAdaptorBase(%s op) : odsAttrs(op->getDiscardableAttrDictionary()), odsOpName(op->getName()), odsRegions(op->getRegions()) {}\n"
             "std::pair<unsigned, unsigned> %sGenericAdaptorBase::getODSOperandIndexAndLength(unsigned index, unsigned total) {\n%s}\n"
             % (C, C, op.opname, C, C, C, C, ranges(op, "operand", op.operands)))
    for a in op.attrs:
        N = camel(a.name)
        o.append("%s %sGenericAdaptorBase::get%sAttr() {\n  auto attr = ::llvm::dyn_cast_or_null<%s>(odsAttrs.get(\"%s\"));\n" % (a.storage, C, N, a.storage, a.name))
        if a.default is not None:
            o.append("  ::mlir::Builder odsBuilder(odsAttrs.getContext());\n  if (!attr) attr = %s;\n" % default_expr(a, "odsBuilder"))
        o.append("  return attr;\n}\n")
        o.append("%s %sGenericAdaptorBase::get%s() {\n  auto attr = get%sAttr();\n%s}\n" % (retty(a), C, N, N, getter(a)))
    o.append("}  // namespace detail\n%sAdaptor::%sAdaptor(%s op) : %sAdaptor(op->getOperands(), op) {}\n" % (C, C, C, C))
    o.append("std::pair<unsigned, unsigned> %s::getODSOperandIndexAndLength(unsigned index) {\n  unsigned total = getOperation()->getNumOperands(); (void)total;\n%s}\n" % (C, ranges(op, "operand", op.operands)))
    o.append("std::pair<unsigned, unsigned> %s::getODSResultIndexAndLength(unsigned index) {\n  unsigned total = getOperation()->getNumResults(); (void)total;\n%s}\n" % (C, ranges(op, "result", op.results)))
    o.append("::mlir::Operation::operand_range %s::getODSOperands(unsigned index) {\n  auto r = getODSOperandIndexAndLength(index);\n  return {std::next(getOperation()->operand_begin(), r.first), std::next(getOperation()->operand_begin(), r.first + r.second)};\n}\n" % C)
    o.append("::mlir::Operation::result_range %s::getODSResults(unsigned index) {\n  auto r = getODSResultIndexAndLength(index);\n  return {std::next(getOperation()->result_begin(), r.first), std::next(getOperation()->result_begin(), r.first + r.second)};\n}\n" % C)
    for a in op.attrs:
        N = camel(a.name)
        o.append("%s %s::get%sAttr() { return ::llvm::dyn_cast_or_null<%s>((*this)->getAttr(\"%s\")); }\n" % (a.storage, C, N, a.storage, a.name))
        dflt = ""
        if a.default is not None:
            dflt = "  ::mlir::Builder odsBuilder((*this)->getContext());\n  if (!attr) attr = %s;\n" % default_expr(a, "odsBuilder")
        o.append("%s %s::get%s() {\n  auto attr = get%sAttr();\n%s%s}\n" % (retty(a), C, N, N, dflt, getter(a)))
        o.append("void %s::set%sAttr(%s attr) { (*this)->setAttr(\"%s\", attr); }\n" % (C, N, a.storage, a.name))
        if settable(a):
            o.append("void %s::set%s(%s v) { ::mlir::Builder odsBuilder((*this)->getContext()); (*this)->setAttr(\"%s\", %s); }\n" % (C, N, retty(a), a.name, subst(a.constb, {"_builder": "odsBuilder", "0": "v"})))
    dfl = [a for a in op.attrs if a.default is not None and "DefaultValuedOptionalAttr" not in a.rec["!superclasses"]]
    if dfl:
        o.append("void %s::populateDefaultAttrs(const ::mlir::OperationName &opName, ::mlir::NamedAttrList &attributes) {\n  ::mlir::Builder odsBuilder(const_cast<::mlir::OperationName &>(opName).getContext());\n" % C)
        for a in dfl:
            o.append("  if (!attributes.get(\"%s\")) attributes.append(odsBuilder.getStringAttr(\"%s\"), %s);\n" % (a.name, a.name, default_expr(a, "odsBuilder")))
        o.append("}\n")
    for sig, body, custom in builder_sigs(op):
        if body is None:
            continue
        sig = re.sub(r"\s*=\s*\{\}", "", sig)
        o.append("void %s::build(%s) {\n%s}\n" % (C, sig, body))
    # invariants
    o.append("::mlir::LogicalResult %s::verifyInvariantsImpl() {\n  ::mlir::Builder odsBuilder(getContext()); (void)odsBuilder;\n" % C)
    for a in op.attrs:
        p = pred(op.db, defname(a.rec["predicate"]), {"_self": "attr", "_builder": "odsBuilder", "_op": "(*getOperation())"})
        o.append("  {\n    ::mlir::Attribute attr = (*this)->getAttr(\"%s\");\n" % a.name)
        if not a.optional and a.default is None:
            o.append("    if (!attr) return emitOpError(\"requires attribute '%s'\");\n" % a.name)
        o.append("    if (attr && !%s) return emitOpError(\"attribute '%s' failed to satisfy constraint: %s\");\n  }\n" % (p, a.name, esc(a.rec.get("summary"))))
    for items, getf, what in ((op.operands, "getODSOperands", "operand"), (op.results, "getODSResults", "result")):
        for a in items:
            p = pred(op.db, defname(a.rec["predicate"]), {"_self": "type", "_builder": "odsBuilder", "_op": "(*getOperation())"})
            o.append("  for (auto v : %s(%d)) {\n    ::mlir::Type type = v.getType(); (void)type;\n    if (!%s) return emitOpError(\"%s '%s' must be %s, but got \") << type;\n  }\n"
                     % (getf, a.index, p, what, a.name, esc(a.rec.get("summary"))))
    for r in getattr(op, "predtraits", []):
        p = pred(op.db, defname(r["predicate"]), {"_op": "(*this)", "_self": "(*this)"})
        o.append("  if (!%s) return emitOpError(\"failed to verify that %s\");\n" % (p, esc(r.get("summary"))))
    o.append("  return ::mlir::success();\n}\n")
    o.append("::mlir::LogicalResult %s::verifyInvariants() {\n  if (::mlir::failed(verifyInvariantsImpl())) return ::mlir::failure();\n%s  return ::mlir::success();\n}\n"
             % (C, "  if (::mlir::failed(verify())) return ::mlir::failure();\n" if op.rec.get("hasVerifier") else ""))
    o.append(code(op.rec.get("extraClassDefinition")))
    return "".join(o)


def esc(s):
    return (s or "").replace("\\", "\\\\").replace('"', '\\"').replace("\n", " ")


def getter(a):
    conv = subst(a.conv, {"_self": "attr"})
    if a.optional:
        if a.ret == "bool":
            return "  return attr != nullptr;\n"
        return "  return attr ? ::std::optional<%s>(%s) : ::std::nullopt;\n" % (a.ret, conv)
    return "  return %s;\n" % conv


def ns_open(ns):
    return "".join("namespace %s {\n" % p for p in ns.split("::") if p)


def ns_close(ns):
    return "".join("}  // namespace %s\n" % p for p in reversed([p for p in ns.split("::") if p]))


def dialect_ops(db, dialect):
    return [OpInfo(db, n) for n in db.instances("Op") if defname(db[n]["opDialect"]) == dialect]


def pick_dialect(db, want):
    ds = db.instances("Dialect")
    for d in ds:
        if d == want or db[d]["name"] == want:
            return d
    raise SystemExit("gen.py: no dialect " + want)


def dialect_class(db, d):
    n = d.replace("_", "")
    return n if n.endswith("Dialect") else n + "Dialect"


def dialect_decls(db, d, cls):
    r = db[d]
    ns = r["cppNamespace"].strip(":")
    o = [ns_open(ns)]
    o.append("class %s : public ::mlir::Dialect {\n  explicit %s(::mlir::MLIRContext *context);\n  void initialize();\n  friend class ::mlir::MLIRContext;\npublic:\n  ~%s() override;\n"
             "  static constexpr ::llvm::StringLiteral getDialectNamespace() { return ::llvm::StringLiteral(\"%s\"); }\n" % (cls, cls, cls, r["name"]))
    if r.get("hasConstantMaterializer"):
        o.append("  ::mlir::Operation *materializeConstant(::mlir::OpBuilder &builder, ::mlir::Attribute value, ::mlir::Type type, ::mlir::Location loc) override;\n")
    o.append(code(r.get("extraClassDeclaration")) + "\n};\n" + ns_close(ns))
    o.append("MLIR_DECLARE_EXPLICIT_TYPE_ID(::%s::%s)\n" % (ns, cls))
    return "".join(o)


def dialect_defs(db, d, cls):
    r = db[d]
    ns = r["cppNamespace"].strip(":")
    deps = "".join("  getContext()->loadDialect<%s>();\n" % x for x in (r.get("dependentDialects") or []))
    return ("MLIR_DEFINE_EXPLICIT_TYPE_ID(::%s::%s)\n" % (ns, cls) + ns_open(ns) +
            "%s::%s(::mlir::MLIRContext *context) : ::mlir::Dialect(getDialectNamespace(), context, ::mlir::TypeID::get<%s>()) {\n%s  initialize();\n}\n%s::~%s() = default;\n"
            % (cls, cls, cls, deps, cls, cls) + ns_close(ns))


# ---------------------------------------------------------------- rewrite patterns

class Rule:
    def __init__(self, db, n, k):
        self.db, self.rec, self.k, self.n = db, db[n], k, n
        self.lines, self.ind = [], 2
        self.syms = {}       # name -> (kind, C++ variable): kind in attr, operands, results
        self.ranges = {}     # name -> C++ range, for variadic operands and results
        self.decl = []
        self.uid = 0
        self.nops = 0
        self.gen = []

    def emit(self, s):
        self.lines.append("  " * self.ind + s)

    def fresh(self, p):
        self.uid += 1
        return "tblgen_%s_%d" % (p, self.uid)

    def opinfo(self, n):
        c = self.db.__dict__.setdefault("opcache", {})
        if n not in c:
            c[n] = OpInfo(self.db, n)
        return c[n]

    def isop(self, dag):
        return isdag(dag) and self.db.isa(defname(dag["operator"]), "Op")

    def bind(self, name, kind, var, eq=None):
        """bind a symbol in the source pattern; a repeated name demands equality"""
        if name in self.syms:
            k, v = self.syms[name]
            self.emit("if (!(%s == %s)) return rewriter.notifyMatchFailure(op0, \"operands differ\");" % (
                v if k == "attr" else "*%s.begin()" % v, var if kind == "attr" else "*%s.begin()" % var))
            return
        self.syms[name] = (kind, var)

    def sym(self, name):
        if name not in self.syms:
            base, _, idx = name.rpartition("__")
            if base and base in self.syms and idx.isdigit():
                k, v = self.syms[base]
                if k == "op":
                    return "values", "%s.getODSResults(%s)" % (v, idx)
            raise SystemExit("gen.py: unbound symbol %s in %s" % (name, self.n))
        k, v = self.syms[name]
        if k == "op":
            return "values", "%s->getResults()" % v
        return k, v

    def symval(self, name):
        """symbol as a single C++ value (a range if variadic) for native calls and constraints"""
        if name in self.ranges:
            return self.ranges[name]
        k, v = self.sym(name)
        return v if k == "attr" or k == "value" else "(*%s.begin())" % v

    # ---- matching
    def match(self, dag, var, depth):
        op = self.opinfo(defname(dag["operator"]))
        self.nops += 1
        cast = self.fresh("cast")
        self.emit("auto %s = ::llvm::dyn_cast_or_null<%s>(%s); (void)%s;" % (cast, op.qual, var, cast))
        if depth:
            self.emit("if (!%s) return rewriter.notifyMatchFailure(op0, \"operand is not %s\");" % (cast, op.opname))
            self.emit("tblgen_ops.push_back(%s);" % var)
        if dag.get("name"):
            self.bind(dag["name"], "op", cast)
            if len(op.results) == 1 and op.results[0].variadic:
                self.ranges[dag["name"]] = "%s.getODSResults(0)" % cast
        args = dag["args"]
        if len(args) != len(op.args):
            raise SystemExit("gen.py: %s: op %s matched with %d of %d arguments" % (self.n, op.name, len(args), len(op.args)))
        for (t, name), a in zip(args, op.args):
            if isdag(t) and defname(t["operator"]) == "either":
                raise SystemExit("gen.py: 'either' is not supported")
        # operands first come in order with nested matches, as the real generator does
        for (t, name), a in zip(args, op.args):
            if a.kind == "operand":
                rng = self.fresh("range")
                if isdag(t):
                    if not self.isop(t):
                        self.match_native_value(t, cast, a, name)
                        continue
                    v = self.fresh("op")
                    self.emit("::mlir::Operation *%s = (*%s.getODSOperands(%d).begin()).getDefiningOp();" % (v, cast, a.index))
                    self.emit("if (!%s) return rewriter.notifyMatchFailure(op0, \"operand has no defining op\");" % v)
                    if name:
                        self.emit("auto %s = %s.getODSOperands(%d);" % (rng, cast, a.index))
                        self.bind(name, "operands", rng)
                    self.match(t, v, depth + 1)
                else:
                    self.emit("::mlir::Operation::operand_range %s = %s.getODSOperands(%d); (void)%s;" % (rng, cast, a.index, rng))
                    c = defname(t)
                    if c:
                        p = pred(self.db, defname(self.db[c]["predicate"]),
                                 {"_self": "(*%s.begin()).getType()" % rng, "_builder": "rewriter", "_op": "(*%s)" % var})
                        self.emit("if (!%s) return rewriter.notifyMatchFailure(op0, \"type constraint failed\");" % p)
                    if name:
                        self.bind(name, "operands", rng)
                        if a.variadic:
                            self.ranges[name] = rng
            else:
                v = self.fresh("attr")
                if isdag(t):
                    self.match_native_attr(t, cast, a, v, var)
                    continue
                self.emit("auto %s = %s->getAttrOfType<%s>(\"%s\"); (void)%s;" % (v, var, a.storage, a.name, v))
                if a.default is not None:
                    self.emit("if (!%s) %s = %s;" % (v, v, default_expr(a, "rewriter")))
                elif not a.optional:
                    self.emit("if (!%s) return rewriter.notifyMatchFailure(op0, \"expected attribute %s\");" % (v, a.name))
                c = defname(t)
                if c:
                    p = pred(self.db, defname(self.db[c]["predicate"]), {"_self": v, "_builder": "rewriter", "_op": "(*%s)" % var})
                    self.emit("if (%s!%s) return rewriter.notifyMatchFailure(op0, \"attribute constraint on %s failed\");"
                              % ("!%s || " % v if a.optional else "", p, a.name))
                elif t is not None:
                    raise SystemExit("gen.py: %s: unsupported attribute matcher %r" % (self.n, t))
                if name:
                    self.bind(name, "attr", v)

    def match_native_value(self, t, cast, a, name):
        n = defname(t["operator"])
        if not self.db.isa(n, "NativeCodeCall"):
            raise SystemExit("gen.py: %s: unsupported matcher %s" % (self.n, n))
        # NativeCodeCall matcher: expression yields LogicalResult, arguments are captured
        caps, ctx = [], {}
        v = self.fresh("op")
        self.emit("::mlir::Operation *%s = (*%s.getODSOperands(%d).begin()).getDefiningOp();" % (v, cast, a.index))
        self.emit("if (!%s) return rewriter.notifyMatchFailure(op0, \"operand has no defining op\");" % v)
        for i, (at, an) in enumerate(t["args"]):
            c = self.fresh("cap")
            isattr = defname(at) and self.db.isa(defname(at), "AttrConstraint")
            self.emit("%s %s;" % (self.db[defname(at)].get("storageType") or "::mlir::Attribute" if isattr else "::mlir::Value", c))
            ctx[str(i)] = c
            caps.append((at, an, c, isattr))
        ctx.update({"_self": v, "_builder": "rewriter"})
        self.emit("if (::mlir::failed(%s)) return rewriter.notifyMatchFailure(op0, \"native matcher failed\");" % subst(self.db[n]["expression"], ctx))
        self.emit("tblgen_ops.push_back(%s);" % v)
        for at, an, c, isattr in caps:
            if defname(at):
                p = pred(self.db, defname(self.db[defname(at)]["predicate"]), {"_self": c if isattr else c + ".getType()", "_builder": "rewriter"})
                self.emit("if (!%s) return rewriter.notifyMatchFailure(op0, \"constraint failed\");" % p)
            if an:
                self.bind(an, "attr" if isattr else "value", c)

    def match_native_attr(self, t, cast, a, v, var):
        raise SystemExit("gen.py: %s: native matcher on an attribute is not supported" % self.n)

    def constraint(self, dag):
        n = defname(dag["operator"])
        r = self.db[n]
        ctx = {"_builder": "rewriter", "_op": "(*op0)"}
        sup = r["!superclasses"]
        if "TypeConstraint" in sup:
            k, v = self.sym(dag["args"][0][1])
            ctx["_self"] = "%s.getType()" % self.symval(dag["args"][0][1])
        elif "AttrConstraint" in sup:
            ctx["_self"] = self.symval(dag["args"][0][1])
        else:
            for i, (t, nm) in enumerate(dag["args"]):
                if isdag(t):
                    ctx[str(i)] = self.native(t)
                elif nm is None:
                    ctx[str(i)] = self.leaf(t, None)
                else:
                    ctx[str(i)] = self.symval(nm)
            if dag["args"]:
                ctx["_self"] = ctx["0"]
        self.emit("if (!%s) return rewriter.notifyMatchFailure(op0, \"constraint %s failed\");" % (pred(self.db, defname(r["predicate"]), ctx), n))

    # ---- building
    def leaf(self, t, name):
        """argument that is not a dag: symbol, constant attribute, enum case or NativeCodeCall on a symbol"""
        n = defname(t)
        if n is None:
            if isinstance(t, str):
                return json.dumps(t)
            if isinstance(t, int) and not isinstance(t, bool):
                return str(t)
            return self.symval(name)
        r = self.db[n]
        sup = r["!superclasses"]
        if "ConstantAttr" in sup:
            a = self.db[defname(r["attr"])]
            return "(" + subst(subst(a["constBuilderCall"], {"0": r["value"]}), {"_builder": "rewriter"}) + ")"
        if "NativeCodeCall" in sup:
            x = self.symval(name)
            return "(" + subst(r["expression"], {"_self": x, "0": x, "_builder": "rewriter", "_loc": "odsLoc"}) + ")"
        return self.symval(name)

    def native(self, dag):
        n = defname(dag["operator"])
        r = self.db[n]
        ctx = {"_builder": "rewriter", "_loc": "odsLoc", "_self": "(*op0)"}
        for i, (t, nm) in enumerate(dag["args"]):
            if isdag(t):
                ctx[str(i)] = self.expr(t, 1, as_value=True)
            else:
                ctx[str(i)] = self.leaf(t, nm)
        return "(" + subst(r["expression"], ctx) + ")"

    def expr(self, dag, depth, as_value=False):
        """result pattern to a C++ expression"""
        n = defname(dag["operator"])
        if n == "replaceWithValue":
            return self.symval(dag["args"][0][1])
        if self.db.isa(n, "NativeCodeCall"):
            v = self.fresh("nat")
            self.emit("auto %s = %s; (void)%s;" % (v, self.native(dag), v))
            if dag.get("name"):
                self.syms[dag["name"]] = ("attr", v)
            return v
        if not self.db.isa(n, "Op"):
            raise SystemExit("gen.py: %s: unsupported result operator %s" % (self.n, n))
        v = self.build(dag, depth)
        return "(*%s->getResults().begin())" % v if as_value else v

    def build(self, dag, depth):
        op = self.opinfo(defname(dag["operator"]))
        self.gen.append(op.opname)
        args = list(dag["args"])
        # trailing (returnType ..) / (location ..) directives
        types, loc = None, "odsLoc"
        while args and isdag(args[-1][0]) and defname(args[-1][0]["operator"]) in ("returnType", "location"):
            t = args.pop()[0]
            if defname(t["operator"]) == "location":
                loc = self.location(t)
            else:
                types = [self.restype(x, nm) for x, nm in t["args"]]
        if len(args) != len(op.args):
            raise SystemExit("gen.py: %s: op %s built with %d of %d arguments" % (self.n, op.name, len(args), len(op.args)))
        vals = []
        for (t, nm), a in zip(args, op.args):
            if a.kind == "operand":
                if isdag(t):
                    vals.append((a, self.expr(t, depth + 1, as_value=True)))
                else:
                    k, sv = self.sym(nm) if nm and defname(t) is None else (None, None)
                    if a.variadic and k in ("operands", "values"):
                        vals.append((a, sv))
                    else:
                        vals.append((a, self.leaf(t, nm)))
            else:
                e = self.expr(t, depth + 1) if isdag(t) else self.leaf(t, nm)
                vals.append((a, e))
        v = self.fresh("new")
        aggregate = types is None and (op.hastrait("SameOperandsAndResultType") or op.hastrait("FirstAttrDerivedResultType"))
        if aggregate or depth == 0 or types is not None:
            V, A = self.fresh("values"), self.fresh("attrs")
            self.emit("::llvm::SmallVector<::mlir::Value, 4> %s; ::llvm::SmallVector<::mlir::NamedAttribute, 4> %s;" % (V, A))
            for a, e in vals:
                if a.kind == "operand":
                    if a.variadic:
                        self.emit("for (auto v : %s) %s.push_back(v);" % (e, V))
                    else:
                        self.emit("%s.push_back(%s);" % (V, e))
                else:
                    self.emit("if (::mlir::Attribute tmp = %s) %s.emplace_back(rewriter.getStringAttr(\"%s\"), tmp);" % (e, A, a.name))
            if aggregate:
                self.emit("auto %s = rewriter.create<%s>(%s, %s, %s);" % (v, op.qual, loc, V, A))
            else:
                T = self.fresh("types")
                if types is None:
                    self.emit("::llvm::SmallVector<::mlir::Type, 4> %s(op0->getResultTypes().begin(), op0->getResultTypes().end());" % T)
                else:
                    self.emit("::llvm::SmallVector<::mlir::Type, 4> %s{%s};" % (T, ", ".join(types)))
                self.emit("auto %s = rewriter.create<%s>(%s, %s, %s, %s);" % (v, op.qual, loc, T, V, A))
        else:
            ps = []
            for a, e in vals:
                ps.append(e if a.kind == "operand" else "::llvm::dyn_cast_or_null<%s>(::mlir::Attribute(%s))" % (a.storage, e))
            self.emit("auto %s = rewriter.create<%s>(%s);" % (v, op.qual, ", ".join([loc] + ps)))
        if dag.get("name"):
            self.syms[dag["name"]] = ("op", v)
        return v

    def location(self, dag):
        """(location $a, $b, .., "name")"""
        locs = ["%s.getLoc()" % self.symval(nm) for t, nm in dag["args"] if nm]
        name = [t for t, nm in dag["args"] if not nm]
        if len(name) > 1 or any(not isinstance(t, str) for t in name):
            raise SystemExit("gen.py: %s: unsupported location" % self.n)
        if name and not locs:
            return "::mlir::NameLoc::get(rewriter.getStringAttr(%s))" % json.dumps(name[0])
        if not name and len(locs) == 1:
            return locs[0]
        return "rewriter.getFusedLoc({%s}%s)" % (", ".join(locs), ", rewriter.getStringAttr(%s)" % json.dumps(name[0]) if name else "")

    def restype(self, t, nm):
        if isdag(t):
            return self.native(t)
        if isinstance(t, str):
            return subst(t, {"_builder": "rewriter"})
        return self.symval(nm) + ".getType()"

    def render(self):
        r = self.rec
        src = r["sourcePattern"]
        root = self.opinfo(defname(src["operator"]))
        self.emit("::llvm::SmallVector<::mlir::Operation *, 4> tblgen_ops;")
        self.emit("tblgen_ops.push_back(op0);")
        self.match(src, "op0", 0)
        for c in r["constraints"]:
            self.constraint(c)
        self.emit("::llvm::SmallVector<::mlir::Location, 4> tblgen_locs;")
        self.emit("for (auto *o : tblgen_ops) tblgen_locs.push_back(o->getLoc());")
        self.emit("auto odsLoc = rewriter.getFusedLoc(tblgen_locs); (void)odsLoc;")
        self.emit("::llvm::SmallVector<::mlir::Value, 4> tblgen_repl;")
        res = r["resultPatterns"]
        nroot = len(root.results)
        # The last patterns, as many as it takes to give the root's results, replace it; those
        # before them only make operators that the last ones (or side effects) need.
        first, have = len(res), 0
        while first > 0 and have < nroot:
            first -= 1
            n = defname(res[first]["operator"])
            have += len(self.opinfo(n).results) if self.db.isa(n, "Op") else int(self.db[n].get("numReturns", 1)) if self.db.isa(n, "NativeCodeCall") else 1
        for dag in res[:first]:
            n = defname(dag["operator"])
            if self.db.isa(n, "NativeCodeCall") and int(self.db[n].get("numReturns", 1)) == 0:
                self.emit("%s;" % self.native(dag))
            else:
                self.expr(dag, 1)
        for dag in res[first:]:
            n = defname(dag["operator"])
            if n == "replaceWithValue":
                k, v = self.sym(dag["args"][0][1])
                if k in ("operands", "values"):
                    self.emit("for (::mlir::Value v : %s) tblgen_repl.push_back(v);" % v)
                else:
                    self.emit("tblgen_repl.push_back(%s);" % v)
            elif self.db.isa(n, "NativeCodeCall"):
                self.emit("tblgen_repl.push_back(%s);" % self.expr(dag, 0))
            else:
                v = self.build(dag, 0)
                self.emit("for (::mlir::Value v : %s->getResults()) tblgen_repl.push_back(v);" % v)
        for dag in r.get("supplementalPatterns") or []:
            self.emit("(void)%s;" % self.native(dag))
        self.emit("rewriter.replaceOp(op0, tblgen_repl);")
        self.emit("return ::mlir::success();")
        benefit = self.nops + int(r["benefitDelta"]["args"][0][0])
        gens = ", ".join('"%s"' % g for g in sorted(set(self.gen)))
        return ("/* %s */\nstruct GeneratedConvert%d : public ::mlir::RewritePattern {\n  GeneratedConvert%d(::mlir::MLIRContext *context)\n"
                "      : ::mlir::RewritePattern(\"%s\", %d, context, {%s}) {}\n"
                "  ::mlir::LogicalResult matchAndRewrite(::mlir::Operation *op0, ::mlir::PatternRewriter &rewriter) const override {\n%s\n  }\n};\n"
                % (self.n, self.k, self.k, root.opname, benefit, gens, "\n".join(self.lines)))


def rewriters(db):
    o = []
    names = db.instances("Pattern")
    for k, n in enumerate(names):
        o.append(Rule(db, n, k).render())
    o.append("void LLVM_ATTRIBUTE_UNUSED populateWithGenerated(::mlir::RewritePatternSet &patterns) {\n")
    for k in range(len(names)):
        o.append("  patterns.add<GeneratedConvert%d>(patterns.getContext());\n" % k)
    o.append("}\n")
    return "".join(o)


def main():
    mode, src, out = sys.argv[1:4]
    db = Db(src)
    if mode == "rewriters":
        text = rewriters(db)
    else:
        d = pick_dialect(db, sys.argv[4])
        cls = sys.argv[5] if len(sys.argv) > 5 else dialect_class(db, d)
        ns = db[d]["cppNamespace"].strip(":")
        if mode == "dialect-decls":
            text = dialect_decls(db, d, cls)
        elif mode == "dialect-defs":
            text = dialect_defs(db, d, cls)
        else:
            ops = dialect_ops(db, d)
            if mode == "op-decls":
                text = "#ifdef GET_OP_CLASSES\n#undef GET_OP_CLASSES\n" + ns_open(ns)
                text += "".join("class %s;\n" % op.cls for op in ops)
                text += "".join(op_class_decl(op) for op in ops) + ns_close(ns)
                text += "".join("MLIR_DECLARE_EXPLICIT_TYPE_ID(%s)\n" % op.qual for op in ops) + "#endif\n"
            elif mode == "op-defs":
                text = "#ifdef GET_OP_LIST\n#undef GET_OP_LIST\n" + ",\n".join(op.qual for op in ops) + "\n#endif\n"
                text += "#ifdef GET_OP_CLASSES\n#undef GET_OP_CLASSES\n" + ns_open(ns) + "".join(op_defs(op) for op in ops) + ns_close(ns)
                text += "".join("MLIR_DEFINE_EXPLICIT_TYPE_ID(%s)\n" % op.qual for op in ops) + "#endif\n"
            else:
                raise SystemExit("gen.py: mode?")
    with open(out, "w") as f:
        f.write("// generated by gen.py\n" + text)


main()
