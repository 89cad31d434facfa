// ----------------------------------------------------------------------- K12
// Nodes, mostly damaged. `Judge` says, from the documented rules alone, whether
// Prepare has to accept, has to reject, or may do either.
struct TSpec {
  bool present = true;
  TfLiteType type = kTfLiteFloat32;
  std::vector<int> dims;
  TfLiteAllocationType at = kTfLiteMmapRo;
};
enum Verdict { kAccept, kReject, kEither };
struct NodeSpec {
  Conv c;
  int kern = 0;
  std::map<std::string, int64_t> opt;
  std::vector<TSpec> in;
  TSpec out;
  bool out_quant = false;
  bool long_inputs = false, short_inputs = false;
  std::vector<std::string> faults;
};

int OddInt(Rng& r) {
  return Pick(r, {0, -1, -2, 1, 2, 3, 5, 7, 17, 31, 32, 33, 64, 100, 1000, -1000});
}
TfLiteType OddType(Rng& r) {
  return Pick(r, {kTfLiteFloat32, kTfLiteInt8, kTfLiteInt32, kTfLiteBool, kTfLiteUInt8, kTfLiteInt64, kTfLiteInt16, kTfLiteFloat16});
}
std::vector<int> OddDims(Rng& r, std::vector<int> d) {
  switch (RandInt(r, 0, 5)) {
    case 0: return {};
    case 1: if (!d.empty()) d.pop_back(); return d;
    case 2: d.push_back(Pick(r, {1, 2, 0})); return d;
    case 3: d.insert(d.begin(), 1); return d;
    default:
      if (!d.empty()) {
        int i = RandInt(r, 0, (int)d.size() - 1);
        d[i] = Coin(r) ? d[i] + Pick(r, {-1, 1, 2, 32}) : Pick(r, {0, 1, 2, 3, 64});
        if (d[i] < 0) d[i] = 0;
      }
      return d;
  }
}

std::vector<uint8_t> OptionsOf(const std::map<std::string, int64_t>& o) {
  flexbuffers::Builder f;
  f.Map([&] { for (auto& kv : o) f.Int(kv.first.c_str(), kv.second); });
  f.Finish();
  return f.GetBuffer();
}
const char* kConvKeys[] = {"stride_height", "stride_width", "dilation_height_factor", "dilation_width_factor",
                           "padding", "pad_values", "channels_in", "fused_activation_function"};

Verdict JudgeConv(const NodeSpec& s, std::vector<int>* shape) {
  for (auto k : kConvKeys) if (!s.opt.count(k)) return kReject;
  auto o = [&](const char* k) { return s.opt.at(k); };
  if (o("pad_values") != 0 && o("pad_values") != 1) return kReject;
  if (s.short_inputs || s.long_inputs) return kReject;
  const TSpec &I = s.in[0], &F = s.in[1], &M = s.in[2], &B = s.in[3], &T = s.in[4];
  if (!I.present || !F.present) return kReject;
  if (I.dims.size() != 4 || F.dims.size() != 4) return kReject;
  if (I.type != kTfLiteInt32 || F.type != kTfLiteInt32) return kReject;
  if (s.out.type != kTfLiteInt32 && s.out.type != kTfLiteInt8 && s.out.type != kTfLiteFloat32) return kReject;
  const int64_t cin = o("channels_in");
  const int cout = F.dims[0];
  if (s.out.type == kTfLiteInt32) {
    if (!T.present || T.dims.size() != 1 || T.type != kTfLiteInt32 || T.dims[0] != cout) return kReject;
  } else {
    for (auto* q : {&M, &B})
      if (!q->present || q->dims.size() != 1 || q->type != kTfLiteFloat32 || q->dims[0] != cout) return kReject;
  }
  if (s.out.type == kTfLiteInt8 && !s.out_quant) return kReject;
  if (s.kern == kIndirect && I.at == kTfLiteDynamic) return kReject;
  bool odd = false;  // values nobody defines a meaning for
  if (cin <= 0 || F.dims[3] <= 0) odd = true;
  int groups = 1;
  if (!odd) {
    const int w = Words((int)cin);
    if (F.dims[3] != w) {
      if (w % F.dims[3]) return kReject;
      groups = w / F.dims[3];
      if (s.kern == kBgemm) return kReject;
      if ((cin / groups) % 32) return kReject;
      if (cout % groups) return kReject;
    }
    if (I.dims[3] != w) return kReject;  // mismatched channels
  }
  const bool known_pad = o("padding") == 0 || o("padding") == 1;
  const int act = (int)o("fused_activation_function");
  if (o("padding") == 0 && o("pad_values") == 0) {
    if (s.kern == kRef) {
      if (cin % 2) return kReject;
    } else if (s.out.type != kTfLiteFloat32 || (act >= 1 && act <= 3)) {
      return kReject;
    }
  }
  if (!known_pad || act < 0 || act > 3) odd = true;
  for (auto k : {"stride_height", "stride_width", "dilation_height_factor", "dilation_width_factor"})
    if (o(k) <= 0) odd = true;
  for (int d : I.dims) if (d <= 0) odd = true;
  for (int d : F.dims) if (d <= 0) odd = true;
  if (odd) return kEither;
  Conv c = s.c;
  c.n = I.dims[0]; c.ih = I.dims[1]; c.iw = I.dims[2];
  c.cin = (int)cin; c.cout = cout; c.fh = F.dims[1]; c.fw = F.dims[2];
  c.sh = (int)o("stride_height"); c.sw = (int)o("stride_width");
  c.dh = (int)o("dilation_height_factor"); c.dw = (int)o("dilation_width_factor");
  c.same = o("padding") == 0;
  if (!c.same && (c.effh() > c.ih || c.effw() > c.iw)) return kEither;  // empty window
  *shape = {c.n, c.OH(), c.OW(), s.out.type == kTfLiteInt32 ? Words(cout) : cout};
  if (s.out.at != kTfLiteArenaRw) return kEither;
  return kAccept;
}

void K12Conv(Rng& r, Report& rep) {
  NodeSpec s;
  Profile p;
  s.c = MakeConv(r, p);
  s.kern = RandInt(r, 0, 2);
  Conv& c = s.c;
  for (auto k : kConvKeys) s.opt[k] = 0;
  s.opt["stride_height"] = c.sh; s.opt["stride_width"] = c.sw;
  s.opt["dilation_height_factor"] = c.dh; s.opt["dilation_width_factor"] = c.dw;
  s.opt["padding"] = c.same ? 0 : 1; s.opt["pad_values"] = c.pad_value;
  s.opt["channels_in"] = c.cin; s.opt["fused_activation_function"] = c.act;
  if (Coin(r, 1, 6)) s.opt["something_new"] = 5;
  s.in.resize(5);
  s.in[0] = {true, kTfLiteInt32, {c.n, c.ih, c.iw, Words(c.cin)}, kTfLiteArenaRw};
  s.in[1] = {true, kTfLiteInt32, {c.cout, c.fh, c.fw, Words(c.cin / c.groups)}};
  s.in[2] = {true, kTfLiteFloat32, {c.cout}};
  s.in[3] = {true, kTfLiteFloat32, {c.cout}};
  s.in[4] = {true, kTfLiteInt32, {c.cout}};
  s.out = {true, c.out == kF ? kTfLiteFloat32 : c.out == kI8 ? kTfLiteInt8 : kTfLiteInt32, {1, 1, 1, 1}, kTfLiteArenaRw};
  s.out_quant = c.out == kI8;
  if (Coin(r)) { // unused inputs are usually left out
    if (c.out == kBits) s.in[2].present = s.in[3].present = false;
    else s.in[4].present = false;
  }
  const int nf = Pick(r, {0, 1, 1, 1, 1, 2, 3});
  for (int f = 0; f < nf; ++f) {
    std::string what;
    switch (RandInt(r, 0, 14)) {
      // Damage that leaves everything else in agreement.
      case 10: case 11: {  // another number of output channels
        const int k = std::max(1, c.cout + Pick(r, {-3, -2, -1, 1, 2, 3}));
        for (int i = 2; i < 5; ++i) if (s.in[i].dims.size() == 1) s.in[i].dims[0] = k;
        if (!s.in[1].dims.empty()) s.in[1].dims[0] = k;
        what = "output channels in agreement";
        break;
      }
      case 12: {  // another number of input channels with the same or other words
        const int k = std::max(1, c.cin + Pick(r, {-33, -32, -31, -16, -1, 1, 16, 31, 32, 33}));
        s.opt["channels_in"] = k;
        if (Coin(r) && s.in[0].dims.size() == 4) s.in[0].dims[3] = Words(k);
        what = "input channels in agreement";
        break;
      }
      case 13: {  // another depth of the filter, and so another number of groups
        if (s.in[1].dims.size() == 4) s.in[1].dims[3] = std::max(1, Coin(r) ? s.in[1].dims[3] / Pick(r, {2, 3, 4}) : s.in[1].dims[3] + Pick(r, {-1, 1}));
        what = "filter depth";
        break;
      }
      case 14: {  // words that do split into groups, channels that do not
        const int g = Pick(r, {2, 2, 3, 4}), w = RandInt(r, 1, 3), k = 32 * g * w - RandInt(r, 1, 31);
        s.opt["channels_in"] = k;
        if (s.in[0].dims.size() == 4) s.in[0].dims[3] = g * w;
        if (s.in[1].dims.size() == 4) s.in[1].dims[3] = w;
        what = "group of channels that is no multiple of 32";
        break;
      }
      case 0: what = kConvKeys[RandInt(r, 0, 7)]; s.opt.erase(what); what = "missing " + what; break;
      case 1: case 2: { what = kConvKeys[RandInt(r, 0, 7)]; s.opt[what] = OddInt(r); what += " changed"; break; }
      case 3: { int i = RandInt(r, 0, 4); s.in[i].type = OddType(r); what = "type of input " + std::to_string(i); break; }
      case 4: case 5: { int i = RandInt(r, 0, 4); s.in[i].dims = OddDims(r, s.in[i].dims); what = "shape of input " + std::to_string(i); break; }
      case 6: { int i = RandInt(r, 0, 4); s.in[i].present = false; what = "no input " + std::to_string(i); break; }
      case 7: s.out.type = OddType(r); what = "output type"; break;
      case 8: if (Coin(r)) { s.out_quant = !s.out_quant; what = "output quantization"; }
              else if (Coin(r)) { s.in[0].at = kTfLiteDynamic; what = "dynamic input"; }
              else if (Coin(r)) { s.short_inputs = true; what = "four inputs"; }
              else { s.long_inputs = true; what = "six inputs"; }
              break;
      case 9: { int i = RandInt(r, 2, 4); if (!s.in[i].dims.empty()) s.in[i].dims[0] = std::max(0, c.cout + Pick(r, {-1, 1, 32, -c.cout})); what = "size of input " + std::to_string(i); break; }
    }
    s.faults.push_back(what);
  }
  if (s.short_inputs && s.long_inputs) s.long_inputs = false;
  std::vector<int> shape;
  Verdict v = JudgeConv(s, &shape);
  std::string desc = c.Str() + " kernel=" + KernName(s.kern) + " faults=[";
  for (auto& f : s.faults) desc += f + ";";
  desc += "]";
  MiniInterp m(r());
  std::vector<int> idx;
  double total = 0;
  for (auto& t : s.in) {
    double n = 4; for (int d : t.dims) n *= d; total += n;
    idx.push_back(t.present ? m.AddTensor(t.type, t.dims, t.at) : -1);
    if (t.present && t.at == kTfLiteMmapRo && t.type == kTfLiteFloat32)
      for (size_t i = 0; i < m.T(idx.back()).bytes / 4; ++i) m.Data<float>(idx.back())[i] = RandUnit(r);
  }
  if (s.short_inputs) idx.pop_back();
  if (s.long_inputs) idx.push_back(-1);
  int out = m.AddTensor(s.out.type, s.out.dims, s.out.at);
  if (s.out_quant) m.Quantize(out, c.scale, c.zp);
  int node = m.AddNode(KernReg(s.kern), OptionsOf(s.opt), idx, {out});
  int fail_at = -1;
  if (v != kReject && Coin(r, 1, 6)) fail_at = m.fail_resize_at = RandInt(r, 0, 1);
  const bool ok = m.PrepareNode(node) == kTfLiteOk;
  rep.Count("evaluations");
  rep.Count("nodes_conv");
  rep.Count(v == kAccept ? "judged_accept" : v == kReject ? "judged_reject" : "judged_either");
  std::string key = s.faults.size() == 1 ? s.faults[0] : s.faults.empty() ? "none" : "several";
  if (v == kReject && ok) { rep.Viol("accepted:conv:" + key, desc); return; }
  const bool resize_failed = fail_at >= 0 && m.resize_calls > fail_at;
  if (resize_failed) {
    rep.Count("failed_resizes");
    if (ok) rep.Viol("accepted:conv:failed resize", desc);
    return;
  }
  if (v == kAccept && !ok) { rep.Viol("rejected:conv:" + key, desc + " " + m.last_error); return; }
  if (v == kAccept) {
    if (m.Dims(out) != shape) { rep.Viol("shape:conv", desc); return; }
    rep.Count("shapes_checked");
    if (total < 2e6 && s.opt["dilation_height_factor"] < 40 && s.opt["dilation_width_factor"] < 40 &&
        m.T(out).bytes < 1000000 && s.in[0].at != kTfLiteDynamic) {
      // The accepted node has to run, too.
      m.MoveBuffers(false);
      if (m.Invoke() != kTfLiteOk) rep.Viol("accepted-but-fails:conv", desc);
      if (!m.mem_fault.empty()) rep.Viol("memory:conv", desc + m.mem_fault);
      rep.Count("accepted_and_run");
    }
  }
  rep.Sig(desc);
  rep.Sample(desc + (ok ? " -> accepted" : " -> rejected"));
}

void K12Pool(Rng& r, Report& rep) {
  Pool p = GenPool(r);
  std::map<std::string, int64_t> o = {{"filter_height", p.fh}, {"filter_width", p.fw}, {"stride_height", p.sh}, {"stride_width", p.sw}, {"padding", p.same ? 0 : 1}};
  TSpec I{true, kTfLiteInt32, {p.n, p.ih, p.iw, p.c}, kTfLiteArenaRw}, O{true, kTfLiteInt32, {1, 1, 1, 1}, kTfLiteArenaRw};
  int ninputs = 1, noutputs = 1;
  std::string what = "none";
  const char* keys[] = {"filter_height", "filter_width", "stride_height", "stride_width", "padding"};
  const int nf = Pick(r, {0, 1, 1, 2});
  for (int f = 0; f < nf; ++f)
    switch (RandInt(r, 0, 6)) {
      case 0: what = keys[RandInt(r, 0, 4)]; o.erase(what); what = "missing " + what; break;
      case 1: case 2: what = keys[RandInt(r, 0, 4)]; o[what] = OddInt(r); what += " changed"; break;
      case 3: I.type = OddType(r); what = "input type"; break;
      case 4: O.type = OddType(r); what = "output type"; break;
      case 5: I.dims = OddDims(r, I.dims); what = "input shape"; break;
      case 6: if (Coin(r)) ninputs = Pick(r, {0, 2}); else noutputs = Pick(r, {0, 2}); what = "arity"; break;
    }
  Verdict v = kAccept;
  std::vector<int> shape;
  auto get = [&](const char* k) { return o.count(k) ? o[k] : (int64_t)0; };
  bool odd = false;
  for (int i = 0; i < 4; ++i) if (get(keys[i]) < 0) odd = true;
  if (get("padding") != 0 && get("padding") != 1) odd = true;
  bool reject = ninputs != 1 || noutputs != 1 || I.type != kTfLiteInt32 || O.type != kTfLiteInt32 || I.dims.size() != 4;
  for (int i = 0; i < 4; ++i) if (!o.count(keys[i]) || o[keys[i]] == 0) reject = true;
  if (!o.count("padding")) odd = true;
  if (reject) v = kReject;
  else {
    for (int d : I.dims) if (d <= 0) odd = true;
    if (odd) v = kEither;
    else {
      Pool q = p;
      q.n = I.dims[0]; q.ih = I.dims[1]; q.iw = I.dims[2]; q.c = I.dims[3];
      q.fh = (int)o["filter_height"]; q.fw = (int)o["filter_width"]; q.sh = (int)o["stride_height"]; q.sw = (int)o["stride_width"];
      q.same = o["padding"] == 0;
      if (!q.same && (q.fh > q.ih || q.fw > q.iw)) v = kEither;
      shape = {q.n, q.OH(), q.OW(), q.c};
    }
  }
  std::string desc = p.Str() + " fault=" + what;
  MiniInterp m(r());
  std::vector<int> in, out;
  for (int i = 0; i < ninputs; ++i) in.push_back(m.AddTensor(I.type, I.dims, I.at));
  for (int i = 0; i < noutputs; ++i) out.push_back(m.AddTensor(O.type, O.dims, O.at));
  int node = m.AddNode(compute_engine::tflite::Register_BMAXPOOL_2D(), OptionsOf(o), in, out);
  const bool failing = v != kReject && Coin(r, 1, 8);
  if (failing) m.fail_resize_at = 0;
  bool ok = m.PrepareNode(node) == kTfLiteOk;
  rep.Count("evaluations");
  rep.Count("nodes_pool");
  rep.Count(v == kAccept ? "judged_accept" : v == kReject ? "judged_reject" : "judged_either");
  if (failing) {
    if (ok) rep.Viol("accepted:pool:failed resize", desc);
    rep.Count("failed_resizes");
    return;
  }
  if (v == kReject && ok) { rep.Viol("accepted:pool:" + what, desc); return; }
  if (v == kAccept && !ok) { rep.Viol("rejected:pool:" + what, desc); return; }
  if (v == kAccept) {
    rep.Count("shapes_checked");
    if (m.Dims(out[0]) != shape) { rep.Viol("shape:pool", desc); return; }
    if (m.T(in[0]).bytes < 500000) {
      m.MoveBuffers(false);
      if (m.Invoke() != kTfLiteOk) rep.Viol("accepted-but-fails:pool", desc);
      if (!m.mem_fault.empty()) rep.Viol("memory:pool", desc + m.mem_fault);
      rep.Count("accepted_and_run");
    }
  }
  rep.Sig(desc);
}

void K12Quant(Rng& r, Report& rep) {
  const bool deq = Coin(r);
  int rows, cols;
  auto d = RandDims(r, &rows, &cols);
  auto pd = d;
  pd.back() = Words(cols);
  TSpec wide{true, Pick(r, {kTfLiteFloat32, kTfLiteInt8, kTfLiteBool}), d, kTfLiteArenaRw}, packed{true, kTfLiteInt32, pd, kTfLiteArenaRw};
  if (!deq) packed.dims.assign(pd.size(), 1);
  int ninputs = 1, noutputs = 1;
  std::string what = "none";
  const int nf = Pick(r, {0, 1, 1, 2});
  for (int f = 0; f < nf; ++f)
    switch (RandInt(r, 0, 4)) {
      case 0: wide.type = OddType(r); what = "unpacked type"; break;
      case 1: packed.type = OddType(r); what = "packed type"; break;
      case 2: wide.dims = OddDims(r, wide.dims); what = "unpacked shape"; break;
      case 3: packed.dims = OddDims(r, packed.dims); what = "packed shape"; break;
      case 4: if (Coin(r)) ninputs = Pick(r, {0, 2}); else noutputs = Pick(r, {0, 2}); what = "arity"; break;
    }
  const TSpec &I = deq ? packed : wide, &O = deq ? wide : packed;
  bool reject = ninputs != 1 || noutputs != 1 || packed.type != kTfLiteInt32 ||
                (wide.type != kTfLiteFloat32 && wide.type != kTfLiteInt8 && wide.type != kTfLiteBool) ||
                I.dims.size() != O.dims.size();
  bool odd = I.dims.empty() || O.dims.empty();
  if (!reject && !odd && deq) {
    for (size_t i = 0; i + 1 < I.dims.size(); ++i) if (I.dims[i] != O.dims[i]) reject = true;
    if (Words(O.dims.back()) != I.dims.back()) reject = true;
  }
  for (int x : wide.dims) if (x < 0) odd = true;
  if (!wide.dims.empty() && wide.dims.back() == 0) odd = true;
  Verdict v = reject ? kReject : odd ? kEither : kAccept;
  std::string desc = std::string(deq ? "dequantize" : "quantize") + " fault=" + what + " rank=" + std::to_string(d.size()) + " cols=" + std::to_string(cols) + " rows=" + std::to_string(rows);
  MiniInterp m(r());
  std::vector<int> in, out;
  for (int i = 0; i < ninputs; ++i) in.push_back(m.AddTensor(I.type, I.dims, I.at));
  for (int i = 0; i < noutputs; ++i) out.push_back(m.AddTensor(O.type, O.dims, O.at));
  for (auto* l : {&in, &out}) for (int t : *l) if (m.T(t).type == kTfLiteInt8) m.Quantize(t, 0.5f, 3);
  int node = m.AddNode(deq ? compute_engine::tflite::Register_DEQUANTIZE() : compute_engine::tflite::Register_QUANTIZE(), {}, in, out);
  const bool failing = !deq && v != kReject && Coin(r, 1, 8);
  if (failing) m.fail_resize_at = 0;
  bool ok = m.PrepareNode(node) == kTfLiteOk;
  rep.Count("evaluations");
  rep.Count("nodes_quant");
  rep.Count(v == kAccept ? "judged_accept" : v == kReject ? "judged_reject" : "judged_either");
  if (failing) {
    if (ok) rep.Viol("accepted:quantize:failed resize", desc);
    rep.Count("failed_resizes");
    return;
  }
  const std::string op = deq ? "dequantize:" : "quantize:";
  if (v == kReject && ok) { rep.Viol("accepted:" + op + what, desc); return; }
  if (v == kAccept && !ok) { rep.Viol("rejected:" + op + what, desc); return; }
  if (v == kAccept) {
    auto want = I.dims;
    if (!deq) want.back() = Words(want.back()); else want = O.dims;
    rep.Count("shapes_checked");
    if (m.Dims(out[0]) != want) { rep.Viol("shape:" + op, desc); return; }
    m.MoveBuffers(false);
    if (wide.type == kTfLiteBool && !deq) for (size_t i = 0; i < m.T(in[0]).bytes; ++i) m.Data<uint8_t>(in[0])[i] &= 1;
    if (m.Invoke() != kTfLiteOk) rep.Viol("accepted-but-fails:" + op, desc);
    if (!m.mem_fault.empty()) rep.Viol("memory:" + op, desc + m.mem_fault);
    rep.Count("accepted_and_run");
  }
  rep.Sig(desc);
}
void RunK12(Rng& r, Report& rep) {
  switch (RandInt(r, 0, 4)) {
    case 0: K12Quant(r, rep); break;
    case 1: K12Pool(r, rep); break;
    default: K12Conv(r, rep); break;
  }
}
