// ------------------------------------------------------------------ K13, K16
// A little network: [quantize ->] conv or pool [-> conv/pool/dequantize], with a
// fixed set of weights and a current input shape.
struct Net {
  enum Kind { kConv1, kPool1, kConvPool, kConvConv, kQuantConv, kConvDequant };
  int kind = kConv1;
  int kern = 0, kern2 = 0;
  Conv c, c2;
  Pool p;
  float qscale = 0.25f;
  int qzp = 3;
  TfLiteType qtype = kTfLiteFloat32, dtype = kTfLiteFloat32;
};
// Buffers that several interpreters may share as their constants.
struct Built {
  std::unique_ptr<MiniInterp> m;
  int input = -1, output = -1;
  ConvNode conv = {};
  bool fail = false;
};
std::string NetStr(const Net& n) {
  static const char* k[] = {"conv", "pool", "conv+pool", "conv+conv", "quantize+conv", "conv+dequantize"};
  return std::string(k[n.kind]) + " " + (n.kind == Net::kPool1 ? n.p.Str() : n.c.Str()) + " kernel=" + KernName(n.kern);
}
void SizeNet(Net& n, int batch, int ih, int iw) {
  n.c.n = n.p.n = batch;
  n.c.ih = n.p.ih = ih;
  n.c.iw = n.p.iw = iw;
  if (!n.c.same) {
    n.c.ih = std::max(ih, n.c.effh());
    n.c.iw = std::max(iw, n.c.effw());
  }
  if (!n.p.same) {
    n.p.ih = std::max(ih, n.p.fh);
    n.p.iw = std::max(iw, n.p.fw);
  }
}
std::vector<int> NetInputDims(const Net& n) {
  if (n.kind == Net::kPool1) return {n.p.n, n.p.ih, n.p.iw, n.p.c};
  return {n.c.n, n.c.ih, n.c.iw, n.kind == Net::kQuantConv ? n.c.cin : Words(n.c.cin)};
}
Net GenNet(Rng& r, bool indirect_often) {
  Net n;
  n.kind = Pick<int>(r, {Net::kConv1, Net::kConv1, Net::kConv1, Net::kPool1, Net::kConvPool, Net::kConvConv, Net::kQuantConv, Net::kConvDequant});
  n.kern = indirect_often && Coin(r) ? kIndirect : RandInt(r, 0, 2);
  n.kern2 = RandInt(r, 0, 2);
  Profile p;
  if (n.kern == kBgemm) p.groups = 0;
  if (n.kind == Net::kConvPool || n.kind == Net::kConvConv || n.kind == Net::kConvDequant) p.out = kBits;
  for (int tries = 0;; ++tries) {
    n.c = MakeConv(r, p);
    if (n.c.Accepts(n.kern)) break;
  }
  n.p = GenPool(r);
  if (n.kind == Net::kConvPool) n.p.same = true, n.p.c = Words(n.c.cout);
  if (n.kind == Net::kConvConv) {
    Profile q;
    q.groups = 0;
    q.pad = 1;
    n.c2 = GenConv(r, q);
    n.c2.same = true;
    n.c2.pad_value = 1;
    n.c2.cin = n.c.cout;
    n.c2.groups = 1;
    FillConv(r, n.c2);
  }
  n.qtype = Pick(r, {kTfLiteFloat32, kTfLiteInt8, kTfLiteBool});
  n.dtype = Pick(r, {kTfLiteFloat32, kTfLiteInt8, kTfLiteBool});
  return n;
}
Built Build(const Net& n, uint64_t seed, int threads) {
  Built b;
  b.m.reset(new MiniInterp(seed, threads));
  MiniInterp& m = *b.m;
  using namespace compute_engine::tflite;
  if (n.kind == Net::kPool1) {
    b.input = m.AddTensor(kTfLiteInt32, NetInputDims(n));
    b.output = m.AddTensor(kTfLiteInt32, {1, 1, 1, 1});
    m.AddNode(Register_BMAXPOOL_2D(), PoolOptions(n.p), {b.input}, {b.output});
  } else {
    int in = -1;
    if (n.kind == Net::kQuantConv) {
      b.input = m.AddTensor(n.qtype, NetInputDims(n));
      if (n.qtype == kTfLiteInt8) m.Quantize(b.input, n.qscale, n.qzp);
      in = m.AddTensor(kTfLiteInt32, {1, 1, 1, 1});
      m.AddNode(Register_QUANTIZE(), {}, {b.input}, {in});
    }
    ConvNode t = b.conv = AddConv(m, n.c, n.kern, in);
    if (b.input < 0) b.input = t.input;
    b.output = t.output;
    if (n.kind == Net::kConvPool) {
      b.output = m.AddTensor(kTfLiteInt32, {1, 1, 1, 1});
      m.AddNode(Register_BMAXPOOL_2D(), PoolOptions(n.p), {t.output}, {b.output});
    } else if (n.kind == Net::kConvConv) {
      ConvNode u = AddConv(m, n.c2, n.kern2, t.output);
      b.output = u.output;
    } else if (n.kind == Net::kConvDequant) {
      // The output of a dequantization is not resized by the operator.
      b.output = m.AddTensor(n.dtype, {n.c.n, n.c.OH(), n.c.OW(), n.c.cout});
      if (n.dtype == kTfLiteInt8) m.Quantize(b.output, n.qscale, n.qzp);
      m.AddNode(Register_DEQUANTIZE(), {}, {t.output}, {b.output});
    }
  }
  return b;
}
std::string NetInput(const Net& n, Rng& r) {
  size_t total = 1;
  for (int d : NetInputDims(n)) total *= d;
  std::string s;
  if (n.kind == Net::kPool1) {
    s.resize(total * 4);
    for (auto& ch : s) ch = (char)(r() | r());
  } else if (n.kind == Net::kQuantConv) {
    if (n.qtype == kTfLiteFloat32) {
      s.resize(total * 4);
      for (size_t i = 0; i < total; ++i) { float f = AnyValue<float>(r, 0); memcpy(&s[4 * i], &f, 4); }
    } else {
      s.resize(total);
      for (auto& ch : s) ch = n.qtype == kTfLiteBool ? (char)Coin(r) : (char)r();
    }
  } else {
    std::vector<int8_t> v((size_t)n.c.n * n.c.ih * n.c.iw * n.c.cin);
    for (auto& e : v) e = Coin(r) ? 1 : -1;
    s.resize(total * 4);
    PackRows(v.data(), n.c.n * n.c.ih * n.c.iw, n.c.cin, (int32_t*)&s[0]);
  }
  return s;
}
void PutInput(Built& b, const std::string& s) { memcpy(b.m->Data<char>(b.input), s.data(), s.size()); }
std::string GetOutput(Built& b) { return std::string(b.m->Data<char>(b.output), b.m->T(b.output).bytes); }
// What a brand new, single-threaded interpreter gives.
bool Fresh(const Net& n, const std::string& input, uint64_t seed, std::string* out, std::vector<int>* dims) {
  Built b = Build(n, seed, 1);
  if (b.m->Allocate() != kTfLiteOk) return false;
  PutInput(b, input);
  if (b.m->Invoke() != kTfLiteOk) return false;
  *out = GetOutput(b);
  *dims = b.m->Dims(b.output);
  return true;
}

void RunK13(Rng& r, Report& rep) {
  Net n = GenNet(r, true);
  std::string out;
  std::vector<int> dims;
  rep.Count("evaluations");
  Built b = Build(n, r(), Pick(r, {1, 1, 3}));
  if (b.m->Allocate() != kTfLiteOk) { rep.Count("rejected"); return; }
  const int steps = RandInt(r, 2, 7);
  std::string history, input, last_out;
  bool have_input = false, stale = false;
  std::string prev_step = "start";
  for (int s = 0; s < steps; ++s) {
    const int a = RandInt(r, 0, 9);
    std::string step;
    if (a < 3 && n.kind != Net::kConvDequant) {
      // Resize the input; everything is prepared again.
      const bool batch_only = Coin(r, 1, 3);
      SizeNet(n, RandInt(r, 1, 3), batch_only ? n.c.ih : RandInt(r, 1, 9), batch_only ? n.c.iw : RandInt(r, 1, 9));
      if (n.kind != Net::kPool1) n.p.ih = n.p.iw = 0;
      b.m->SetDims(b.input, NetInputDims(n));
      if (b.m->Allocate() != kTfLiteOk) { rep.Viol("reprepare-rejected", NetStr(n) + " after " + history); return; }
      have_input = false;
      step = "resize";
    } else if (a == 3) {
      // As it is; or after the constants were replaced; or after a preparation that had to fail.
      const int how = RandInt(r, 0, 2);
      step = "prepare";
      if (how == 1 && n.kind != Net::kPool1) {
        Conv c = n.c;
        FillConv(r, c);
        if (Coin(r)) c.filt = n.c.filt;
        if (Coin(r)) c.mul = n.c.mul;
        n.c = c;
        for (int i : {b.conv.filter, b.conv.mul, b.conv.bias, b.conv.thr}) b.m->NewConstant(i);
        SetConstants(*b.m, b.conv, n.c);
        if (n.c.out == kI8) b.m->Requantize(b.conv.output, n.c.scale, n.c.zp);
        step = "constants";
      } else if (how == 2 && n.kind != Net::kQuantConv && n.kind != Net::kConvDequant) {
        std::vector<int> d = NetInputDims(n), bad = d;
        if (Coin(r)) bad.pop_back();
        else bad.push_back(1);
        b.m->SetDims(b.input, bad);
        if (b.m->Allocate() == kTfLiteOk) { rep.Viol("accepts-rank", NetStr(n) + " after " + history); return; }
        b.m->SetDims(b.input, d);
        step = "failure";
      }
      const int tensors = b.m->num_tensors();
      if (b.m->Allocate() != kTfLiteOk) { rep.Viol("reprepare-rejected:" + step, NetStr(n) + " after " + history); return; }
      if (b.m->num_tensors() != tensors) rep.Viol("tensors-grow", NetStr(n) + " after " + history + step + ": preparing it again adds tensors");
      have_input = false;
    } else if (a == 4) {
      b.m->MoveBuffers(Coin(r));
      have_input = false;
      step = "move";
    } else {
      const bool same_input = have_input && Coin(r, 1, 4);
      if (!same_input) input = NetInput(n, r);
      PutInput(b, input);
      b.m->NewSlack();
      if (b.m->Invoke() != kTfLiteOk) { rep.Viol("invoke-failed", NetStr(n) + " after " + history); return; }
      have_input = true;
      step = same_input ? "again" : "invoke";
      if (!Fresh(n, input, r(), &out, &dims)) { rep.Viol("fresh-failed", NetStr(n)); return; }
      rep.Count("invocations_compared");
      if (dims != b.m->Dims(b.output)) { rep.Viol("shape:" + prev_step, NetStr(n) + " after " + history); return; }
      if (!b.m->mem_fault.empty()) { rep.Viol("memory", NetStr(n) + " " + b.m->mem_fault); return; }
      if (GetOutput(b) != out) {
        rep.Viol(std::string("history:") + KernName(n.kern) + ":" + prev_step, NetStr(n) + " after " + history + "invoke");
        return;
      }
    }
    history += step + " ";
    rep.Count("step_" + step);
    prev_step = step;
    (void)stale;
  }
  rep.Sig(NetStr(n) + history);
  rep.Sample(NetStr(n) + ": " + history);
}

#ifdef VERIF_ASAN
size_t HeapInUse() { return __sanitizer_get_current_allocated_bytes(); }
#endif
// Several interpreters on several threads; some share constants.
void RunK16(Rng& r, Report& rep) {
  rep.Count("evaluations");
  const int nt = RandInt(r, 2, 6);
  struct Job {
    std::vector<Net> nets;
    std::vector<std::vector<std::string>> in, want;
    uint64_t seed;
    std::string bad;
    long runs = 0, created = 0;
  };
  std::vector<Job> jobs(nt);
  std::vector<Net> pool;
  const int npool = RandInt(r, 1, 3);  // the same model in several threads
  for (int i = 0; i < npool; ++i) pool.push_back(GenNet(r, false));
  for (auto& j : jobs) {
    j.seed = r();
    const int k = RandInt(r, 1, 3);
    for (int i = 0; i < k; ++i) {
      Net n = pool[r() % pool.size()];
      SizeNet(n, RandInt(r, 1, 2), RandInt(r, 2, 7), RandInt(r, 2, 7));
      std::vector<std::string> in, want;
      for (int q = 0; q < 2; ++q) {
        std::string x = NetInput(n, r), o;
        std::vector<int> d;
        if (!Fresh(n, x, r(), &o, &d)) break;
        in.push_back(x);
        want.push_back(o);
      }
      if (in.size() == 2) {
        j.nets.push_back(n);
        j.in.push_back(in);
        j.want.push_back(want);
      }
    }
  }
  std::atomic<int> waiting{nt};
  auto work = [&](Job& j) {
    Rng q(j.seed);
    waiting--;
    while (waiting.load() > 0) std::this_thread::yield();
    std::vector<std::pair<size_t, Built>> live;
    const int steps = 6 + (int)(q() % 8);
    for (int s = 0; s < steps; ++s) {
      const int a = RandInt(q, 0, 5);
      if ((a <= 1 || live.empty()) && !j.nets.empty()) {
        size_t k = q() % j.nets.size();
        Built b = Build(j.nets[k], q(), Pick(q, {1, 2}));
        if (Coin(q, 1, 8)) continue;  // created and destroyed, never prepared
        if (b.m->Allocate() != kTfLiteOk) { j.bad = "allocate"; return; }
        j.created++;
        live.emplace_back(k, std::move(b));
      } else if (a == 2 && !live.empty()) {
        live.erase(live.begin() + q() % live.size());
      } else if (!live.empty()) {
        auto& l = live[q() % live.size()];
        int w = (int)(q() % 2);
        PutInput(l.second, j.in[l.first][w]);
        if (l.second.m->Invoke() != kTfLiteOk) { j.bad = "invoke"; return; }
        j.runs++;
        if (GetOutput(l.second) != j.want[l.first][w]) j.bad = "output differs: " + NetStr(j.nets[l.first]);
      }
    }
  };
#ifdef VERIF_ASAN
  // Leaks: the whole round is repeated; the second must not hold more memory.
  size_t held[3] = {0, 0, 0};
#endif
  for (int round = 0; round < 3; ++round) {
    waiting = nt;
    {
      std::vector<std::thread> ts;
      for (auto& j : jobs) ts.emplace_back([&, p = &j] { work(*p); });
      for (auto& t : ts) t.join();
    }
#ifdef VERIF_ASAN
    held[round] = HeapInUse();
#endif
    for (auto& j : jobs) {
      rep.Count("invocations_compared", j.runs);
      rep.Count("interpreters", j.created);
      j.runs = j.created = 0;
      if (!j.bad.empty()) {
        rep.Viol("interference", j.bad);
        return;
      }
    }
  }
#ifdef VERIF_ASAN
  rep.Count("leak_checks");
  if (held[2] > held[1] && held[1] > held[0]) {
    char d[200];
    snprintf(d, sizeof d, "bytes held after three identical rounds: %zu %zu %zu (%s ...)", held[0], held[1], held[2], NetStr(pool[0]).c_str());
    rep.Viol("leak", d);
  }
#endif
  std::string sig;
  for (auto& n : pool) sig += NetStr(n);
  rep.Sig(sig + std::to_string(nt));
  rep.Sample(std::to_string(nt) + " threads: " + sig.substr(0, 150));
}
