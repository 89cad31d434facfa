// K15: which kernels do the operator names resolve to, whoever registers them?
// Kernels are told apart by what they do: the node variants they accept and the
// values they compute.
#include <algorithm>
#include <sys/wait.h>
#include <fstream>
#include "conv.h"
#include "report.h"
#include "larq_compute_engine/tflite/benchmark/lce_benchmark_tflite_model.h"
#include "larq_compute_engine/tflite/kernels/lce_ops_register.h"
#include "tensorflow/lite/interpreter.h"
namespace tflite {
std::unique_ptr<OpResolver> CreateOpResolver();
}
int lce_benchmark_main(int argc, char** argv);
int lce_minimal_main(int argc, char** argv);
extern bool use_reference_bconv, use_indirect_bgemm;

using namespace verif;
Report rep;
#ifdef TFLITE_WITH_RUY
const int kDefault = kBgemm;
#else
const int kDefault = kRef;
#endif
const char* kNames[] = {"LceBConv2d-misspelt", "LceBconv2d", "LceQuantize", "LceDequantize", "LceBMaxPool2d"};

bool Prepares(const TfLiteRegistration* reg, int in_words, int f_words, int cout, int cin, int padding, int pad_value,
              TfLiteType out) {
  MiniInterp m(1);
  flexbuffers::Builder f;
  f.Map([&] {
    f.Int("stride_height", 1); f.Int("stride_width", 1);
    f.Int("dilation_height_factor", 1); f.Int("dilation_width_factor", 1);
    f.Int("padding", padding); f.Int("pad_values", pad_value);
    f.Int("channels_in", cin); f.Int("fused_activation_function", 0);
  });
  f.Finish();
  int a = m.AddTensor(kTfLiteInt32, {1, 3, 3, in_words});
  int b = m.AddTensor(kTfLiteInt32, {cout, 2, 2, f_words}, kTfLiteMmapRo);
  int c = m.AddTensor(kTfLiteFloat32, {cout}, kTfLiteMmapRo);
  int d = m.AddTensor(kTfLiteFloat32, {cout}, kTfLiteMmapRo);
  int e = m.AddTensor(kTfLiteInt32, {cout}, kTfLiteMmapRo);
  int o = m.AddTensor(out, {1, 1, 1, 1});
  if (out == kTfLiteInt8) m.Quantize(o, 1.f, 0);
  m.AddNode(reg, f.GetBuffer(), {a, b, c, d, e}, {o});
  return m.Allocate() == kTfLiteOk;
}
// -1: no convolution.
int Classify(const TfLiteRegistration* reg) {
  if (!reg || !reg->init || !reg->prepare || !reg->invoke || !reg->free) return -1;
  if (!Prepares(reg, 1, 1, 2, 32, 1, 1, kTfLiteFloat32)) return -1;
  bool grouped = Prepares(reg, 2, 1, 2, 64, 1, 1, kTfLiteFloat32);
  bool zero8 = Prepares(reg, 1, 1, 2, 32, 0, 0, kTfLiteInt8);
  if (grouped && zero8) return kRef;
  if (grouped) return kIndirect;
  if (!zero8) return kBgemm;
  return -2;
}
// Does the registration compute what its name says?
bool Works(Rng& r, const std::string& name, const TfLiteRegistration* reg) {
  MiniInterp m(r());
  flexbuffers::Builder f;
  if (name == "LceQuantize") {
    int ch = RandInt(r, 1, 40);
    int a = m.AddTensor(kTfLiteFloat32, {1, 1, 1, ch}), o = m.AddTensor(kTfLiteInt32, {1, 1, 1, 1});
    f.Map([] {}); f.Finish();
    m.AddNode(reg, f.GetBuffer(), {a}, {o});
    if (m.Allocate() != kTfLiteOk) return false;
    for (int i = 0; i < ch; ++i) m.Data<float>(a)[i] = Coin(r) ? 1.f : -1.f;
    if (m.Invoke() != kTfLiteOk || m.Dims(o) != std::vector<int>{1, 1, 1, Words(ch)}) return false;
    for (int i = 0; i < ch; ++i)
      if (((m.Data<uint32_t>(o)[i / 32] >> (i % 32)) & 1) != (m.Data<float>(a)[i] < 0)) return false;
    return true;
  }
  if (name == "LceDequantize") {
    int ch = 32;
    int a = m.AddTensor(kTfLiteInt32, {1, 1, 1, 1}), o = m.AddTensor(kTfLiteFloat32, {1, 1, 1, ch});
    f.Map([] {}); f.Finish();
    m.AddNode(reg, f.GetBuffer(), {a}, {o});
    if (m.Allocate() != kTfLiteOk) return false;
    m.Data<uint32_t>(a)[0] = (uint32_t)r();
    if (m.Invoke() != kTfLiteOk) return false;
    for (int i = 0; i < ch; ++i)
      if (m.Data<float>(o)[i] != (((m.Data<uint32_t>(a)[0] >> i) & 1) ? -1.f : 1.f)) return false;
    return true;
  }
  if (name == "LceBMaxPool2d") {
    int a = m.AddTensor(kTfLiteInt32, {1, 2, 2, 1}), o = m.AddTensor(kTfLiteInt32, {1, 1, 1, 1});
    f.Map([&] {
      f.Int("padding", 1); f.Int("stride_width", 1); f.Int("stride_height", 1);
      f.Int("filter_width", 2); f.Int("filter_height", 2);
    });
    f.Finish();
    m.AddNode(reg, f.GetBuffer(), {a}, {o});
    if (m.Allocate() != kTfLiteOk) return false;
    uint32_t w = ~0u;
    for (int i = 0; i < 4; ++i) w &= m.Data<uint32_t>(a)[i] = (uint32_t)r();
    return m.Invoke() == kTfLiteOk && m.Data<uint32_t>(o)[0] == w;
  }
  // A 1x1 convolution
  int cout = RandInt(r, 1, 9);
  f.Map([&] {
    f.Int("stride_height", 1); f.Int("stride_width", 1);
    f.Int("dilation_height_factor", 1); f.Int("dilation_width_factor", 1);
    f.Int("padding", 1); f.Int("pad_values", 1);
    f.Int("channels_in", 32); f.Int("fused_activation_function", 0);
  });
  f.Finish();
  int a = m.AddTensor(kTfLiteInt32, {1, 2, 2, 1});
  int b = m.AddTensor(kTfLiteInt32, {cout, 1, 1, 1}, kTfLiteMmapRo);
  int c = m.AddTensor(kTfLiteFloat32, {cout}, kTfLiteMmapRo);
  int d = m.AddTensor(kTfLiteFloat32, {cout}, kTfLiteMmapRo);
  int e = m.AddTensor(kTfLiteInt32, {cout}, kTfLiteMmapRo);
  int o = m.AddTensor(kTfLiteFloat32, {1, 1, 1, 1});
  for (int i = 0; i < cout; ++i) m.Data<float>(c)[i] = 1.f, m.Data<float>(d)[i] = 0.f, m.Data<uint32_t>(b)[i] = (uint32_t)r();
  m.AddNode(reg, f.GetBuffer(), {a, b, c, d, e}, {o});
  if (m.Allocate() != kTfLiteOk) return false;
  for (int i = 0; i < 4; ++i) m.Data<uint32_t>(a)[i] = (uint32_t)r();
  if (m.Invoke() != kTfLiteOk) return false;
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < cout; ++j)
      if (m.Data<float>(o)[i * cout + j] != 32 - 2 * __builtin_popcount(m.Data<uint32_t>(a)[i] ^ m.Data<uint32_t>(b)[j])) return false;
  return true;
}
int Want(bool ref, bool ind) { return ref ? kRef : ind ? kIndirect : kDefault; }
// `fresh`: every name must be one of ours.
void Judge(Rng& r, const std::string& who, const tflite::OpResolver* res, bool ref, bool ind, bool extra = false) {
  rep.Count("evaluations");
  rep.Count("resolvers_judged");
  rep.Count("via_" + who);
  std::string flags = std::string(ref ? "reference" : "") + (ind ? "+indirect" : "") + (!ref && !ind ? "default" : "");
  rep.Count("flags_" + flags);
  const int want = Want(ref, ind), got = Classify(res->FindOp("LceBconv2d", 1));
  if (got != want)
    rep.Viol("kernel:" + who + ":" + flags, who + " with flags " + flags + " gives " +
             (got < 0 ? "no convolution" : KernName(got)) + " instead of " + KernName(want));
  for (int i = 1; i < 5; ++i) {
    auto* reg = res->FindOp(kNames[i], 1);
    if (!reg || !Works(r, kNames[i], reg)) rep.Viol(std::string("operator:") + who + ":" + kNames[i], std::string(kNames[i]) + (reg ? " does not compute what its name says" : " is not registered"));
    rep.Count("operators_executed");
  }
  if (auto* m = dynamic_cast<const tflite::MutableOpResolver*>(res)) {
    for (auto& kv : m->verif_names()) {
      bool mine = false;
      for (int i = 1; i < 5; ++i) mine |= kv.first == kNames[i];
      if (extra && kv.first == "SomebodyElses") mine = true;
      if (!mine || kv.second != 1) rep.Viol("extra:" + who, "unexpected operator " + kv.first + " version " + std::to_string(kv.second));
    }
  }
}

struct Quiet {  // the tools print a lot
  int saved;
  Quiet() { fflush(stdout); saved = dup(1); int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); }
  ~Quiet() { fflush(stdout); dup2(saved, 1); close(saved); }
};

void Case(uint64_t seed, uint64_t k, const char* scratch) {
  Rng r(seed * 1000003 + k * 7919 + 15);
  std::string sig;
  switch (k % 4) {
    case 0: {  // any resolver, any history
      int nres = RandInt(r, 1, 3);
      std::vector<std::unique_ptr<tflite::MutableOpResolver>> rs;
      std::vector<std::pair<bool, bool>> last(nres);
      std::vector<int> used(nres, 0), extra(nres, 0);
      for (int i = 0; i < nres; ++i) {
        switch (RandInt(r, 0, 2)) {
          case 0: rs.emplace_back(new tflite::MutableOpResolver); break;
          case 1: rs.emplace_back(new tflite::ops::builtin::BuiltinOpResolver); break;
          default: rs.emplace_back(new tflite::ops::builtin::BuiltinOpResolverWithoutDefaultDelegates);
        }
      }
      int steps = RandInt(r, 1, 6);
      for (int s = 0; s < steps; ++s) {
        int i = RandInt(r, 0, nres - 1);
        if (Coin(r, 1, 8)) {
          rs[i]->AddCustom("SomebodyElses", compute_engine::tflite::Register_QUANTIZE());
          extra[i] = 1;
          sig += "x";
          continue;
        }
        bool ref = Coin(r), ind = Coin(r);
        sig += std::to_string(i) + (ref ? "R" : "-") + (ind ? "I" : "-");
        if (!ref && !ind && Coin(r)) compute_engine::tflite::RegisterLCECustomOps(rs[i].get());
        else if (!ind && Coin(r)) compute_engine::tflite::RegisterLCECustomOps(rs[i].get(), ref);
        else compute_engine::tflite::RegisterLCECustomOps(rs[i].get(), ref, ind);
        last[i] = {ref, ind};
        used[i] = 1;
        // The earlier ones stay what they were.
        for (int j = 0; j < nres; ++j)
          if (used[j]) Judge(r, "RegisterLCECustomOps", rs[j].get(), last[j].first, last[j].second, extra[j]);
      }
      break;
    }
    case 1: {  // the benchmark tool's command line; its globals live on between runs
      int runs = RandInt(r, 1, 3);
      for (int s = 0; s < runs; ++s) {
        std::vector<std::string> a = {"lce_benchmark"};
        bool ref = false, ind = false;
        std::vector<std::string> opts;
        auto flag = [&](const char* n, bool* v) {
          int c = RandInt(r, 0, 2);
          if (c == 0) return;
          *v = c == 1;
          opts.push_back(std::string("--") + n + "=" + (*v ? (Coin(r) ? "true" : "1") : (Coin(r) ? "false" : "0")));
        };
        flag("use_reference_bconv", &ref);
        flag("use_indirect_bgemm", &ind);
        opts.push_back("--graph=x");
        if (Coin(r)) opts.push_back("--num_threads=" + std::to_string(RandInt(r, 1, 4)));
        if (Coin(r)) opts.push_back("--verbose=true");
        std::shuffle(opts.begin(), opts.end(), r);
        bool bad = Coin(r, 1, 6);
        if (bad) opts.push_back(Coin(r) ? "--use_reference_bconv=maybe" : "--no_such_flag=1");
        a.insert(a.end(), opts.begin(), opts.end());
        std::vector<char*> argv;
        for (auto& x : a) argv.push_back(&x[0]), sig += x + " ";
        argv.push_back(nullptr);
        int before = tflite::benchmark::BenchmarkTfLiteModel::runs(), rc;
        {
          Quiet q;
          rc = lce_benchmark_main((int)a.size(), argv.data());
        }
        int ran = tflite::benchmark::BenchmarkTfLiteModel::runs() - before;
        rep.Count("command_lines");
        rep.Count("evaluations");
        if (bad ? (rc == 0 || ran) : (rc != 0 || ran != 1))
          rep.Viol("benchmark:exit", "command line " + sig + " returned " + std::to_string(rc) + " after " + std::to_string(ran) + " runs");
        if (!bad && ran) Judge(r, "benchmark", &tflite::benchmark::BenchmarkTfLiteModel::resolver(), ref, ind);
      }
      break;
    }
    case 2: {  // Java binding: called once per interpreter
      std::vector<std::unique_ptr<tflite::OpResolver>> rs;
      int n = RandInt(r, 1, 3);
      for (int i = 0; i < n; ++i) rs.push_back(tflite::CreateOpResolver());
      for (auto& x : rs) Judge(r, "java", x.get(), false, false);
      sig = "java" + std::to_string(n) + "/" + std::to_string(r() % 1000);
      break;
    }
    default: {  // the example program, on a model with a random mix of operators
      std::ostringstream m;
      m << "VM1\n";
      int cout = RandInt(r, 1, 3);
      m << "tensor 1 0 4 1 2 2 32 0 0 0 -\n";           // 0 float input
      m << "tensor 2 0 4 1 2 2 1 0 0 0 -\n";            // 1 packed
      m << "tensor 1 0 4 1 2 2 32 0 0 0 -\n";           // 2 unpacked
      m << "tensor 2 0 4 1 1 1 1 0 0 0 -\n";            // 3 pooled
      auto hex = [](const std::vector<uint8_t>& b) { std::string s; char t[3]; for (auto x : b) { snprintf(t, 3, "%02x", x); s += t; } return s.empty() ? std::string("-") : s; };
      std::vector<uint8_t> filt(4 * cout), fl(4 * cout);
      for (auto& x : filt) x = (uint8_t)r();
      for (int i = 0; i < cout; ++i) fl[4 * i + 2] = 0x80, fl[4 * i + 3] = 0x3f;
      m << "tensor 2 1 4 " << cout << " 1 1 1 0 0 0 " << hex(filt) << "\n";  // 4
      m << "tensor 1 1 1 " << cout << " 0 0 0 " << hex(fl) << "\n";           // 5
      m << "tensor 1 0 4 1 2 2 " << cout << " 0 0 0 -\n";                    // 6
      m << "input 0\noutput 2 3 6\n";
      flexbuffers::Builder e, p, c;
      e.Map([] {}); e.Finish();
      p.Map([&] { p.Int("padding", 1); p.Int("stride_width", 1); p.Int("stride_height", 1); p.Int("filter_width", 2); p.Int("filter_height", 2); });
      p.Finish();
      c.Map([&] {
        c.Int("stride_height", 1); c.Int("stride_width", 1); c.Int("dilation_height_factor", 1); c.Int("dilation_width_factor", 1);
        c.Int("padding", 1); c.Int("pad_values", 1); c.Int("channels_in", 32); c.Int("fused_activation_function", 0);
      });
      c.Finish();
      bool unknown = Coin(r, 1, 5), fails = !unknown && Coin(r, 1, 6);
      m << "op LceQuantize 1 0 1 1 " << hex(e.GetBuffer()) << "\n";
      if (Coin(r)) m << "op LceDequantize 1 1 1 2 " << hex(e.GetBuffer()) << "\n", sig += "D";
      if (Coin(r)) m << "op LceBMaxPool2d 1 1 1 3 " << hex(p.GetBuffer()) << "\n", sig += "P";
      if (Coin(r)) m << "op LceBconv2d 5 1 4 5 5 -1 1 6 " << hex(c.GetBuffer()) << "\n", sig += "C";
      if (unknown) m << "op LceNothing 1 0 1 2 -\n", sig += "U";
      if (fails) m << "op @fail 1 0 1 2 -\n", sig += "F";
      std::ofstream(scratch) << m.str();
      std::string a0 = "lce_minimal", a1 = scratch;
      char* argv[] = {&a0[0], &a1[0], nullptr};
      const long inv = tflite::verif_internal::last().invokes;
      if (unknown || fails) {
        // exit(1)s: run it in a child.
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
          int n = open("/dev/null", O_WRONLY);
          dup2(n, 1);
          dup2(n, 2);
          _exit(lce_minimal_main(2, argv) == 0 ? 0 : 1);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) rep.Viol("example:ignores failure", "the example reports success for a model that " + std::string(fails ? "fails" : "has an unknown operator"));
        rep.Count("example_failures");
        rep.Count("evaluations");
      } else {
        int rc;
        {
          Quiet q;
          rc = lce_minimal_main(2, argv);
        }
        auto& last = tflite::verif_internal::last();
        if (rc != 0 || last.invokes != inv + 1) rep.Viol("example:run", "the example does not run a model of " + sig + " once");
        if (last.live != 0) rep.Viol("example:leak", "interpreters left alive");
        tflite::MutableOpResolver seen;
        for (auto& kv : last.log) seen.AddCustom(kv.first.c_str(), kv.second);
        Judge(r, "example", &seen, false, false);
      }
      unlink(scratch);
      sig = "ex" + sig + std::to_string(cout);
    }
  }
  rep.Sig(sig);
  if (k < 4) rep.Sample(sig);
}

int main(int argc, char** argv) {
  uint64_t seed = strtoull(argv[2], nullptr, 10), first = strtoull(argv[3], nullptr, 10), n = strtoull(argv[4], nullptr, 10);
  int pf = open(argv[5], O_CREAT | O_WRONLY | O_TRUNC, 0600);
  std::string scratch = std::string("/tmp/verif-k15-") + std::to_string(getpid()) + ".model";
  for (uint64_t k = first; k < first + n; ++k) {
    rep.cur = k;
    if (pf >= 0 && pwrite(pf, &k, 8, 0) != 8) {}
    Case(seed, k, scratch.c_str());
  }
  unlink(scratch.c_str());
  rep.Finish();
}
