#ifndef VERIF_SHIM_RUY_TRMUL_H_
#define VERIF_SHIM_RUY_TRMUL_H_
// A stand-in scheduler with ruy's contract: the destination is cut into blocks
// whose borders are multiples of the kernel size, every block is computed
// exactly once, by any thread, in any order, and the packed columns a block
// needs are complete before the block is computed.
#include <algorithm>
#include <atomic>
#include <mutex>
#include <thread>
#include <utility>
#include <vector>
#include "ruy/context.h"
#include "ruy/trmul_params.h"
namespace ruy {
#ifdef VERIF_A64  // the emulated image runs on one thread
constexpr bool kOneThread = true;
#else
constexpr bool kOneThread = false;
#endif
namespace verif_internal {
inline std::vector<int> Cuts(VerifRng& rng, int total, int unit,
                             bool small) {
  std::vector<int> c{0};
  const int n = total / unit;
  int at = 0;
  while (at < n) {
    int step;
    switch (rng() % 4) {
      case 0: step = 1; break;
      case 1: step = 1 + (int)(rng() % 4); break;
      case 2: step = 1 + (int)(rng() % std::max(1, n)); break;
      default: step = n; break;
    }
    if (!small) step = std::max(step, (n + 7) / 8);
    at = std::min(n, at + step);
    c.push_back(at * unit);
  }
  return c;
}
}  // namespace verif_internal
inline void TrMul(Ctx* ctx, TrMulParams* params) {
  auto& rng = ctx->verif_rng();
  ctx->verif_stats.trmuls++;
  PEMat& L = params->packed_matrix[Side::kLhs];
  PEMat& R = params->packed_matrix[Side::kRhs];
  const int rows = L.layout.cols, cols = R.layout.cols;
  for (Side s : {Side::kLhs, Side::kRhs}) {
    if (params->is_prepacked[s]) continue;
    PEMat& pm = params->packed_matrix[s];
    pm.data = ctx->GetMainAllocator()->AllocateBytes(
        (std::ptrdiff_t)FlatSize(pm.layout) * pm.data_type.size);
  }
  auto rc = verif_internal::Cuts(rng, rows, L.layout.kernel.cols,
                                 ctx->verif_small_blocks);
  auto cc = verif_internal::Cuts(rng, cols, R.layout.kernel.cols,
                                 ctx->verif_small_blocks);
  struct Block { int r0, r1, c0, c1; };
  std::vector<Block> blocks;
  for (size_t i = 0; i + 1 < rc.size(); ++i)
    for (size_t j = 0; j + 1 < cc.size(); ++j)
      blocks.push_back({rc[i], rc[i + 1], cc[j], cc[j + 1]});
  std::shuffle(blocks.begin(), blocks.end(), rng);
  ctx->verif_stats.blocks += blocks.size();
  std::uint64_t h = ctx->verif_stats.schedule_hash;
  for (auto& b : blocks)
    h = (h ^ ((std::uint64_t)b.r0 * 73856093u ^ (std::uint64_t)b.c0 * 19349663u ^ (std::uint64_t)b.r1 * 83492791u ^ (std::uint64_t)b.c1)) *
        1099511628211ull;
  const int nt = kOneThread ? 1 : std::min<int>(std::max(1, ctx->max_num_threads()),
                               std::max<int>(1, (int)blocks.size()));
  ctx->verif_stats.schedule_hash = h * 31 + nt;
  // Packing, possibly concurrent: disjoint column ranges.
  std::vector<std::pair<Side, std::pair<int, int>>> packs;
  for (Side s : {Side::kLhs, Side::kRhs}) {
    if (params->is_prepacked[s]) continue;
    auto& c = s == Side::kLhs ? rc : cc;
    for (size_t j = 0; j + 1 < c.size(); ++j) packs.push_back({s, {c[j], c[j + 1]}});
  }
  std::shuffle(packs.begin(), packs.end(), rng);
  auto pack = [&](size_t i) {
    Side s = packs[i].first;
    PEMat pm = params->packed_matrix[s];
    params->run_pack[s](Tuning::kAuto, params->src[s], &pm, packs[i].second.first,
                        packs[i].second.second);
  };
  auto run = [&](size_t i) {
    SidePair<int> start(blocks[i].r0, blocks[i].c0), end(blocks[i].r1, blocks[i].c1);
    EMat dst = params->dst;
    params->run_kernel(Tuning::kAuto, params->packed_matrix,
                       params->mul_params_bytes, start, end, &dst);
  };
  auto par = [&](size_t n, auto&& f) {
    if (nt == 1 || n <= 1) {
      for (size_t i = 0; i < n; ++i) f(i);
      return;
    }
    std::atomic<size_t> next{0};
    std::vector<std::thread> ts;
    auto work = [&] {
      for (;;) {
        size_t i = next.fetch_add(1, std::memory_order_relaxed);
        if (i >= n) return;
        f(i);
      }
    };
    for (int t = 1; t < nt; ++t) ts.emplace_back(work);
    work();
    for (auto& t : ts) t.join();
  };
  if (nt > 1) ctx->verif_stats.threaded++;
  par(packs.size(), pack);
  par(blocks.size(), run);
}
}  // namespace ruy
#endif
