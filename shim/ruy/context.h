#ifndef VERIF_SHIM_RUY_CONTEXT_H_
#define VERIF_SHIM_RUY_CONTEXT_H_
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <list>
#include <map>
#include <random>
#include <tuple>
#include <vector>
namespace ruy {
class Allocator {
 public:
  ~Allocator() { FreeAll(); }
  void* AllocateBytes(std::ptrdiff_t n) {
    // Deliberately filled with rubbish: ruy does not clear its memory.
    void* p = nullptr;
    if (posix_memalign(&p, 64, n > 0 ? n : 1)) abort();
    for (std::ptrdiff_t i = 0; i < n; ++i)
      ((unsigned char*)p)[i] = (unsigned char)(0xA5 + 37 * i);
    live_.push_back(p);
    return p;
  }
  void FreeAll() {
    for (void* p : live_) free(p);
    live_.clear();
  }

 private:
  std::vector<void*> live_;
};
#ifdef __arm__
using VerifRng = std::mt19937;  // uint_fast64_t is no 64-bit type for the library here
#else
using VerifRng = std::mt19937_64;
#endif
// ruy::Ctx and ruy::Context in one: a thread count, a schedule source, and the
// cache of packed matrices that have cache_policy kAlwaysCache.
class Context final {
 public:
  Context() {}
  Context(const Context&) = delete;
  ~Context() { ClearPrepackedCache(); }
  int max_num_threads() const { return max_num_threads_; }
  void set_max_num_threads(int n) { max_num_threads_ = n; }
  void ClearPrepackedCache() {
    for (auto& kv : cache_) free(kv.second);
    cache_.clear();
  }
  Allocator* GetMainAllocator() { return &alloc_; }
  // Schedule control and observation (this shim only).
  void verif_seed(std::uint64_t s) { rng_.seed(s); }
  VerifRng& verif_rng() { return rng_; }
  struct Stats {
    long trmuls = 0, blocks = 0, threaded = 0, cache_hits = 0, cache_misses = 0;
    std::uint64_t schedule_hash = 0;
  } verif_stats;
  using Key = std::tuple<const void*, int, int, int, int, int, int, int>;
  std::map<Key, void*>& verif_cache() { return cache_; }
  bool verif_small_blocks = true;

 private:
  int max_num_threads_ = 1;
  Allocator alloc_;
  std::map<Key, void*> cache_;
  VerifRng rng_{1};
};
using Ctx = Context;
}  // namespace ruy
#endif
