#ifndef VERIF_A32_BRIDGE_H_
#define VERIF_A32_BRIDGE_H_
#include <cstdint>
#include <functional>
#include <string>
namespace a32 {
// Packs a matrix with the image's own routine ("v32_pack_float" and so on).
void Pack(const char* name, const void* in, size_t in_bytes, size_t misaligned, size_t rows, size_t cols, void* out, size_t out_bytes, int32_t zp);
void ReportTo(const std::function<void(const std::string&, long)>& count);
}  // namespace a32
#endif
