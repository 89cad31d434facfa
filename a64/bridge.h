#ifndef VERIF_A64_BRIDGE_H_
#define VERIF_A64_BRIDGE_H_
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <string>
namespace a64 {
class Cpu;
Cpu& TheCpu();
uint64_t Enter(uint64_t fn, std::initializer_list<uint64_t> args);
// Calls an exported function of the image by name.
uint64_t EnterExport(const char* name, std::initializer_list<uint64_t> args);
// What the emulator executed, as named counts.
void ReportTo(const std::function<void(const std::string&, long)>& count);
}  // namespace a64
#endif
