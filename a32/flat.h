#ifndef VERIF_A32_FLAT_H_
#define VERIF_A32_FLAT_H_
#include <cstdint>
// The same layout for both sides; addresses are 32-bit.
struct FlatTensor {
  uint32_t type, alloc, bytes, nd;
  int32_t dims[8];
  uint32_t data;
  float scale;
  int32_t zp;
  uint32_t quant;
};
struct Flat {
  uint32_t user_data, cpu, ntensors, capacity, tensors, added;
  uint32_t nin, nout, ntemps;
  int32_t in[8], out[8], temps[8];
};
#endif
