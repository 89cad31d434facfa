#ifndef VERIF_SHIM_FLATBUFFERS_BASE_H_
#define VERIF_SHIM_FLATBUFFERS_BASE_H_
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#define FLATBUFFERS_LITTLEENDIAN 1
#endif
