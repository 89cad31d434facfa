// Lets the workload read what the stand-in interpreter saw.
#include "tensorflow/lite/interpreter.h"
extern "C" __attribute__((visibility("default"))) long verif_get(int what) {
  auto& l = tflite::verif_internal::last();
  switch (what) {
    case 0: return l.invokes;
    case 1: return l.live;
    case 2: return l.threads;
    case 3: return l.default_delegates;
    default: return l.dangling;
  }
}
