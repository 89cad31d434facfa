#pragma once
#include "tensorflow/lite/op_resolver.h"
