#pragma once
namespace tflite {
class Interpreter;
inline void PrintInterpreterState(const Interpreter*) {}
}
