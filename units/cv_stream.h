// Streams for the contract units.  os_new/os_same are replaced by ghost traces in the verifier (engine/stdstubs.py).
#pragma once
#include <ostream>
#include <sstream>
#include <string>
extern "C" {
__attribute__((noinline)) std::ostream* os_new() { return new std::ostringstream; }
__attribute__((noinline)) int os_same(std::ostream* a, std::ostream* b) {
  return static_cast<std::ostringstream*>(a)->str() == static_cast<std::ostringstream*>(b)->str() && a->good() && b->good(); }
__attribute__((noinline)) void os_free(std::ostream* a) { delete a; }
}
