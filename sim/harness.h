#ifndef VERIF_HARNESS_H_
#define VERIF_HARNESS_H_
#include <stdint.h>
#include <string>
const char* OpName(int kind);
const char* ProbeNameShared(int id);
[[noreturn]] void RunHarness(const std::string& prop, uint64_t seed);
#endif
