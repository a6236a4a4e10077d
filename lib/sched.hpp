// Controlled OpenMP scheduler: interface between a harness and lib/sched.cpp.
#pragma once
#include <functional>
#include <string>
#include <vector>
namespace sched {
struct Options { int threads = 1; std::function<int(int region, int n)> choose; };
extern Options opt;
struct Stats { long regions = 0, strands = 0, switches = 0, tasks = 0, accesses = 0, chunks = 0; };
extern Stats st;
extern std::vector<std::string> races;   // conflicting accesses between unordered strands, and misuse of constructs
void reset(int threads, std::function<int(int, int)> choose);
}
