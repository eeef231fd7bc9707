// A deterministic scheduler for real code: threads, mutexes, condition variables, call_once and futexes of the
// process are run one at a time, and the next thread to run is chosen by a seeded strategy at every synchronisation
// operation, every atomic access and (with some probability) every memory access of instrumented code.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace sched {
struct Options {
  uint64_t seed{1};
  int strategy{0};     // 0 random walk, 1 priorities with a few change points, 2 mostly keep running
  int memory{0};       // a memory access is a preemption point once in this many (0: never)
  bool spurious{true}; // condition variables may wake up spuriously
};
struct Result {
  std::string verdict;             // "" or "DEADLOCK" / "LIVELOCK" / "RACE"
  std::vector<std::string> events; // what Logf() was told, in order
  long steps{0};
  uint64_t hash{0};                // identifies the schedule
};
// Runs body as thread 0. On a deadlock the process cannot go on: on_dead is called with the result so far.
Result Run(const Options& o, std::function<void()> body, std::function<void(const Result&)> on_dead);
void Logf(const char* format, ...);
void Point();   // an explicit preemption point
int Self();     // scheduled thread number (0: the body)
}  // namespace sched
