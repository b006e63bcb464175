// Controlled scheduler and race detector (see threads.cpp)
#pragma once
#include <cstddef>

namespace sched {

/// what happens at a scheduling point without a delay
enum class Base {
  Run,        ///< the running thread goes on until it has to wait, then the next one
  ChildFirst, ///< the same, but a created thread runs first
  Reverse,    ///< like Run, but the previous one is next
  RoundRobin  ///< the next thread at every point
};

constexpr size_t MaxDelays{8}, MaxPoints{20000};
constexpr int MaxRaces{8};

struct Schedule {
  Base base{};
  bool fine{};               ///< atomic operations are scheduling points too
  size_t delays{};           ///< number of delays
  unsigned at[MaxDelays]{};  ///< points (ascending) at which the next thread is skipped
};

struct Race {
  size_t addr;
  const void* pc[2];
  bool write[2];
  int tid[2];
  bool freed;
};

struct Result {
  unsigned points, switches, operations, atomics, accesses, races;
  int kept, threads;
  bool overflow;
  char stopped[64];
  Race race[MaxRaces];
  unsigned char enabled[MaxPoints], order[MaxPoints];
};

/// start controlled mode in the calling (only) thread
void begin(const Schedule&, Result&);
void finish();

} // namespace sched
