// Forced include of the quiz checks: std::mt19937 becomes a generator whose
// draws are chosen by the harness, so that "random" order and answers can be
// enumerated like any other nondeterminism.
#pragma once
#include <cstddef>
#include <cstdint>
#include <random>
#include <vector>

namespace vhrng {
inline std::vector<unsigned> script; ///< grid points to return first
inline std::size_t pos{};            ///< draws so far
inline constexpr unsigned Grid{12};
inline std::uint32_t next() {
  // afterwards every grid point in turn, so that no retry loop can go on forever
  const auto k{pos < script.size() ? script[pos] : static_cast<unsigned>((pos - script.size()) * 5 % Grid)};
  ++pos;
  return static_cast<std::uint32_t>((static_cast<std::uint64_t>(k % Grid) << 32) / Grid + 0x1000000);
}
inline void reset(std::vector<unsigned> s = {}) {
  script = std::move(s);
  pos = 0;
}
} // namespace vhrng

namespace std {
struct vh_mt19937 {
  using result_type = std::uint_fast32_t;
  vh_mt19937() = default;
  template <typename T> explicit vh_mt19937(T&&) {}
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return 0xffffffffUL; }
  result_type operator()() { return vhrng::next(); }
  template <typename... T> void seed(T&&...) {}
  void discard(unsigned long long n) { while (n--) vhrng::next(); }
};
} // namespace std
#define mt19937 vh_mt19937
