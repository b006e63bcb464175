// Common machinery of every harness: case bookkeeping, sharding, replay,
// crash/hang attribution and coverage counters.  Nothing here knows anything
// about kanji-tools.
//
// A harness enumerates its *whole* bounded space in a deterministic order and
// calls vh::begin(desc) before each case.  The index of the case is its replay
// handle: `harness --only N` enumerates the same space but executes only case
// N.  `--shard i/n` executes the cases with index % n == i.
#pragma once

#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <memory>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <ctime>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh {

struct G {
  bool thorough{};
  int shard{}, shards{1};
  long long only{-1}, index{-1};
  std::string out{"."}, repo{"/repo"}, scratch{"."}, data;
  unsigned limit{60};
  // counters
  uint64_t evals{}, traces{}, transitions{}, cases{};
  std::unordered_set<uint64_t> states, outcomes;
  std::vector<std::string> samples;
  std::map<std::string, uint64_t> extra;
  size_t fails{};
  std::set<std::string> failKeys;
  std::ofstream failFile;
  char* crash{}; // mmapped: text of the running case
  std::string desc;
};

inline G& g() {
  static G x;
  return x;
}

inline constexpr size_t CrashSize{1 << 14};

inline uint64_t hash(std::string_view s, uint64_t h = 1469598103934665603ULL) {
  for (const unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  h ^= h >> 29;
  h *= 0xbf58476d1ce4e5b9ULL;
  return h ^ (h >> 32);
}

/// printable rendering of arbitrary bytes
inline std::string show(std::string_view s) {
  std::string r;
  for (const unsigned char c : s)
    if (c == '\n')
      r += "\\n";
    else if (c == '\t')
      r += "\\t";
    else if (c == '\\')
      r += "\\\\";
    else if (c < 0x20 || c == 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    } else
      r += static_cast<char>(c);
  return r;
}
inline std::string hex(std::string_view s) {
  std::string r;
  char b[8];
  for (const unsigned char c : s) {
    snprintf(b, sizeof b, "%02x", c);
    r += b;
  }
  return r;
}

inline void note(std::string_view s) {
  if (!g().crash) return;
  const auto n{std::min(s.size(), CrashSize - 64)};
  std::memcpy(g().crash + 32, s.data(), n);
  g().crash[32 + n] = 0;
}

/// start a case: false means "not for this process, skip it"
inline bool begin(std::string_view desc) {
  auto& x{g()};
  if (static FILE* const times{getenv("VH_TIME") ? fopen(getenv("VH_TIME"), "a") : nullptr}; times) {
    static timespec a{};
    timespec b{};
    clock_gettime(CLOCK_MONOTONIC, &b);
    if (a.tv_sec && !x.desc.empty()) fprintf(times, "%.2f %s\n", static_cast<double>(b.tv_sec - a.tv_sec) + static_cast<double>(b.tv_nsec - a.tv_nsec) / 1e9, x.desc.c_str());
    a = b;
    x.desc.clear();
  }
  ++x.index;
  if (x.only >= 0 ? x.index != x.only : x.index % x.shards != x.shard)
    return false;
  ++x.cases;
  x.desc = desc;
  if (x.crash) {
    snprintf(x.crash, 32, "%lld", x.index);
    note(desc);
  }
  if (x.limit) alarm(x.limit);
  return true;
}

/// report a property violation; `key` identifies the specific input/history
inline void fail(const std::string& key, const std::string& msg) {
  auto& x{g()};
  ++x.fails;
  if (x.failKeys.size() >= 200 || !x.failKeys.insert(key).second) return;
  x.failFile << x.index << '\t' << show(key) << '\t' << show(x.desc) << '\t'
             << show(msg) << '\n';
  x.failFile.flush();
}

inline void state(std::string_view s) { g().states.insert(hash(s)); }
inline void outcome(std::string_view s) { g().outcomes.insert(hash(s)); }
inline void step(uint64_t n = 1) { g().transitions += n; }
inline void trace(uint64_t n = 1) {
  g().traces += n;
  g().evals += n;
}
inline void count(const std::string& k, uint64_t n = 1) { g().extra[k] += n; }

/// keep a spread of actual cases (1st, 2nd, 4th, 8th, ... offered)
inline void sample(const std::function<std::string()>& f) {
  static uint64_t n{}, next{1};
  if (++n == next && g().samples.size() < 24) {
    next = next * 3 + 1;
    g().samples.push_back(show(f()));
  }
}

/// compare and report; counts as one validated trace
template <typename A, typename B>
bool same(const A& got, const B& want, const std::string& key,
    const std::string& what) {
  if (got == want) return true;
  std::ostringstream o;
  o << what << ": got '" << got << "', expected '" << want << "'";
  fail(key, o.str());
  return false;
}
inline bool expect(bool ok, const std::string& key, const std::string& what) {
  if (!ok) fail(key, what);
  return ok;
}

inline void onAlarm(int) {
  static const char m[]{"vh: case time limit exceeded\n"};
  [[maybe_unused]] auto n{write(2, m, sizeof m - 1)};
  _exit(42);
}

inline std::string json(const std::string& s) {
  std::string r{"\""};
  for (const unsigned char c : s)
    if (c == '"' || c == '\\')
      (r += '\\') += static_cast<char>(c);
    else if (c < 0x20) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += static_cast<char>(c);
  return r + '"';
}

inline int finish() {
  auto& x{g()};
  alarm(0);
  std::ofstream f{x.out + "/stats." + std::to_string(x.shard)};
  f << "{\"evals\":" << x.evals << ",\"traces\":" << x.traces
    << ",\"transitions\":" << x.transitions << ",\"cases\":" << x.cases
    << ",\"index\":" << x.index + 1 << ",\"fails\":" << x.fails
    << ",\"samples\":[";
  for (size_t i{}; i < x.samples.size(); ++i)
    f << (i ? "," : "") << json(x.samples[i]);
  f << "],\"extra\":{";
  bool first{true};
  for (auto& [k, v] : x.extra) {
    f << (first ? "" : ",") << json(k) << ':' << v;
    first = false;
  }
  f << "}}";
  f.close();
  const auto dump{[&](const char* n, const std::unordered_set<uint64_t>& s) {
    std::ofstream o{x.out + '/' + n + '.' + std::to_string(x.shard),
        std::ios::binary};
    std::vector<uint64_t> v{s.begin(), s.end()};
    o.write(reinterpret_cast<const char*>(v.data()),
        static_cast<std::streamsize>(v.size() * sizeof(uint64_t)));
  }};
  dump("states", x.states);
  dump("outcomes", x.outcomes);
  x.failFile.close();
  return x.fails ? 3 : 0;
}

/// `body` enumerates the whole space
inline int run(int argc, char** argv, const std::function<void()>& body) {
  auto& x{g()};
  for (int i{1}; i < argc; ++i) {
    const std::string a{argv[i]};
    const auto val{[&] { return std::string{argv[++i]}; }};
    if (a == "--thorough")
      x.thorough = true;
    else if (a == "--shard") {
      const auto v{val()};
      x.shard = std::stoi(v);
      x.shards = std::stoi(v.substr(v.find('/') + 1));
    } else if (a == "--only")
      x.only = std::stoll(val());
    else if (a == "--out")
      x.out = val();
    else if (a == "--repo")
      x.repo = val();
    else if (a == "--data")
      x.data = val();
    else if (a == "--limit")
      x.limit = static_cast<unsigned>(std::stoul(val()));
  }
  x.scratch = x.out + "/scratch." + std::to_string(x.shard);
  mkdir(x.scratch.c_str(), 0755);
  x.failFile.open(x.out + "/fails." + std::to_string(x.shard));
  const auto cf{x.out + "/case." + std::to_string(x.shard)};
  const int fd{open(cf.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644)};
  if (fd >= 0 && !ftruncate(fd, CrashSize)) {
    auto* p{mmap(nullptr, CrashSize, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0)};
    if (p != MAP_FAILED) x.crash = static_cast<char*>(p);
    strcpy(x.crash, "-1");
  }
  signal(SIGALRM, onAlarm);
  body();
  return finish();
}

/// result of calling code that may throw: type tag plus message
struct Thrown {
  std::string type, what; ///< type is empty if nothing was thrown
};

/// all words over an alphabet of n symbols with length in [lo, hi] in
/// length-lexicographic order (shortest counterexample first)
template <typename F>
void words(size_t n, size_t lo, size_t hi, const F& f) {
  for (size_t len{lo}; len <= hi; ++len) {
    std::vector<size_t> w(len, 0);
    for (;;) {
      f(w);
      size_t i{len};
      while (i && ++w[i - 1] == n) w[--i] = 0;
      if (!i) break;
    }
  }
}

} // namespace vh
