// C30: the statistics workers under every schedule up to a number of delays
#include "cmp_kanji.h"
#include "threads.h"
#include <filesystem>
#include <kt_stats/Stats.h>
#include <poll.h>
#include <sys/mman.h>

namespace fs = std::filesystem;
using ref::Str, ref::Strs;

namespace {

Str Self;
} // namespace
extern "C" char __executable_start;
namespace {
constexpr size_t OutSize{1 << 20};
struct Shared {
  sched::Result r;
  size_t size, errorSize;
  char out[OutSize], error[1 << 12];
};
Shared& shared() {
  static auto* p{static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0))};
  return *p;
}

struct World {
  Real real{vh::g().data};
  kt::KanjiDataPtr data{std::move(real.data)};
};
World& world() {
  static World w;
  return w;
}

struct Ran {
  Str out, error, bad; ///< bad: no result
  const sched::Result* r;
};
/// one execution in a process of its own (always the same initial state)
Ran execute(const Strs& args, const sched::Schedule& s) {
  auto& sh{shared()};
  auto& w{world()};
  w.real.out.str("");
  w.real.err.str("");
  memset(&sh.r, 0, offsetof(sched::Result, enabled));
  sh.size = sh.errorSize = 0;
  std::vector<const char*> argv{""};
  for (auto& a : args) argv.push_back(a.c_str());
  const auto pid{fork()};
  if (!pid) {
    alarm(60);
    Str error;
    sched::begin(s, sh.r);
    try {
      kt::Stats x{kt::Args{static_cast<int>(argv.size()), argv.data()}, w.data};
    } catch (const std::exception& e) {
      error = e.what();
    }
    sched::finish();
    const auto o{w.real.out.str() + w.real.err.str()};
    sh.size = std::min(o.size(), OutSize);
    memcpy(sh.out, o.data(), sh.size);
    sh.errorSize = std::min(error.size(), sizeof sh.error);
    memcpy(sh.error, error.data(), sh.errorSize);
    _exit(0);
  }
  int st{};
  waitpid(pid, &st, 0);
  Ran r{{sh.out, sh.size}, {sh.error, sh.errorSize}, {}, &sh.r};
  if (sh.r.stopped[0])
    r.bad = sh.r.stopped;
  else if (!WIFEXITED(st))
    r.bad = "killed by signal " + std::to_string(WTERMSIG(st));
  else if (WEXITSTATUS(st))
    r.bad = "exit status " + std::to_string(WEXITSTATUS(st));
  else if (sh.r.overflow)
    r.bad = "race detector out of memory";
  return r;
}

Str where(const void* pc) {
  static std::map<const void*, Str> known;
  const auto [i, added]{known.try_emplace(pc)};
  auto& r{i->second};
  if (!added) return r;
  char c[400];
  snprintf(c, sizeof c, "addr2line -Cfspe %s/h 0x%zx 2>/dev/null", Self.c_str(), static_cast<size_t>(static_cast<const char*>(pc) - &__executable_start) - 1);
  FILE* p{popen(c, "r")};
  if (p) {
    char b[1000];
    while (fgets(b, sizeof b, p)) r += b;
    pclose(p);
  }
  while (!r.empty() && r.back() == '\n') r.pop_back();
  return r;
}

Str name(const sched::Schedule& s) {
  static const char* const base[]{"run", "child first", "reverse", "round robin"};
  Str r{base[static_cast<int>(s.base)]};
  if (s.fine) r += " fine";
  for (size_t i{}; i < s.delays; ++i) r += (i ? "," : " delays ") + std::to_string(s.at[i]);
  return r;
}

struct Scenario {
  Str name;
  Strs args;
};

struct Explorer {
  const Scenario& sc;
  Str want, wantError;

  static inline unsigned failures; ///< enough is enough: exploration stops after 20 (per process)

  unsigned run(const sched::Schedule& s) {
    if (failures >= 20) return 0;
    const auto g{execute(sc.args, s)};
    const auto key{sc.name + " [" + ::name(s) + "]"};
    vh::trace();
    vh::step(g.r->operations);
    vh::count("accesses", g.r->accesses);
    vh::count("atomics", g.r->atomics);
    vh::count("schedules");
    const auto n{std::min<size_t>(g.r->switches, sched::MaxPoints)};
    vh::state(sc.name + Str{reinterpret_cast<const char*>(g.r->order), n});
    vh::outcome(sc.name + g.out + g.error);
    vh::sample([&] { return key + " points " + std::to_string(g.r->points) + " switches " + std::to_string(n) + " threads " + std::to_string(g.r->threads); });
    if (!g.bad.empty()) {
      ++failures;
      vh::fail(key, g.bad);
      return 0;
    }
    if (g.r->kept || g.out != want || g.error != wantError) ++failures;
    for (int i{}; i < g.r->kept; ++i) {
      const auto& x{g.r->race[i]};
      vh::fail(key, Str{"data race between "} + (x.write[0] ? "write" : "read") + " in " + where(x.pc[0]) + " (thread " + std::to_string(x.tid[0]) + ") and " + (x.freed ? "free" : x.write[1] ? "write" : "read") + " in " + where(x.pc[1]) +
                        " (thread " + std::to_string(x.tid[1]) + ")");
    }
    if (g.out != want || g.error != wantError) {
      size_t d{};
      while (d < g.out.size() && d < want.size() && g.out[d] == want[d]) ++d;
      vh::fail(key, "output '" + g.out.substr(d, 200) + "' error '" + g.error + "', but running the workers one after the other gives '" + want.substr(d, 200) + "' '" + wantError + "' (from byte " + std::to_string(d) + ")");
    }
    return g.r->points;
  }

  /// every schedule with up to `more` delays after the ones of `s`
  void extend(sched::Schedule s, unsigned points, size_t more) {
    if (!more || s.delays == sched::MaxDelays) return;
    const std::vector<unsigned char> enabled{shared().r.enabled, shared().r.enabled + std::min<size_t>(points, sched::MaxPoints)};
    for (auto p{s.delays ? s.at[s.delays - 1] : 0}; p < enabled.size(); ++p) {
      if (std::count(s.at, s.at + s.delays, p) + 1 >= enabled[p]) continue; // all others were skipped: the same again
      auto t{s};
      t.at[t.delays++] = p;
      alarm(vh::g().limit); // time limit for each schedule
      extend(t, run(t), more - 1);
    }
  }
};

void body() {
  const bool deep{vh::g().thorough};
  const fs::path d{vh::g().scratch + "/木"};
  fs::create_directories(d / "子");
  const auto put{[](const fs::path& f, const Str& t) { std::ofstream{f} << t; }};
  const Str mix{"あ漢（か）ア亜逢丆\n、☆Ａ😀か\xe3\x82\x99\xff亜\xef\xb8\x80漢（\nか）㐂\n"};
  const auto f1{(d / "一").string()}, f2{(d / "子/二").string()}, none{vh::g().scratch + "/none"}, empty{vh::g().scratch + "/empty"};
  put(f1, mix);
  put(f2, "い（か）😀😀丆\n");
  put(empty, "");
  const std::vector<Scenario> sc{{"file", {f1}}, {"file -b -v", {"-b", "-v", f1}}, {"directory -b", {"-b", d.string()}}, {"two files", {f1, f2}}, {"empty", {empty}}, {"file and missing", {f2, none}}};
  using sched::Base;
  const Base bases[]{Base::ChildFirst, Base::Run, Base::Reverse, Base::RoundRobin};
  world();
  for (size_t i{}; i < sc.size(); ++i) {
    Explorer x{sc[i]};
    {
      const auto g{execute(sc[i].args, {Base::ChildFirst})};
      x.want = g.out;
      x.wantError = g.error;
      if (!g.bad.empty() && vh::begin(sc[i].name)) vh::fail(sc[i].name, g.bad);
      if (!g.bad.empty()) continue;
    }
    for (auto base : bases)
      for (auto fine : {false, true}) {
        if (Explorer::failures >= 20) return;
        sched::Schedule s{base, fine};
        const auto g{execute(sc[i].args, s)};
        const auto points{g.r->points};
        const std::vector<unsigned char> enabled{g.r->enabled, g.r->enabled + std::min<size_t>(points, sched::MaxPoints)};
        if (getenv("VH_POINTS")) fprintf(stderr, "%s %s points %u accesses %u atomics %u ops %u\n", sc[i].name.c_str(), name(s).c_str(), points, g.r->accesses, g.r->atomics, g.r->operations);
        if (vh::begin(sc[i].name + " " + name(s))) x.run(s);
        for (unsigned p{}; p < enabled.size(); ++p)
          if (vh::begin(sc[i].name + " " + name(s) + " first delay " + std::to_string(p))) {
            auto t{s};
            t.at[t.delays++] = p;
            const bool first{base <= Base::ChildFirst}, large{i && i != 4};
            const bool main{!fine && (deep ? first || !large : first && i == 0)};
            x.extend(t, x.run(t), main ? (deep && i == 4 && base == Base::ChildFirst ? 2 : 1) : 0);
          }
      }
  }
}

} // namespace

int main(int argc, char** argv) {
  Self = argv[0];
  Self.resize(Self.rfind('/'));
  return vh::run(argc, argv, body);
}
