// C33: finding the data directory and the options shared by all programs
#include "mini.h"
#include <kt_stats/Stats.h>

using ref::Strs;

namespace {

struct Access : kt::KanjiData { // (used the same way by the repository's own tests)
  using kt::KanjiData::getDataDir, kt::KanjiData::getDebugMode;
};
using Mode = kt::KanjiData::DebugMode;

struct Argv {
  std::vector<const char*> v;
  explicit Argv(const Strs& s) {
    for (auto& i : s) v.push_back(i.c_str());
  }
  [[nodiscard]] kt::Args args() const { return v.empty() ? kt::Args{} : kt::Args{static_cast<int>(v.size()), v.data()}; }
};
Str show(const Strs& s) {
  Str r;
  for (auto& i : s) r += (r.empty() ? "" : " ") + i;
  return r;
}

/// a directory with exactly 10 '.txt' files
bool valid(const fs::path& p) {
  if (!fs::is_directory(p)) return false;
  int n{};
  for (auto& i : fs::directory_iterator{p}) {
    const auto s{i.path().filename().string()};
    n += s.size() > 4 && s.substr(s.size() - 4) == ".txt";
  }
  return n == 10;
}
/// nearest valid 'data' in a directory (an absolute path) or one above it
Str nearest(Str d) {
  for (;; d.resize(d.rfind('/'))) {
    if (valid(d + "/data")) return fs::canonical(d + "/data").string();
    if (d.empty()) return {};
  }
}

struct Got {
  Str path, error;
};
Got dataDir(const Strs& a) {
  const Argv v{a};
  Got g;
  try {
    const auto p{Access::getDataDir(v.args())};
    g.path = fs::canonical(p).string();
  } catch (const kt::DomainError& e) {
    g.error = e.what();
    if (g.error.empty()) g.error = "(no message)";
  } catch (const std::exception& e) {
    g.error = Str{"unexpected exception: "} + e.what();
  }
  return g;
}

// part 1: directory trees

enum Kind { Absent, Ten, Nine, Eleven, File, Link, Dangling, Empty, Kinds };
void fill(const fs::path& p, int n) {
  fs::create_directory(p);
  static const char* names[]{"extra", "frequency-readings", "frequency", "jinmei", "jouyou", "linked-jinmei", "meaning-groups", "pattern-groups", "radicals", "ucd", "more"};
  for (int i{}; i < n; ++i) put((p / names[i]).string() + ".txt", "");
  for (const char* i : {"README.md", "a.txt.bak", "b.TXT", "txt", "c.text"}) put((p / i).string(), "");
  fs::create_directory(p / "jlpt");
  put((p / "jlpt/n5.txt").string(), "");
}
void make(const fs::path& dir, int kind, const fs::path& target) {
  const auto p{dir / "data"};
  fs::remove_all(p);
  switch (kind) {
  case Ten: fill(p, 10); break;
  case Nine: fill(p, 9); break;
  case Eleven: fill(p, 11); break;
  case File: put(p.string(), "data\n"); break;
  case Link: fs::create_directory_symlink(target, p); break;
  case Dangling: fs::create_directory_symlink(target.string() + "-none", p); break;
  case Empty: fs::create_directory(p); break;
  default: break;
  }
}

void trees() {
  const fs::path root{fs::canonical(vh::g().scratch).string() + "/t"}, a{root / "a"}, b{a / "b"}, c{b / "c"}, other{root / "other"}, prog{other / "d"}, target{root / "target"};
  for (auto& i : {c, prog, c / "sub", other / "none", target.parent_path()}) fs::create_directories(i);
  fill(target, 10);
  const auto r{root.string()};
  if (const auto above{nearest(r)}; !above.empty()) return vh::fail("above", "there is a data directory above the test's: " + above);
  const Strs programs{"", "prog", "./prog", "sub/prog", "../prog", "../../other/d/prog", r + "/other/d/prog", r + "/other/none/prog", r + "/missing/prog", "missing/prog", "/prog"};
  const int kinds{Kinds};
  for (int ka{}; ka < kinds; ++ka)
    for (int kb{}; kb < kinds; ++kb)
      for (int kc{}; kc < kinds; ++kc)
        for (int ko : {Absent, Ten, Eleven}) {
          const auto name{"tree " + std::to_string(ka) + std::to_string(kb) + std::to_string(kc) + std::to_string(ko)};
          if (!vh::begin(name)) continue;
          make(a, ka, target);
          make(b, kb, target);
          make(c, kc, target);
          make(other, ko, target);
          std::vector<fs::path> from{root, a, b, c, c / "sub", prog};
          if (kb == Ten) from.push_back(b / "data");
          if (kc == Link) from.push_back(c / "data"); // (the same as target)
          for (auto& cwd : from) {
            fs::current_path(cwd);
            const auto here{fs::canonical(cwd).string()};
            const auto up{nearest(here)};
            for (auto& p : programs)
              for (int more{}; more < 2; ++more) {
                Strs args;
                if (!p.empty()) args.push_back(p);
                if (more && p.empty()) continue;
                if (more) args.insert(args.end(), {"-info", "x", "data"});
                const auto key{name + " in " + cwd.lexically_relative(root).string() + " as " + p};
                auto want{up};
                bool open{};
                if (want.empty() && p.find('/') != Str::npos) {
                  std::error_code e;
                  const auto own{fs::canonical(fs::path{p}.parent_path(), e).string()};
                  if (!e && own != "/") {
                    want = nearest(own.substr(0, own.rfind('/')));
                    open = valid(own + "/data"); // (in the program's own directory: either answer)
                  }
                }
                const auto g{dataDir(args)};
                vh::trace();
                vh::step();
                vh::state(key + " " + want);
                vh::outcome(want.empty() ? "none" : want);
                if (open) continue;
                if (!want.empty()) {
                  vh::same(g.path, want, key, "data directory (error '" + g.error + "')");
                  continue;
                }
                vh::same(g.path, want, key, "data directory");
                vh::expect(g.error.find(here) != Str::npos && g.error.find("-data") != Str::npos, key + " error", "error doesn't name the current directory and -data: " + g.error);
              }
          }
          fs::current_path("/");
          vh::sample([&] { return name; });
        }
}

// part 2: command lines

struct Lines {
  fs::path root{fs::canonical(vh::g().scratch).string()};
  Mini near{"w/data"}, one{"w/one"}, two{"w/two"};
  Strs tokens;
  Lines() {
    const auto all{roles()};
    near.write({all[0]});
    one.write({all[0], all[1]});
    two.write({all[2]});
    const auto w{root / "w"};
    fill(w / "nine", 9);
    fill(w / "eleven", 11);
    put((w / "file").string(), "");
    fs::create_directory_symlink(w / "two", w / "link");
    fs::current_path(w);
    tokens = {"-data", "one", (root / "w/two").string() + "/", "-debug", "-info", "file", "-b", "missing", "nine", "", "../w/link", "eleven", "."};
  }
};

struct Want {
  Str path;    ///< data directory
  Strs bad;    ///< texts in the error if there's none
  Strs rest;   ///< what is left for the program
  std::vector<size_t> at; ///< and where
  int debug{}, info{}, dirs{};
  bool swallowed{}; ///< a debug option is the value of a -data
};
Want expected(const Strs& a, const Str& up) {
  Want w;
  w.path = up;
  for (size_t i{1}; i < a.size(); ++i)
    if (a[i] == "-data") {
      if (!w.dirs++) {
        w.path.clear();
        if (i + 1 == a.size())
          w.bad = {"-data", "directory"};
        else if (!a[i + 1].empty() && valid(a[i + 1]))
          w.path = fs::canonical(a[i + 1]).string();
        else
          w.bad = {"'" + a[i + 1] + "'"};
      }
      ++i;
      if (i < a.size()) w.swallowed |= a[i] == "-debug" || a[i] == "-info";
    } else if (a[i] == "-debug")
      ++w.debug;
    else if (a[i] == "-info")
      ++w.info;
    else {
      w.rest.push_back(a[i]);
      w.at.push_back(i);
    }
  return w;
}

void line(const Strs& a, const Str& up, bool load) {
  const auto key{show(a)};
  const auto w{expected(a, up)};
  const auto g{dataDir(a)};
  const Argv argv{a};
  const auto args{argv.args()};
  vh::trace();
  vh::step(a.size());
  vh::state(key);
  vh::same(g.path, w.path, key, "data directory (error '" + g.error + "')");
  for (auto& i : w.bad) vh::expect(g.error.find(i) != Str::npos, key + " error", "'" + i + "' isn't in the error: " + g.error);
  const bool twice{w.debug + w.info > 1};
  Str mode, want{twice ? "refused" : w.debug ? "debug" : w.info ? "info" : "none"};
  try {
    const auto m{Access::getDebugMode(args)};
    mode = m == Mode::Full ? "debug" : m == Mode::Info ? "info" : "none";
  } catch (const kt::DomainError&) {
    mode = "refused";
  }
  if (!w.swallowed) vh::same(mode, want, key + " mode", "debug mode");
  vh::outcome(w.path + "/" + want + "/" + std::to_string(w.rest.size()));
  if (!g.path.empty()) { // (otherwise the program has ended)
    Strs rest;
    for (auto i{kt::KanjiData::nextArg(args)}; i < args.size() && rest.size() <= a.size(); i = kt::KanjiData::nextArg(args, i)) rest.emplace_back(args[i]);
    vh::same(show(rest), show(w.rest), key + " rest", "arguments left for the program");
    for (size_t i{}; i < w.at.size(); ++i) {
      const auto n{kt::KanjiData::nextArg(args, static_cast<kt::Args::Size>(i ? w.at[i - 1] : 0))};
      vh::same(size_t{n}, w.at[i], key + " next", "nextArg");
    }
    try {
      (void)kt::KanjiData::nextArg(args, static_cast<kt::Args::Size>(a.size() + 1));
      vh::fail(key + " beyond", "nextArg beyond the end isn't refused");
    } catch (const kt::DomainError&) {
    }
  }
  if (!load || w.swallowed) return;
  std::ostringstream out, err;
  Str got;
  try {
    const kt::TextKanjiData d{args, out, err};
    got = fs::canonical(d.dataDir()).string() + (d.fullDebug() ? " debug" : d.infoDebug() ? " info" : " none") + (d.debug() == (d.fullDebug() || d.infoDebug()) ? "" : "?");
    vh::same(out.str().empty(), want == "none", key + " loaded silent", "nothing is printed");
  } catch (const kt::DomainError&) {
    got = "refused";
  }
  vh::same(got, w.path.empty() || twice ? "refused" : w.path + " " + want, key + " loaded", "loaded data");
}

void commandLines() {
  Lines l;
  const auto up{(l.root / "w/data").string()};
  const size_t n{vh::g().thorough ? 5U : 4U};
  vh::words(l.tokens.size(), 0, n, [&](const std::vector<size_t>& x) {
    // one case for all words with the same start
    if (x.size() >= 2 && std::any_of(x.begin() + 2, x.end(), [](auto i) { return i; })) return;
    Str name{"arguments"};
    for (size_t i{}; i < std::min<size_t>(x.size(), 2); ++i) name += " " + l.tokens[x[i]];
    if (!vh::begin(name + " (" + std::to_string(x.size()) + ")")) return;
    const size_t more{x.size() < 2 ? 0 : x.size() - 2};
    vh::words(l.tokens.size(), more, more, [&](const std::vector<size_t>& y) {
      Strs a{"prog"};
      for (size_t i{}; i < std::min<size_t>(x.size(), 2); ++i) a.push_back(l.tokens[x[i]]);
      for (auto i : y) a.push_back(l.tokens[i]);
      line(a, up, a.size() <= 3 || (vh::g().thorough && a.size() == 4));
    });
    vh::sample([&] { return name; });
  });
  // many arguments: a shared option at each place
  for (size_t n : {6U, 9U, 10U, 17U, 33U, 70U, 130U, 260U, 300U})
    if (vh::begin(std::to_string(n) + " arguments"))
      for (auto& fill : {Str{"-b"}, Str{"file"}, Str{}})
        for (size_t i{}; i < n; ++i) {
          const auto many{[&](const Strs& at, const Strs& before) {
            Strs a{"prog"};
            for (size_t j{}; j < n; ++j) {
              if (j == 2) a.insert(a.end(), before.begin(), before.end());
              if (j == i) a.insert(a.end(), at.begin(), at.end());
              a.push_back(fill);
            }
            line(a, up, i % 32 == 0);
          }};
          for (auto& at : std::vector<Strs>{{"-data", "one"}, {"-data", "missing"}, {"-data"}, {"-debug"}, {"-info"}, {"-data", "one", "-info", "-data", "two"}, {"-debug", "-data", "one"}})
            for (auto& before : std::vector<Strs>{{}, {"-debug"}, {"-data", "one"}})
              if (before.empty() || i % 8 < 2) many(at, before);
        }
  // no arguments at all: everything is searched
  if (vh::begin("no arguments")) {
    vh::same(dataDir({}).path, up, "no arguments", "data directory");
    vh::expect(Access::getDebugMode({}) == Mode::None && !kt::KanjiData::nextArg({}), "no arguments:", "mode or next argument");
  }
  // a program sees the same with and without the shared options
  const auto f1{(l.root / "w/f1").string()}, f2{(l.root / "w/f2").string()};
  put(f1, "漢字かな\n");
  put(f2, "カナ（かな）\n");
  const std::vector<Strs> parts{{"-data", "one"}, {"-debug"}, {"-info"}, {"-b"}, {"-v"}, {"-h"}, {f1}, {f2}, {"-x"}, {"none"}, {"-data", "-b"}};
  Real real{l.one.dir};
  std::shared_ptr<kt::TextKanjiData> data{std::move(real.data)};
  const auto run{[&](const Strs& a) {
    real.out.str("");
    real.err.str("");
    Str e;
    try {
      kt::Stats s{Argv{a}.args(), data};
    } catch (const std::exception& x) {
      e = x.what();
      if (e.empty()) e = "?";
    }
    return real.out.str() + "|" + real.err.str() + "|" + e;
  }};
  std::map<Strs, Str> known;
  vh::words(parts.size(), 1, vh::g().thorough ? 4 : 3, [&](const std::vector<size_t>& x) {
    if (x.size() > 1 && x[1]) return;
    const auto first{std::to_string(x[0]) + " (" + std::to_string(x.size()) + ")"};
    if (std::any_of(x.begin() + 1, x.end(), [](auto i) { return i; })) return;
    if (!vh::begin("statistics " + first)) return;
    vh::words(parts.size(), x.size() - 1, x.size() - 1, [&](const std::vector<size_t>& y) {
      Strs a{"prog"}, plain{"prog"};
      for (size_t i{}; i < x.size(); ++i) {
        const auto k{i ? y[i - 1] : x[0]};
        a.insert(a.end(), parts[k].begin(), parts[k].end());
        if (k > 2 && k < 10) plain.insert(plain.end(), parts[k].begin(), parts[k].end());
      }
      if (a.size() == plain.size()) return;
      const auto [i, added]{known.try_emplace(plain)};
      if (added) i->second = run(plain);
      vh::trace();
      vh::step(a.size());
      vh::state(show(a));
      vh::same(run(a), i->second, "statistics " + show(a), "statistics (compared with those of the arguments without the shared ones)");
    });
  });
  fs::current_path("/");
}

} // namespace

int main(int argc, char** argv) {
  return vh::run(argc, argv, [] {
    trees();
    commandLines();
  });
}
