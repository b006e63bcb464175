// C31: the kanjiFormat program against a line automaton
#include "ref_utf8.h"
#include "vh.h"
#include <fcntl.h>
#include <filesystem>
#include <sys/prctl.h>

using Str = std::string;

namespace {

Str Self; ///< directory of the binaries

bool kanji(uint32_t c) {
  return (c >= 0x4e00 && c <= 0x9fff) || (c >= 0x3400 && c <= 0x4dbf) || (c >= 0xf900 && c <= 0xfaff) || (c >= 0x20000 && c <= 0x2a6df) || (c >= 0x2e80 && c <= 0x2eff) || (c >= 0x2a700 && c <= 0x2ebef) || (c >= 0x2f800 && c <= 0x2fa1f) || (c >= 0x30000 && c <= 0x3134f) || (c >= 0xfe00 && c <= 0xfe0f);
}
bool kana(uint32_t c) { return (c >= 0x3040 && c <= 0x30ff) || (c >= 0x31f0 && c <= 0x31ff); }

/// documented result: furigana lines follow their Kanji in wide brackets
Str model(const Str& text) {
  Str out, held;
  bool holding{};
  size_t i{};
  while (i < text.size()) {
    const auto e{std::min(text.find('\n', i), text.size())};
    const auto line{text.substr(i, e - i)};
    i = e + 1;
    const auto c{ref::dec(line)};
    bool allKana{!c.empty()};
    for (auto x : c) allKana = allKana && kana(x);
    if (holding) {
      holding = false;
      if (allKana) {
        out += held + "（" + line + "）";
        continue;
      }
      out += held + "\n";
    }
    if (!c.empty() && kanji(c.back())) {
      held = line;
      holding = true;
    } else
      out += line + "\n";
  }
  if (holding) out += held + "\n";
  return out;
}

struct Got {
  Str out, err;
  int rc{};
};
Str slurp(const Str& f) {
  std::ostringstream o;
  o << std::ifstream{f, std::ios::binary}.rdbuf();
  return o.str();
}
/// `plain` runs without root's right to open everything
Got exec(const std::vector<Str>& args, bool plain = false) {
  const auto f{vh::g().scratch + "/io"};
  const auto pid{fork()};
  if (!pid) {
    for (auto [n, e, m] : {std::tuple{0, "", O_RDONLY}, {1, ".out", O_WRONLY | O_CREAT | O_TRUNC}, {2, ".err", O_WRONLY | O_CREAT | O_TRUNC}}) dup2(open(n ? (f + e).c_str() : "/dev/null", m, 0644), n);
    if (plain)
      for (int c : {1, 2}) prctl(PR_CAPBSET_DROP, c, 0, 0, 0); // CAP_DAC_OVERRIDE, CAP_DAC_READ_SEARCH
    std::vector<char*> argv{const_cast<char*>("kanjiFormat")};
    for (auto& a : args) argv.push_back(const_cast<char*>(a.c_str()));
    argv.push_back(nullptr);
    execv((Self + "/app").c_str(), argv.data());
    _exit(127);
  }
  int st{};
  waitpid(pid, &st, 0);
  return {slurp(f + ".out"), slurp(f + ".err"), WIFEXITED(st) ? WEXITSTATUS(st) : 128};
}

void run(const Str& text, const Str& key, bool readOnly = false) {
  const auto f{vh::g().scratch + "/in.txt"};
  chmod(f.c_str(), 0644);
  FILE* o{fopen(f.c_str(), "wb")};
  if (!o || fwrite(text.data(), 1, text.size(), o) != text.size()) abort();
  fclose(o);
  if (readOnly) chmod(f.c_str(), 0444);
  const auto g{exec({f}, readOnly)};
  const auto want{model(text)};
  vh::trace();
  vh::step(static_cast<size_t>(std::count(text.begin(), text.end(), '\n')) + 1);
  vh::state(text);
  vh::outcome(want);
  vh::sample([&] { return key + " -> " + want.substr(0, 200); });
  vh::expect(g.rc == 0 && g.err.empty(), key, "exit status " + std::to_string(g.rc) + " " + g.err);
  if (g.out == want) return;
  size_t d{};
  while (d < g.out.size() && d < want.size() && g.out[d] == want[d]) ++d;
  const auto from{d > 60 ? d - 60 : 0};
  vh::fail(key, "got '" + g.out.substr(from, 300) + "', expected '" + want.substr(from, 300) + "' (from byte " + std::to_string(from) + ")");
  vh::expect(slurp(f) == text, key + ":file", "the input file was changed");
}

void body() {
  const bool deep{vh::g().thorough};
  // line kinds: ends with Kanji, Kana only, other
  const std::vector<Str> kinds{"一", "い", "あ二", "アー", "", "a", "三い", "い三a", "四\ufe00", "いa", "、い", "五。", "\xe4\xb8", "い い"};
  const size_t n{kinds.size()}, max{deep ? 5U : 4U};
  for (size_t a{}; a < n; ++a)
    for (size_t b{}; b < n; ++b)
      if (vh::begin("files starting with lines '" + kinds[a] + "' '" + kinds[b] + "'")) {
        if (!b)
          for (auto e : {"", "\n"}) run(kinds[a] + e, kinds[a] + e);
        if (!a && !b) run("", "empty file");
        // the longest ones over the first kinds only
        vh::words(n, 0, max - 2, [&](const auto& w) {
          if (w.size() == max - 2 && deep)
            for (auto i : w)
              if (i > 7) return;
          Str t{kinds[a] + "\n" + kinds[b]};
          for (auto i : w) t += "\n" + kinds[i];
          run(t, t);
          if (w.size() < 2 || deep) run(t + "\n", t + "\n");
        });
      }
  // all sequences of kinds in one file: each window of 6 (7) lines over 5 kinds
  if (vh::begin("long file")) {
    Str t;
    vh::words(5, 0, deep ? 7 : 6, [&](const auto& w) {
      for (auto i : w) t += kinds[i] + "\n";
    });
    run(t, "long file");
  }
  // every character as the end of a line, and as the line after a Kanji
  for (uint32_t b{}; b < 0x110000; b += 0x400)
    if (b < 0x32000 || b % 0x4000 == 0)
      if (vh::begin("characters from " + std::to_string(b)))
        for (int k{}; k < 4; ++k) {
          Str t;
          for (auto c{b}; c < b + 0x400; ++c)
            if (ref::scalar(c) && c && c != '\n') {
              const auto s{ref::enc(c)};
              if (k == 0)
                t += "あ" + s + "\nい\nx\n";
              else if (k == 1)
                t += "一\n" + s + "\nx\n";
              else if (k == 2)
                t += "一\nい" + s + "\nx\n";
              else
                t += "一\n" + s + "い\n" + s + "一\n";
            }
          run(t, "characters " + std::to_string(b) + " form " + std::to_string(k));
        }
  // long lines
  for (size_t len : {1000U, 3000U, 100000U})
    if (vh::begin("lines of " + std::to_string(len))) {
      Str k, x, m;
      for (size_t i{}; i < len; ++i) {
        k += ref::enc(static_cast<uint32_t>(0x4e00 + i % 0x5000));
        x += "か";
        m += i % 2 ? "か" : "一";
      }
      for (auto& a : {k, x, m})
        for (auto& c : {k, x, m}) run(a + "\n" + c + "\n" + x, "long lines");
    }
  // lines of every length, as the last one, the one before it or the only one
  for (size_t len{1}; len <= 320; len += deep || len < 66 ? 1 : len < 130 ? 7 : 19)
    if (vh::begin("lines of each kind with " + std::to_string(len))) {
      const auto fill{[&](const char* x, const char* end) {
        Str s;
        for (size_t i{1}; i < len; ++i) s += x;
        return s + end;
      }};
      const std::vector<Str> l{fill("あ", "二"), fill("三", "一"), fill("x", "\U00020b9f"), fill("い", "か"), fill("カ", "x"), fill("a", "。"), fill("四", "侮\ufe00"), fill(" ", "五")};
      for (auto& a : l) {
        for (auto e : {"", "\n", "\n\n"}) {
          run(a + e, a + e);
          for (auto& b : {Str{"一"}, Str{"い"}, Str{"x"}, Str{}}) {
            run(b + "\n" + a + e, b + "," + a + e);
            run(a + "\n" + b + e, a + "," + b + e);
          }
        }
        if (deep || len % 16 == 1)
          for (auto& b : l)
            for (auto e : {"", "\n"}) {
              run(a + "\n" + b + e, a + "," + b);
              run(a + "\nい\n" + b + e, a + ",い," + b);
            }
      }
    }
  // many lines waiting
  if (vh::begin("many Kanji lines")) {
    Str t;
    for (int i{}; i < 5000; ++i) t += ref::enc(static_cast<uint32_t>(0x4e00 + i)) + "\n";
    run(t, "many Kanji lines");
    run(t + "い", "many Kanji lines with Kana");
  }
  if (vh::begin("read only file")) run("一\nい\nx\n二", "read only", true);
  if (vh::begin("arguments")) {
    const auto d{vh::g().scratch};
    std::ofstream{d + "/x.txt"} << "一\n";
    for (auto& a : std::vector<std::vector<Str>>{{}, {""}, {d}, {d + "/none"}, {d + "/none", d + "/x.txt"}}) {
      const auto g{exec(a)};
      vh::trace();
      vh::expect(g.rc == 1 && g.out.empty() && !g.err.empty(), "args" + (a.empty() ? Str{} : a[0]), "not refused: " + g.out);
    }
  }
  // sample texts of the repository
  for (auto& e : std::filesystem::recursive_directory_iterator{vh::g().repo + "/tests/stats/sample-data"})
    if (e.is_regular_file() && e.file_size() < 1000000 && vh::begin(e.path().filename().string())) run(slurp(e.path().string()), e.path().filename().string());
}

} // namespace

int main(int argc, char** argv) {
  Self = argv[0];
  Self.resize(Self.rfind('/'));
  return vh::run(argc, argv, body);
}
