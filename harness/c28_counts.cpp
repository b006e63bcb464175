// C28: Utf8Count against a counting model
#include "ref_count.h"
#include "vh.h"
#include <filesystem>
#include <kt_stats/Utf8Count.h>
#include <linux/capability.h>
#include <sys/resource.h>
#include <sys/syscall.h>

namespace fs = std::filesystem;
using namespace kanji_tools;
using ref::Counts, ref::Str;
using OptTag = std::optional<Str>;

namespace {

struct Filter {
  const char* name;
  std::function<bool(const Str&)> f;
};
bool hiragana(const Str& s) {
  const auto c{ref::dec(s)};
  return c.size() == 1 && c[0] >= 0x3040 && c[0] <= 0x309f;
}
const std::vector<Filter> Filters{{"all", {}}, {"Hiragana", hiragana}, {"none", [](const Str&) { return false; }}, {"long", [](const Str& s) { return s.size() > 3; }}};

struct Pattern {
  const char* name;
  std::optional<std::wregex> re;
  std::wstring to;
  std::function<ref::U32(const ref::U32&)> model;
};
ref::U32 literal(const ref::U32& s, const ref::U32& from, const ref::U32& to) {
  ref::U32 r;
  for (size_t i{}; i < s.size();)
    if (s.compare(i, from.size(), from) == 0) {
      r += to;
      i += from.size();
    } else
      r += s[i++];
  return r;
}
const Pattern& pattern(size_t i) {
  static const std::vector<Pattern> p{{"none", {}, L"", {}}, {"furigana", Utf8Count::RemoveFurigana, Utf8Count::DefaultReplace, ref::removeFurigana},
      {"remove か", std::wregex{L"か"}, L"", [](const ref::U32& s) { return literal(s, U"か", U""); }},
      {"（ to 漢あ", std::wregex{L"（"}, L"漢あ", [](const ref::U32& s) { return literal(s, U"（", U"漢あ"); }},
      {"か to か", std::wregex{L"か"}, L"か", [](const ref::U32& s) { return s; }},
      {"か to 漢", std::wregex{L"か"}, L"漢", [](const ref::U32& s) { return literal(s, U"か", U"漢"); }}};
  return p[i];
}

/// the real class and the model side by side
struct Pair {
  std::unique_ptr<Utf8Count> real;
  Counts model;
  std::ostringstream debug;
  Str key;
  bool anyOrder{}; ///< several files: which one had the last replacement isn't specified

  explicit Pair(const Str& k, size_t pat = 0, size_t filter = 0) : key{k + " pattern " + pattern(pat).name + " filter " + Filters[filter].name} {
    const auto& p{pattern(pat)};
    const auto& f{Filters[filter].f};
    model.allow = f;
    model.replace = p.model;
    if (f)
      real = std::make_unique<Utf8CountIf<std::function<bool(const Str&)>>>(f, p.re, p.to, &debug);
    else if (!p.re)
      real = std::make_unique<Utf8Count>();
    else
      real = std::make_unique<Utf8Count>(p.re, p.to, &debug);
  }
  void added(size_t got, size_t want) {
    if (!model.open) vh::same(got, want, key, "characters reported as added");
  }
  void add(const Str& s, const OptTag& t = {}) { added(real->add(s, t), model.add(s, t)); }

  static Str show(const Counts::Map& m) {
    Str r;
    for (auto& [k, v] : m) r += k + "=" + std::to_string(v) + " ";
    return r;
  }
  void check() {
    const auto& r{*real};
    const auto& m{model};
    vh::trace();
    vh::step(m.total + 1);
    const auto map{show(m.map)};
    vh::state(map + std::to_string(m.errors) + "/" + std::to_string(m.variants) + "/" + std::to_string(m.marks) + "/" + std::to_string(m.replacements));
    vh::outcome(std::to_string(m.map.size()) + "," + std::to_string(m.total) + "," + std::to_string(m.errors) + "," + std::to_string(m.replacements));
    vh::sample([&] { return key + " -> " + map; });
    vh::same(r.files(), m.files, key, "files");
    vh::same(r.directories(), m.dirs, key, "directories");
    vh::same(r.replacements(), m.replacements, key, "replacements");
    if (!anyOrder) {
      vh::same(r.lastReplaceTag(), m.lastTag, key, "last tag with a replacement");
      if (!m.allow && !m.replace ? !r.debug() : r.debug() == &debug)
        vh::same(debug.str(), m.log, key, "changed lines shown");
      else
        vh::fail(key, "wrong debug stream");
    }
    if (m.open) return;
    vh::same(show(r.map()), map, key, "counts");
    vh::same(r.uniqueEntries(), m.map.size(), key, "number of different characters");
    vh::same(r.errors(), m.errors, key, "errors");
    vh::same(r.variants(), m.variants, key, "variation selectors");
    vh::same(r.combiningMarks(), m.marks, key, "combining marks");
    for (auto& [k, v] : m.map) {
      vh::same(r.count(k), v, key, "count of " + k);
      const auto i{m.tags.find(k)};
      const auto t{r.tags(k)};
      if ((t != nullptr) != (i != m.tags.end()))
        vh::fail(key, "tags of " + k + (t ? " not expected" : " missing"));
      else if (t)
        vh::same(show(*t), show(i->second), key, "tags of " + k);
    }
    for (auto k : {"", "a", "鬱", "あか", "\xff"})
      if (!m.map.count(k)) vh::expect(!r.count(k) && !r.tags(k), key, "something found for a text never counted");
  }
};

void put(const fs::path& f, const Str& text) {
  FILE* o{fopen(f.c_str(), "wb")};
  if (!o || fwrite(text.data(), 1, text.size(), o) != text.size()) abort();
  fclose(o);
}

void addFile(Pair& p, const fs::path& f, bool tag, bool names, bool recurse) {
  const auto want{ref::modelAdd(p.model, f, tag, names, recurse)};
  p.added(p.real->addFile(f, tag, names, recurse), want);
}

/// a text in a file (and without a pattern: the same text line by line)
void runFile(const Str& text, const Str& key, size_t pat, size_t filter = 0, int flags = 0) {
  const auto f{vh::g().scratch + "/甲.txt"};
  put(f, text);
  Pair p{key, pat, filter};
  addFile(p, f, flags & 1, flags & 2, true);
  p.check();
}

/// all ways to add the pieces in up to three calls
void runAdds(const std::vector<Str>& w, const Str& key, size_t pat, size_t filter) {
  const auto join{[&](size_t a, size_t b) {
    Str s;
    while (a < b) s += w[a++];
    return s;
  }};
  for (size_t a{}; a <= w.size(); ++a)
    for (auto b{a}; b <= w.size(); ++b) {
      if (a && b == w.size() && a != b) continue;
      Pair p{key + " split at " + std::to_string(a) + "," + std::to_string(b), pat, filter};
      static const OptTag tags[]{{}, Str{"x"}, Str{"y"}};
      p.add(join(0, a), tags[(a + b) % 3]);
      p.add(join(a, b), tags[b % 3]);
      p.add(join(b, w.size()), tags[(a + 1) % 3]);
      p.check();
    }
}

Str text(const std::vector<Str>& t, const std::vector<size_t>& w) {
  Str s;
  for (auto i : w) s += t[i];
  return s;
}

const std::vector<Str> Tokens{"漢", "か", "（", "）", "\n", "a", "\xff", "\xef\xb8\x80", "\xe3\x82\x99", "が", "Ａ", "\xf0\xa0\x80\x80", "・", "\xe6\xbc", "ーア", "(か)"};

void deepWords(const char* name, const std::vector<Str>& t, size_t max, const std::function<void(const Str&)>& f) {
  const auto n{t.size()};
  for (size_t a{}; a < n; ++a)
    for (size_t b{}; b < n; ++b)
      if (vh::begin(Str{name} + " starting with '" + t[a] + t[b] + "'")) {
        if (!b) f(t[a]);
        if (!a && !b) f("");
        vh::words(n, 0, max - 2, [&](const auto& w) { f(t[a] + t[b] + text(t, w)); });
      }
}

/// directory trees: kinds of entries
void entry(const fs::path& d, const Str& name, size_t kind, const fs::path& outside) {
  const auto p{d / name};
  const auto sub{[&](const Str& n, size_t k) {
    fs::create_directory(p);
    entry(p, n, k, outside);
  }};
  switch (kind) {
  case 0: put(p, "あ漢\nあ"); break;
  case 1: put(p, "漢（か\nん）あ"); break;
  case 2: put(p, ""); break;
  case 3: put(d / ("漢（かな）" + name), "字"); break;
  case 4: fs::create_symlink(outside / "file", p); break;
  case 5: fs::create_directory_symlink(outside, p); break;
  case 6: fs::create_symlink("none", p); break;
  case 7:
    if (mkfifo(p.c_str(), 0644)) abort();
    break;
  case 8: fs::create_directory(p); break;
  case 9: sub("丙", 0); break;
  case 10: sub("漢（か）", 9); break;
  case 11: sub("丁", 4); break;
  case 12: sub("戊", 7); break;
  case 13:
    sub("甲0", 0); // same name as a file next to it may have
    entry(p, "己", 8, outside);
    entry(p, "庚", 1, outside);
    break;
  default: abort();
  }
}
constexpr size_t Kinds{14};

void trees(size_t max) {
  const fs::path base{vh::g().scratch + "/tree"}, outside{vh::g().scratch + "/outside"};
  fs::create_directories(outside);
  put(outside / "file", "外外");
  for (size_t a{}; a <= Kinds; ++a)
    if (vh::begin("trees starting with kind " + std::to_string(a)))
      vh::words(Kinds, a < Kinds, a < Kinds ? max : 0, [&](const auto& w) {
        if (a < Kinds && w[0] != a) return;
        fs::remove_all(base);
        const auto top{base / "木"};
        fs::create_directories(top);
        Str key{"tree"};
        for (size_t i{}; i < w.size(); ++i) {
          entry(top, "甲" + std::to_string(i), w[i], outside);
          key += " " + std::to_string(w[i]);
        }
        for (int flags{}; flags < 8; ++flags)
          for (size_t pat{}; pat < 2; ++pat) {
            if (w.size() == max && max > 3 && flags != 7 && flags != 0) continue;
            Pair p{key + " flags " + std::to_string(flags), pat};
            p.anyOrder = true;
            addFile(p, top, flags & 1, flags & 2, flags & 4);
            p.check();
            if (flags == 7 && w.size() < 3) { // other names of the same place, counted again
              addFile(p, top.string() + "/", true, true, true);
              addFile(p, top / ".", true, true, true);
              p.check();
            }
          }
      });
  // names, for a file, an empty and a full directory and a link
  const std::vector<Str> odd{".", ".漢", "..漢", "漢.", "漢 か", " 漢", "漢.txt", "~漢", "#漢#", "漢~", "-漢", "漢（か）", "（か）", "漢（か", "か）", "漢\n（か）", "侮︀（か）", "か\xe3\x82\x99", "\xff漢", "漢\\", "漢'\"", "CVS", ".git", "漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢"};
  for (auto& n : odd)
    if (vh::begin("tree with the name " + n))
      for (int kind{}; kind < 5; ++kind)
        for (auto ext : {"", ".txt", "漢"}) {
          const auto name{n + ext};
          if (name == "." || name == "..") continue;
          fs::remove_all(base);
          const auto top{kind == 4 ? base / name : base / "木"};
          fs::create_directories(top);
          switch (kind) {
          case 0: put(top / name, "字（か）\n"); break;
          case 1: fs::create_directory(top / name); break;
          case 2:
            fs::create_directory(top / name);
            put(top / name / "字", "漢");
            break;
          case 3: fs::create_symlink(outside / "file", top / name); break;
          default: put(top / "字", "漢");
          }
          for (int flags{}; flags < 8; ++flags)
            for (size_t pat{}; pat < 2; ++pat) {
              Pair p{"name " + name + " kind " + std::to_string(kind) + " flags " + std::to_string(flags), pat};
              p.anyOrder = true;
              addFile(p, top, flags & 1, flags & 2, flags & 4);
              if (!kind) addFile(p, top / name, flags & 1, flags & 2, flags & 4);
              p.check();
            }
        }
  // depth and size
  for (size_t n : {1U, 2U, 3U, 5U, 8U, 9U, 17U, 33U, 70U, 130U})
    if (vh::begin("trees of " + std::to_string(n)))
      for (int kind{}; kind < 3; ++kind) {
        fs::remove_all(base);
        auto d{base / "木"};
        fs::create_directories(d);
        for (size_t i{}; i < n; ++i) {
          if (kind == 0) {
            put(d / ("字" + std::to_string(i)), "漢（か）");
            d /= "深";
            fs::create_directory(d);
          } else if (kind == 1)
            put(d / ("字" + std::to_string(i)), i % 2 ? "漢（か）" : "か");
          else {
            fs::create_directory(d / ("字" + std::to_string(i)));
            put(d / ("字" + std::to_string(i)) / "漢", "か");
          }
        }
        for (int flags{}; flags < 8; ++flags)
          for (size_t pat{}; pat < 2; ++pat) {
            Pair p{"tree of " + std::to_string(n) + " kind " + std::to_string(kind) + " flags " + std::to_string(flags), pat};
            p.anyOrder = true;
            addFile(p, base / "木", flags & 1, flags & 2, flags & 4);
            p.check();
          }
      }
  fs::remove_all(base);
}

/// histories of calls on one object
void histories(size_t max) {
  const fs::path d{vh::g().scratch + "/hist"};
  fs::create_directories(d / "乙/丙");
  put(d / "甲", "漢（か\nん）\n\n（か）");
  put(d / "乙/丙/丁", "か漢（か）");
  put(d / "乙/戊", "\xff漢");
  fs::create_symlink("甲", d / "己");
  fs::create_directory_symlink("乙", d / "庚");
  constexpr size_t N{10};
  for (size_t pat{}; pat < 5; ++pat)
    for (size_t filter{}; filter < 3; ++filter)
      if (vh::begin("histories pattern " + std::to_string(pat) + " filter " + std::to_string(filter)))
        vh::words(N, 0, max, [&](const auto& w) {
          Str key{"history"};
          for (auto i : w) key += " " + std::to_string(i);
          Pair p{key, pat, filter};
          for (auto i : w) {
            switch (i) {
            case 0: p.add("漢（か）か"); break;
            case 1: p.add("漢（か）か", Str{"甲"}); break;
            case 2: p.add("か\xe3\x82\x99", Str{}); break;
            case 3: addFile(p, d / "甲", true, true, true); break;
            case 4: addFile(p, d / "甲", false, false, true); break;
            case 5: addFile(p, d / "乙", true, false, true); p.anyOrder = true; break;
            case 6: addFile(p, d / "乙", false, true, false); p.anyOrder = true; break;
            case 7: addFile(p, d / "己", true, true, true); break;
            case 8: addFile(p, d / "庚", true, true, true); p.anyOrder = true; break;
            case 9:
              try {
                p.real->addFile(d / "none");
                vh::fail(key, "missing file accepted");
              } catch (const std::domain_error& e) {
                vh::same(Str{e.what()}, "file not found: " + (d / "none").string(), key, "message");
              }
              break;
            }
          }
          p.check();
        });
}

/// exit status of `f` in a process of its own
template <typename F> int child(const F& f) {
  const auto pid{fork()};
  if (!pid) {
    f();
    _exit(0);
  }
  int st{};
  waitpid(pid, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}

void body() {
  const bool deep{vh::g().thorough};
  // one or several add calls
  for (size_t pat{}; pat < 2; ++pat) {
    deepWords(pat ? "adds with pattern" : "adds", Tokens, deep ? 5 : 4, [&](const Str& s) {
      Pair p{s, pat};
      p.add(s);
      p.add(s, "x");
      p.check();
    });
    for (size_t a{}; a < Tokens.size(); ++a)
      if (vh::begin("split adds starting with '" + Tokens[a] + "' pattern " + std::to_string(pat)))
        vh::words(Tokens.size(), 0, deep ? 3 : 2, [&](const auto& w) {
          std::vector<Str> v{Tokens[a]};
          for (auto i : w) v.push_back(Tokens[i]);
          for (size_t f{}; f < Filters.size(); ++f) runAdds(v, text(v, {}) + Tokens[a] + text(Tokens, w), pat, f);
        });
  }
  // bracketed text: words over the characters the pattern distinguishes
  const std::vector<Str> brackets{"漢", "か", "（", "）", "Ａ", "\xef\xb8\x80"};
  deepWords("bracketed", brackets, deep ? 8 : 7, [&](const Str& s) {
    Pair p{s, 1};
    p.add(s, "x");
    p.check();
  });
  for (size_t pat{2}; pat < 6; ++pat)
    deepWords(pattern(pat).name, {"漢", "か", "（", "）", "a", "\xff"}, deep ? 6 : 4, [&](const Str& s) {
      Pair p{s, pat, 0};
      p.add(s, "x");
      p.check();
    });
  // files
  deepWords("file", Tokens, deep ? 5 : 4, [&](const Str& s) {
    runFile(s, s, 0, 0, 3);
    runFile(s, s, 1, 0, 1);
    if (!deep) runFile(s, s, 1, 1, 0);
  });
  deepWords("lines", {"漢", "か", "（", "）", "\n"}, deep ? 8 : 7, [&](const Str& s) { runFile(s, s, 1, 0, 3); });
  // longer texts of whole lines
  deepWords("whole lines", {"漢\n", "（か）\n", "漢（か\n", "か）か\n", "\n", "（）漢（\n", "）（か）\n", "か（ん"}, deep ? 6 : 5, [&](const Str& s) { runFile(s, s, 1, 0, 1); });
  // every character in every place of the pattern, and by itself
  for (uint32_t b{}; b < 0x110000; b += 0x400)
    if (b < 0x32000 || b % 0x4000 == 0)
      if (vh::begin("characters from " + std::to_string(b))) {
        Pair whole{"characters from " + std::to_string(b)}, furi{"characters from " + std::to_string(b), 1};
        for (auto c{b}; c < b + 0x400; ++c)
          if (c && ref::scalar(c)) {
            const auto s{ref::enc(c)};
            const Str key{"U+" + [&] { char h[16]; snprintf(h, sizeof h, "%04X", c); return Str{h}; }()};
            Pair p{key, 1};
            for (auto& t : {s + "（か）", "漢（" + s + "）", "漢（か" + s + "か）", s + s, "か" + s}) p.add(t, t);
            p.check();
            for (auto* w : {&whole, &furi}) {
              w->add(s + "（か）" + s);
              w->add(s, s);
            }
          }
        whole.check();
        furi.check();
      }
  trees(deep ? 4 : 3);
  histories(deep ? 5 : 4);
  // arguments that aren't there or aren't files
  if (vh::begin("other paths")) {
    const auto& d{vh::g().scratch};
    for (auto& n : {Str{""}, d + "/none", d + "/none/", d + "/甲.txt/x"}) {
      Utf8Count c;
      try {
        c.addFile(n);
        vh::fail("path " + n, "accepted");
      } catch (const std::exception&) {
        vh::trace();
      }
    }
    Utf8Count c;
    vh::expect(!c.addFile("/dev/null") && !c.files() && !c.directories() && c.map().empty(), "device", "counted");
  }
  // a file that can only be read (without root's right to open everything)
  for (size_t pat{}; pat < 2; ++pat)
    if (vh::begin("read only " + std::to_string(pat))) {
      const auto f{vh::g().scratch + "/ro"};
      unlink(f.c_str());
      put(f, "漢（か）か\n字");
      chmod(f.c_str(), 0444);
      const auto rc{child([&] {
        __user_cap_header_struct h{_LINUX_CAPABILITY_VERSION_3, 0};
        __user_cap_data_struct none[2]{};
        if (syscall(SYS_capset, &h, none)) _exit(3);
        Utf8Count c{pattern(pat).re, pattern(pat).to};
        _exit(c.addFile(f, true, false) == (pat ? 3U : 6U) && c.files() == 1 && c.count("字") == 1 ? 0 : 1);
      })};
      vh::trace();
      vh::expect(rc == 0, "read only file", "not counted completely");
      unlink(f.c_str());
    }
  // many tags of one character
  for (size_t n : {7U, 9U, 17U, 65U, 300U, 1000U})
    if (vh::begin(std::to_string(n) + " tags"))
      for (size_t pat{}; pat < 2; ++pat)
        for (size_t rounds{1}; rounds < 4; ++rounds) {
          Pair p{std::to_string(n) + " tags pattern " + std::to_string(pat) + " rounds " + std::to_string(rounds), pat};
          for (size_t r{}; r < rounds; ++r)
            for (size_t i{}; i < n; ++i) p.add(i % 3 ? "漢（か）" : "漢か漢", (i % 2 ? "印" : "x") + std::to_string(i * 7 % n));
          p.check();
        }
  // large counts
  for (size_t n : {255U, 256U, 999U, 1000U, 32767U, 32768U, 65535U, 65536U, 100000U, 131073U})
    if (vh::begin("counts of " + std::to_string(n)))
      for (size_t pat{}; pat < 2; ++pat) {
        Str line;
        for (size_t i{}; i < 100; ++i) line += "か字";
        Pair p{"counts of " + std::to_string(n), pat};
        for (size_t i{}; i < n / 100; ++i) p.add(line, "x");
        for (size_t i{}; i < n % 100; ++i) p.add("か字");
        p.check();
      }
  // brackets at every place of two or three lines
  for (size_t len{1}; len <= 130; len += deep || len < 50 ? 1 : 9)
    if (vh::begin("brackets in lines of " + std::to_string(len)))
      for (auto fill : {"か", "漢", "x"}) {
        const auto rep{[&](size_t n) {
          Str s;
          for (size_t i{}; i < n; ++i) s += fill;
          return s;
        }};
        for (size_t i{}; i <= len; i += deep || len < 12 ? 1 : std::max<size_t>(1, len / 6))
          for (auto l : {"（か", "漢（か", "漢（", "）（"})
            for (auto& second : {rep(i) + "）" + rep(len - i), rep(i) + "）漢（か）" + rep(len - i), rep(i) + "（か）" + rep(len - i), rep(i), rep(i) + "）漢（" + rep(len - i) + "\n" + rep(i) + "）"}) {
              const auto s{rep(len - i) + l + rep(i) + "\n" + second};
              runFile(s, s, 1, 0, 1);
              runFile(s + "\n", s + "\n", 1, 0, 3);
            }
      }
  // long lines
  for (size_t n : {1000U, 10000U, 100000U})
    if (vh::begin("long lines of " + std::to_string(n))) {
      const auto rep{[&](const Str& s) {
        Str r;
        for (size_t i{}; i < n; ++i) r += s;
        return r;
      }};
      std::vector<std::pair<Str, Str>> t{{"kana", rep("か")}, {"kanji", rep("漢")}, {"open", rep("（")}, {"lines", rep("漢（か\nん）\n")}, {"unclosed", rep("漢（か\n")}};
      if (n < 100000) t.emplace_back("furigana", rep("漢（かん）"));
      t.emplace_back("one", "漢（" + rep("か") + "）");
      for (auto& [name, s] : t) {
        const auto key{"long-" + name + "-" + std::to_string(n)};
        const auto rc{child([&] {
          const rlimit stack{8U << 20, RLIM_INFINITY};
          setrlimit(RLIMIT_STACK, &stack);
          for (size_t pat{}; pat < 2; ++pat) {
            const auto f{vh::g().scratch + "/long"};
            put(f, s);
            Pair p{key, pat};
            addFile(p, f, true, false, true);
            const auto fails{vh::g().fails};
            p.check();
            if (vh::g().fails != fails) _exit(1);
          }
        })};
        vh::trace();
        vh::expect(rc == 0, key, rc > 128 ? "killed by signal " + std::to_string(rc - 128) : "wrong counts");
      }
    }
  // sample texts of the repository
  for (auto& e : fs::recursive_directory_iterator{vh::g().repo + "/tests/stats/sample-data"})
    if (e.is_regular_file())
      for (size_t pat{}; pat < 2; ++pat)
        if (vh::begin(e.path().filename().string() + " pattern " + std::to_string(pat)))
          for (size_t f{}; f < Filters.size(); ++f) {
            Pair p{e.path().filename().string(), pat, f};
            addFile(p, e.path(), true, true, true);
            p.check();
          }
}

} // namespace

int main(int argc, char** argv) { return vh::run(argc, argv, body); }
