// C29: reports of the statistics program against a report model
#include "cmp_kanji.h"
#include "ref_count.h"
#include <kt_stats/Stats.h>
#include <kt_stats/Utf8Count.h>

namespace fs = std::filesystem;
using ref::Counts, ref::Str, ref::Strs;

namespace {

Str Self; ///< directory of the binaries

const ref::Kanji& model() {
  static const ref::Kanji m{vh::g().data};
  return m;
}
struct World {
  Real real{vh::g().data};
  kt::KanjiDataPtr data{std::move(real.data)};
};
World& world() {
  static World w;
  return w;
}

// classes of characters by the documented blocks
using Range = std::pair<uint32_t, uint32_t>;
bool in(uint32_t c, const std::vector<Range>& r) {
  for (auto& [a, b] : r)
    if (c >= a && c <= b) return true;
  return false;
}
const std::vector<Range> Common{{0x3400, 0x4dbf}, {0x4e00, 0x9fff}, {0xf900, 0xfaff}, {0x20000, 0x2a6df}}, Rare{{0x2e80, 0x2eff}, {0x2a700, 0x2ebef}, {0x2f800, 0x2fa1f}, {0x30000, 0x3134f}},
    Punct{{0x2000, 0x206f}, {0x3000, 0x303f}, {0xfff0, 0xffff}},
    Symbol{{0x2100, 0x214f}, {0x2190, 0x22ff}, {0x2500, 0x257f}, {0x25a0, 0x26ff}, {0x2ff0, 0x2fff}, {0x3190, 0x319f}, {0x31c0, 0x31ef}},
    Letter{{0x80, 0x24f}, {0x2150, 0x218f}, {0x2460, 0x24ff}, {0x2c60, 0x2c7f}, {0xff00, 0xffef}};
enum Class { Hiragana, Katakana, CommonKanji, RareKanji, NonUcd, Punctuation, Symbols, Letters, Unrecognized, NoClass };
const char* const ClassName[]{"Hiragana", "Katakana", "Common Kanji", "Rare Kanji", "Non-UCD Kanji", "MB-Punctuation", "MB-Symbol", "MB-Letter", "Unrecognized"};
Class classOf(const Str& s) {
  static std::map<Str, Class> cache;
  const auto i{cache.find(s)};
  if (i != cache.end()) return i->second;
  const auto c{ref::dec(s)[0]};
  const auto x{[&] {
    if (c >= 0x3040 && c <= 0x309f) return Hiragana;
    if (in(c, {{0x30a0, 0x30ff}, {0x31f0, 0x31ff}})) return Katakana;
    if (in(c, Common)) return model().findUcd(s) ? CommonKanji : NonUcd;
    if (in(c, Rare)) return model().findUcd(s) ? RareKanji : NonUcd;
    if (c == 0x3000) return NoClass; // wide space
    return in(c, Punct) ? Punctuation : in(c, Symbol) ? Symbols : in(c, Letter) ? Letters : Unrecognized;
  }()};
  return cache[s] = x;
}

const Strs Types{"Jouyou", "Jinmei", "LinkedJinmei", "LinkedOld", "Frequency", "Extra", "Kentei", "Ucd", "None"};
struct Entry {
  size_t count;
  unsigned freq;
  size_t type;
  Str name;
  const ref::K* k;
  [[nodiscard]] auto key() const { return std::tuple{~count, freq, type, name}; }
};

template <typename... T> Str fmt(const char* f, T... t) {
  char b[512];
  snprintf(b, sizeof b, f, t...);
  return b;
}
Str right(const Str& s, size_t w) { return s.size() < w ? Str(w - s.size(), ' ') + s : s; }
double percent(size_t n, size_t of) { return static_cast<double>(n) * 100. / static_cast<double>(of); }

struct Expect {
  Str text;
  bool open{}; ///< number of errors not specified
};

Expect report(const Str& top, bool breakdown, bool verbose) {
  Expect r;
  Str header;
  size_t all{}, kanji{}, total[9]{};
  Str body;
  const auto line{[](const Str& name, size_t n, size_t unique) { return ">>> " + right(name, 16) + ": " + right(std::to_string(n), 6) + ", unique: " + right(std::to_string(unique), 4); }};
  for (int c{}; c < 9; ++c) {
    Counts m;
    m.allow = [c](const Str& s) { return classOf(s) == c; };
    const bool isKanji{c >= CommonKanji && c <= NonUcd};
    if (c == Hiragana || c == Katakana || c == Letters) m.replace = ref::removeFurigana;
    ref::modelAdd(m, top, true, true, true);
    if (c == Hiragana) {
      r.open = m.open;
      if (verbose) body += ">>> Showing all Furigana replacements:\n" + m.log;
      auto name{top};
      while (!name.empty() && name.back() == '/') name.pop_back();
      body += ">>> Stats for: '" + name.substr(name.rfind('/') + 1) + "'";
      if (m.files > 1) {
        body += " (" + std::to_string(m.files) + " files";
        if (m.dirs > 1) body += " from " + std::to_string(m.dirs) + " directories";
        body += ")";
      }
      body += " - showing top 5 Kanji per type";
      if (m.replacements || m.marks || m.variants) body += "\n>>> Furigana Removed: " + std::to_string(m.replacements) + ", Combining Marks Replaced: " + std::to_string(m.marks) + ", Variation Selectors: " + std::to_string(m.variants);
      if (m.errors) body += ", Errors: " + std::to_string(m.errors);
      body += "\n";
    }
    if (!m.total) continue;
    total[c] = m.total;
    std::vector<Entry> e;
    for (auto& [name, n] : m.map) {
      const auto* k{isKanji ? model().find(name) : nullptr};
      const auto none{static_cast<unsigned>(model().freq.size()) + 1};
      e.push_back({n, k ? k->freq ? k->freq : none : none + 1, k ? static_cast<size_t>(std::find(Types.begin(), Types.end(), k->type) - Types.begin()) : Types.size() - 1, name, k});
    }
    std::sort(e.begin(), e.end(), [](auto& a, auto& b) { return a.key() < b.key(); });
    body += line(ClassName[c], m.total, e.size());
    if (c == CommonKanji) {
      body += ", 100.00%\n";
      for (size_t t{}; t < Types.size(); ++t) {
        size_t n{}, unique{};
        Str top5;
        for (auto& x : e)
          if (x.type == t) {
            n += x.count;
            if (unique++ < 5) top5 += (unique > 1 ? ", " : "") + x.name + " " + std::to_string(x.count);
          }
        if (n) body += line("[" + Types[t] + "] ", n, unique) + fmt(", %6.2f%%  (", percent(n, m.total)) + top5 + ")\n";
      }
    } else if (isKanji) {
      body += Str(11, ' ') + "(";
      for (size_t i{}; i < e.size() && i < 5; ++i) body += (i ? ", " : "") + e[i].name + " " + std::to_string(e[i].count);
      body += ")\n";
    } else
      body += "\n";
    if (c != Unrecognized && !(isKanji && breakdown)) continue;
    body += Str{">>> Showing Breakdown for '"} + ClassName[c] + "':\n  Rank  [Val Num]" + (c == CommonKanji || c == RareKanji ? " Freq, LV, Type" : ", Unicode, Highest Count File") + "\n";
    for (size_t i{}; i < e.size(); ++i) {
      const auto& x{e[i]};
      body += "  ";
      if (breakdown) {
        auto n{std::to_string(i + 1)};
        while (n.size() < 5) n += " ";
        body += n + " ";
      }
      body += "[" + x.name + " " + right(std::to_string(x.count), 4) + "]";
      if (x.k)
        body += right(std::to_string(x.k->freq), 5) + ", " + (x.k->level.empty() ? "--" : x.k->level) + ", " + x.k->type;
      else {
        Str u;
        for (auto d : ref::dec(x.name)) u += (u.empty() ? "U+" : " ") + fmt("%04X", static_cast<unsigned>(d));
        Str file;
        size_t best{};
        for (auto& [f, n] : m.tags.at(x.name))
          if (n > best) {
            best = n;
            file = f;
          }
        body += ", " + right(u, 7) + ", " + file;
      }
      body += "\n";
    }
  }
  for (int c{}; c <= NonUcd; ++c) all += total[c];
  kanji = total[CommonKanji] + total[RareKanji] + total[NonUcd];
  body += ">>> Total Kana+Kanji: " + std::to_string(all);
  if (all) {
    body += " (";
    for (int c{}; c <= Katakana; ++c)
      if (total[c]) body += ClassName[c] + fmt(": %.1f%%, ", percent(total[c], all));
    body += fmt("Kanji: %.1f%%)", percent(kanji, all));
  }
  r.text = body + "\n";
  return r;
}

struct Got {
  Str out, error;
};
Got stats(const Strs& args) {
  std::vector<const char*> argv{""};
  for (auto& a : args) argv.push_back(a.c_str());
  auto& w{world()};
  w.real.out.str("");
  w.real.err.str("");
  Got g;
  try {
    kt::Stats s{kt::Args{static_cast<int>(argv.size()), argv.data()}, w.data};
  } catch (const std::domain_error& e) {
    g.error = e.what();
  } catch (const std::exception& e) {
    g.error = Str{"unexpected exception "} + e.what();
  }
  g.out = w.real.out.str() + w.real.err.str();
  return g;
}

Str dropErrors(Str s) {
  for (size_t p; (p = s.find(", Errors: ")) != Str::npos;) {
    auto e{p + 10};
    while (e < s.size() && isdigit(s[e])) ++e;
    s.erase(p, e - p);
  }
  return s;
}
/// without the changed lines shown by '-v' (their order depends on the file system)
Str dropChanges(const Str& s) {
  const Str head{">>> Showing all Furigana replacements:\n"};
  const auto a{s.find(head)}, b{s.find(">>> Stats for")};
  return a == Str::npos || b == Str::npos ? s : s.substr(0, a + head.size()) + s.substr(b);
}

Str difference(const Str& got, const Str& want) {
  const auto g{ref::split(got, '\n')}, w{ref::split(want, '\n')};
  size_t i{};
  while (i < g.size() && i < w.size() && g[i] == w[i]) ++i;
  return "line " + std::to_string(i + 1) + " is '" + (i < g.size() ? g[i] : "(none)") + "', expected '" + (i < w.size() ? w[i] : "(none)") + "'";
}

void compare(const Got& g, Expect want, const Str& key, bool manyFiles = false) {
  auto got{g.out};
  if (manyFiles) {
    got = dropChanges(got);
    want.text = dropChanges(want.text);
  }
  if (want.open) {
    got = dropErrors(got);
    want.text = dropErrors(want.text);
  }
  vh::trace();
  vh::step(ref::split(want.text, '\n').size());
  vh::state(want.text);
  vh::outcome(std::to_string(want.text.size()));
  vh::sample([&] { return key + " -> " + want.text.substr(0, 600); });
  vh::same(g.error, Str{}, key, "error");
  if (got != want.text) vh::fail(key, difference(got, want.text));
}

void put(const fs::path& f, const Str& text) {
  FILE* o{fopen(f.c_str(), "wb")};
  if (!o || fwrite(text.data(), 1, text.size(), o) != text.size()) abort();
  fclose(o);
}

void runText(const Str& text, const Str& key, int options = 3) {
  const auto f{vh::g().scratch + "/t.txt"};
  put(f, text);
  Strs args;
  if (options & 1) args.emplace_back("-b");
  if (options & 2) args.emplace_back("-v");
  args.push_back(f);
  compare(stats(args), report(f, options & 1, options & 2), key + " options " + std::to_string(options));
}

Str nth(const Str& type, size_t n, bool withFreq) {
  for (auto& k : model().types.at(type))
    if ((model().find(k)->freq != 0) == withFreq && classOf(k) == CommonKanji && !n--) return k;
  for (auto& k : model().types.at(type))
    if (!n--) return k;
  return model().types.at(type)[0];
}
Str nonUcd(uint32_t from, size_t n) {
  for (auto c{from};; ++c)
    if (!model().findUcd(ref::enc(c)) && !n--) return ref::enc(c);
}
Str rareUcd(size_t n) {
  for (auto& [name, u] : model().ucd)
    if (in(u.code, Rare) && !n--) return name;
  return nonUcd(0x2a700, n);
}

void body() {
  const bool deep{vh::g().thorough};
  const auto jouyou{nth("Jouyou", 0, true)}, jinmei{nth("Jinmei", 0, true)}, ucd{nth("Ucd", 0, false)};
  // texts
  const Strs tok{"あ", "ア", jouyou, jinmei, nonUcd(0x3400, 0), rareUcd(0), "、", "☆", "Ａ", "😀", "か\xe3\x82\x99", "\xff", "（か）", "\n", "　", jouyou + "\xef\xb8\x80", "い", "\xe3\x82\x99"};
  for (size_t a{}; a < tok.size(); ++a)
    for (size_t b{}; b < tok.size(); ++b)
      if (vh::begin("texts starting with '" + tok[a] + tok[b] + "'")) {
        for (int o{}; o < 4; ++o) {
          if (!b) runText(tok[a], tok[a], o);
          if (!a && !b) runText("", "empty", o);
        }
        vh::words(tok.size(), 0, deep ? 3 : 2, [&](const auto& w) {
          Str t{tok[a] + tok[b]};
          for (auto i : w) t += tok[i];
          if (w.size() < 2)
            for (int o{}; o < 4; ++o) runText(t, t, o);
          else
            runText(t, t, static_cast<int>((w[0] + w[1]) % 2) * 2 + 1);
        });
      }
  // counts of Kanji of every type (with and without frequency): every vector of counts
  {
    Strs k;
    for (auto& t : Types)
      if (t != "None") k.push_back(nth(t, 0, t != "Ucd" && t != "Extra" && t != "Kentei"));
    k.push_back(nth("Jouyou", 1, true));
    k.push_back(nth("Ucd", 1, false));
    const size_t n{deep ? k.size() : 8};
    for (size_t a{}; a < 9; ++a)
      if (vh::begin("counts of types " + std::to_string(a)))
        vh::words(3, n - 2, n - 2, [&](const auto& w) {
          Str t;
          const auto rep{[&](size_t i, size_t c) {
            while (c--) t += k[i];
          }};
          rep(0, a % 3);
          rep(1, a / 3);
          for (size_t i{}; i < w.size(); ++i) rep(i + 2, w[i]);
          runText(t, t, 1);
        });
    // one type: order and the limit of examples
    for (auto& type : {Str{"Jouyou"}, Str{"Jinmei"}, Str{"Ucd"}, Str{"Kentei"}, Str{"rare"}, Str{"non-UCD"}, Str{"Unrecognized"}}) {
      Strs x;
      for (size_t i{}; i < 7; ++i) x.push_back(type == "rare" ? rareUcd(6 - i) : type == "non-UCD" ? nonUcd(i % 2 ? 0x3400 : 0x2b000, i) : type == "Unrecognized" ? ref::enc(static_cast<uint32_t>(0x1f606 - i)) : nth(type, 6 - i, i % 2));
      for (size_t a{}; a < 3; ++a)
        if (vh::begin("seven of " + type + " " + std::to_string(a)))
          vh::words(3, 6, 6, [&](const auto& w) {
            if (!deep && w[5] == 1 && w[4] == 1) return;
            Str t;
            const auto rep{[&](size_t i, size_t c) {
              while (c--) t += x[i];
            }};
            rep(0, a);
            for (size_t i{}; i < w.size(); ++i) rep(i + 1, w[i]);
            runText(t, t, static_cast<int>(w[0] % 2));
          });
    }
  }
  // number widths and rounding: counts of two and three classes
  for (size_t a{}; a < 4; ++a)
    if (vh::begin("widths " + std::to_string(a))) {
      static const size_t c[]{0, 1, 2, 9, 10, 99, 100, 999, 1000, 9999, 10000, 99999, 100000};
      const Strs x{"あ", "ア", jouyou, jinmei, "😀"};
      for (auto n : c)
        for (auto m : c) {
          if (n + m > 11000 && n * m && !deep) continue;
          Str t;
          for (size_t i{}; i < n; ++i) t += x[a] + (i % 100 ? "" : "\n");
          for (size_t i{}; i < m; ++i) t += x[(a + 1) % x.size()] + (i % 100 ? "" : "\n");
          runText(t, x[a] + std::to_string(n) + "," + std::to_string(m), static_cast<int>(n % 2));
        }
      for (size_t n{}; n < (deep ? 200 : 60); ++n)
        for (size_t m{a}; m < (deep ? 200 : 60); m += 4) {
          Str t{n ? "" : "x"};
          for (size_t i{}; i < n; ++i) t += x[a];
          for (size_t i{}; i < m; ++i) t += x[(a + 1) % x.size()];
          runText(t, x[a] + std::to_string(n) + "," + std::to_string(m), 0);
        }
    }
  // every loaded Kanji and every character of the blocks at once
  if (vh::begin("all Kanji")) {
    Str t, v;
    size_t n{};
    for (auto& k : model().all)
      for (size_t c{}; c <= ++n % 7; ++c) {
        t += k.name + (c ? "" : "\n");
        if (k.variant) v += k.compat;
      }
    for (int o{}; o < 4; ++o) {
      runText(t, "all Kanji", o);
      runText(v + t + v, "all Kanji with compatibility names", o);
    }
  }
  for (uint32_t b{}; b < 0x110000; b += 0x400)
    if (b < 0x32000 || b % 0x4000 == 0)
      if (vh::begin("characters from " + std::to_string(b))) {
        Str t, u;
        for (auto c{b}; c < b + 0x400; ++c)
          if (c && ref::scalar(c)) {
            t += ref::enc(c) + (c % 64 ? "" : "\n");
            u += ref::enc(c) + "\xef\xb8\x81" + (c % 3 ? ref::enc(c) : "") + "か";
          }
        runText(t, "characters " + std::to_string(b), 1);
        runText(u, "characters with selectors " + std::to_string(b), 1);
        runText(t, "characters " + std::to_string(b), 0);
      }
  // directories
  const Strs fileTexts{"", "😀" + nonUcd(0x3400, 0), "😀😀\n" + nonUcd(0x3400, 1) + jouyou + "（か）", nonUcd(0x3400, 0) + "あア\xff"};
  const fs::path top{vh::g().scratch + "/木"};
  for (size_t a{}; a < 4; ++a)
    for (size_t b{}; b < 4; ++b)
      if (vh::begin("directories " + std::to_string(a) + std::to_string(b)))
        for (size_t c{}; c < 4; ++c)
          for (size_t shape{}; shape < 6; ++shape) {
            fs::remove_all(top);
            fs::create_directories(top / "子" / "孫");
            const fs::path p[]{top, top / "子", top / "子/孫"};
            put(p[shape % 3] / "二", fileTexts[a]);
            put(p[shape / 2] / "一（か）", fileTexts[b]);
            put(p[shape % 2] / "二二", fileTexts[c]);
            fs::create_symlink("二", top / "字");
            fs::create_directory_symlink("子", top / "漢");
            const auto key{"dir " + std::to_string(a) + std::to_string(b) + std::to_string(c) + " shape " + std::to_string(shape)};
            for (int o{}; o < 4; ++o) {
              Strs args{top.string() + (c % 2 ? "/" : "")};
              if (o & 1) args.emplace_back("-b");
              if (o & 2) args.emplace_back("-v");
              compare(stats(args), report(args[0], o & 1, o & 2), key + " options " + std::to_string(o), true);
            }
            if (!c) compare(stats({(top / "漢").string()}), report((top / "漢").string(), false, false), key + " link", true);
          }
  // large directories: characters in many files with every kind of order of their counts
  for (size_t n : {4U, 5U, 9U, 17U, 40U, 120U, 300U})
    if (vh::begin("directory of " + std::to_string(n)))
      for (int order{}; order < 5; ++order)
        for (int nested{}; nested < 2; ++nested) {
          fs::remove_all(top);
          fs::create_directories(top);
          auto d{top};
          for (size_t i{}; i < n; ++i) {
            const size_t c{order == 0 ? i + 1 : order == 1 ? n - i : order == 2 ? 1 : order == 3 ? (i == n / 2 ? 3U : 1U) : (i * 7) % 5 + 1};
            Str t;
            for (size_t j{}; j < c; ++j) t += "😀" + nonUcd(0x3400, 0) + (j % 3 ? "" : "漢（か）\n");
            put(d / ("文" + std::to_string(i * 37 % n)), t + ref::enc(static_cast<uint32_t>(0x1f601 + i)));
            if (nested && i % 16 == 3) {
              d /= "子";
              fs::create_directory(d);
            }
          }
          for (int o{}; o < 4; ++o) {
            Strs args{top.string()};
            if (o & 1) args.emplace_back("-b");
            if (o & 2) args.emplace_back("-v");
            compare(stats(args), report(args[0], o & 1, o & 2), "directory of " + std::to_string(n) + " order " + std::to_string(order) + " nested " + std::to_string(nested) + " options " + std::to_string(o), true);
          }
        }
  fs::remove_all(top);
  // many files, the options at every place
  for (size_t n : {1U, 2U, 5U, 6U, 10U, 30U, 70U})
    if (vh::begin(std::to_string(n) + " files")) {
      const auto f{vh::g().scratch + "/一二"}, g{vh::g().scratch + "/三"};
      put(f, "漢（か）あ" + ucd + "\n");
      put(g, "東ア😀");
      for (int o{}; o < 4; ++o) {
        const auto a{report(f, o & 1, o & 2).text}, b{report(g, o & 1, o & 2).text};
        for (size_t at{}; at <= n; at += n < 20 ? 1 : n)
          for (int where{}; where < 3; ++where) {
            if (!o && (at || where)) continue;
            Strs args;
            Str want;
            for (size_t i{}; i <= n; ++i) {
              if (i == at && o & 1) args.emplace_back("-b");
              if (i == (where == 0 ? at : where == 1 ? 0 : n) && o & 2) args.emplace_back("-v");
              if (i == n) break;
              args.push_back(i % 3 ? g : f);
              want += i % 3 ? b : a;
            }
            const auto r{stats(args)};
            const auto key{std::to_string(n) + " files options " + std::to_string(o) + " at " + std::to_string(at) + "," + std::to_string(where)};
            vh::trace();
            vh::step(n);
            vh::state(key);
            vh::same(r.error, Str{}, key, "error");
            if (r.out != want) vh::fail(key, difference(r.out, want));
          }
      }
    }
  // argument lists
  const auto f1{vh::g().scratch + "/一.txt"}, f2{vh::g().scratch + "/-b"};
  put(f1, "漢（か）あ" + ucd + "\n");
  put(f2, "東ア😀");
  const Strs words{"-b", "-v", "-h", "--", "-x", "-", "", "-bv", "--help", f1, f2, vh::g().scratch + "/none", "/dev/null", "-b "};
  for (size_t a{}; a <= words.size(); ++a)
    if (vh::begin("arguments starting with " + (a < words.size() ? words[a] : Str{"(none)"})))
      vh::words(words.size(), a < words.size(), a < words.size() ? (deep ? 5 : 4) : 0, [&](const auto& w) {
        if (!w.empty() && w[0] != a) return;
        // longest ones over the main options and files only
        if (w.size() > 3)
          for (auto i : w)
            if (i > 10 || (i > 3 && i < 9)) return;
        Strs args, files;
        for (auto i : w) args.push_back(words[i]);
        Str key{"args"};
        for (auto& x : args) key += " '" + x + "'";
        bool b{}, v{}, end{}, help{};
        Str bad;
        for (auto& x : args)
          if (!end && !x.empty() && x[0] == '-') {
            if (x == "-h") {
              help = true;
              break;
            }
            if (x == "-b")
              b = true;
            else if (x == "-v")
              v = true;
            else if (x == "--")
              end = true;
            else {
              bad = x;
              break;
            }
          } else
            files.push_back(x);
        const auto g{stats(args)};
        static const Str Help{"kanjiStats [-bhv] file [file ...]:\n  -b: show full Kanji breakdown for 'file' (instead of just a summary)\n  -h: show help message for command-line options\n"
                              "  -v: show 'before' and 'after' versions of lines changed by Furigana removal\n"};
        if (help)
          return compare(g, {Help}, key);
        vh::trace();
        if (!bad.empty()) {
          vh::same(g.error, "illegal option '" + bad + "' use -h for help", key, "error");
          vh::same(g.out, Str{}, key, "output before a refused option");
          return;
        }
        if (files.empty()) {
          vh::same(g.error, Str{"please specify at least one option or '-h' for help"}, key, "error");
          vh::same(g.out, Str{}, key, "output");
          return;
        }
        Str want, error;
        for (auto& f : files) {
          if (!fs::exists(f)) {
            error = "file not found: " + f;
            break;
          }
          want += report(f, b, v).text;
        }
        vh::state(want + error);
        vh::step();
        vh::same(g.error, error, key, "error");
        if (g.out != want) vh::fail(key, difference(g.out, want));
      });
  // order of entries: a strict weak order agreeing with the sort keys
  {
    std::vector<Entry> e;
    std::vector<kt::Stats::Count> c;
    const auto none{static_cast<unsigned>(model().freq.size()) + 1};
    std::vector<std::pair<Str, const ref::K*>> ks{{"㐀", nullptr}, {"亜", nullptr}, {"", nullptr}, {"😀", nullptr}};
    for (auto& t : Types)
      for (auto withFreq : {true, false})
        if (t != "None")
        for (size_t i{}; i < 2; ++i) {
          const auto n{nth(t, i, withFreq)};
          ks.emplace_back(n, model().find(n));
          if (!i) ks.emplace_back("x", model().find(n)); // same Kanji, other name
        }
    for (auto& [name, k] : ks)
      for (size_t n : {0UL, 1UL, 2UL, 1000000UL, ~0UL}) {
        e.push_back({n, k ? k->freq ? k->freq : none : none + 1, k ? static_cast<size_t>(std::find(Types.begin(), Types.end(), k->type) - Types.begin()) : Types.size() - 1, name, k});
        c.emplace_back(n, name, k ? world().data->findByName(k->name) : kt::KanjiPtr{});
      }
    for (size_t i{}; i < e.size(); ++i)
      if (vh::begin("order of entry " + std::to_string(i))) {
        const auto key{"entry " + std::to_string(e[i].count) + " " + e[i].name};
        vh::same(c[i].count(), e[i].count, key, "count");
        vh::same(c[i].name(), e[i].name, key, "name");
        vh::same(unsigned{c[i].frequency()}, e[i].freq, key, "frequency");
        vh::same(kt::hasValue(c[i].type()) ? Str{kt::toString(c[i].type())} : Str{}, e[i].k ? e[i].k->type : Str{}, key, "type");
        vh::state(key);
        for (size_t j{}; j < e.size(); ++j) {
          vh::step();
          vh::trace();
          if ((c[i] < c[j]) != (e[i].key() < e[j].key())) vh::fail(key + " and " + std::to_string(e[j].count) + " " + e[j].name, "wrong order");
        }
        // laws on the real operator alone
        for (size_t j{}; j < e.size(); ++j)
          if (c[i] < c[j]) {
            vh::expect(!(c[j] < c[i]), key, "not asymmetric");
            for (size_t k{i % 3}; k < e.size(); k += 3)
              if (c[j] < c[k]) vh::expect(c[i] < c[k], key, "not transitive");
          }
      }
  }
  // sample texts of the repository and the program itself
  std::vector<fs::path> samples;
  for (auto& x : fs::recursive_directory_iterator{vh::g().repo + "/tests/stats/sample-data"}) samples.push_back(x.path());
  std::sort(samples.begin(), samples.end());
  samples.push_back(vh::g().repo + "/tests/stats/sample-data");
  for (auto& x : samples)
    if (vh::begin("sample " + x.filename().string()))
      for (int o{}; o < 4; ++o) {
        if (!deep && o && fs::is_directory(x)) continue;
        Strs args{x.string()};
        if (o & 1) args.emplace_back("-b");
        if (o & 2) args.emplace_back("-v");
        compare(stats(args), report(args[0], o & 1, o & 2), "sample " + x.filename().string() + " options " + std::to_string(o), true);
      }
  if (vh::begin("program"))
    for (auto& a : std::vector<Strs>{{f1}, {"-b", f1, f2}, {"-x"}, {}, {"-h"}, {vh::g().scratch + "/none"}}) {
      const auto out{vh::g().scratch + "/prog"};
      const auto pid{fork()};
      if (!pid) {
        for (auto [n, e] : {std::pair{1, ".out"}, {2, ".err"}}) dup2(open((out + e).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), n);
        std::vector<char*> argv{const_cast<char*>("kanjiStats"), const_cast<char*>("-data"), vh::g().data.data()};
        for (auto& x : a) argv.push_back(const_cast<char*>(x.c_str()));
        argv.push_back(nullptr);
        execv((Self + "/app").c_str(), argv.data());
        _exit(127);
      }
      int st{};
      waitpid(pid, &st, 0);
      const auto slurp{[](const Str& f) {
        std::ostringstream o;
        o << std::ifstream{f, std::ios::binary}.rdbuf();
        return o.str();
      }};
      const auto g{stats(a)};
      Str key{"program"};
      for (auto& x : a) key += " " + x;
      vh::trace();
      vh::same(slurp(out + ".out"), g.out, key, "standard output");
      vh::same(slurp(out + ".err"), g.error.empty() ? Str{} : g.error + "\n", key, "standard error");
      vh::same(WIFEXITED(st) ? WEXITSTATUS(st) : 128, g.error.empty() ? 0 : 1, key, "exit status");
    }
}

} // namespace

int main(int argc, char** argv) {
  Self = argv[0];
  Self.resize(Self.rfind('/'));
  return vh::run(argc, argv, body);
}
