// C34: the reports about the data (-info and -debug) and about its mistakes
#include "mini.h"
#include "ref_char.h"
#include <algorithm>
#include <kt_quiz/GroupData.h>
#include <kt_quiz/JukugoData.h>

using ref::Strs;

namespace {

const Strs Types{"Jouyou", "Jinmei", "LinkedJinmei", "LinkedOld", "Frequency", "Extra", "Kentei", "Ucd"};
const Strs Levels5{"N5", "N4", "N3", "N2", "N1"}, Kyus12{"K10", "K9", "K8", "K7", "K6", "K5", "K4", "K3", "KJ2", "K2", "KJ1", "K1"}, Grades{"G1", "G2", "G3", "G4", "G5", "G6", "S"};

Str num(size_t n) { return std::to_string(n); }
Str square(const Str& s) {
  Str r{"["};
  for (auto c : ref::dec(s)) {
    char b[16];
    snprintf(b, sizeof b, "%04X", static_cast<unsigned>(c));
    r += (r.size() > 1 ? " " : "") + Str{b};
  }
  return r + "]";
}
/// lines without what is only layout (alignment and padding)
Strs layout(const Str& text) {
  Strs r;
  for (auto l : ref::split(text, '\n')) {
    for (size_t p; (p = l.find("\u3000")) != Str::npos;) l.replace(p, 3, " ");
    Str o;
    for (char c : l) {
      const bool tight{!o.empty() && strchr("([:)]", o.back())};
      if (c == ' ') {
        if (!o.empty() && o.back() != ' ' && !tight) o += c;
      } else {
        if (strchr("([:)]", c) && !o.empty() && o.back() == ' ') o.pop_back();
        o += c;
      }
    }
    while (!o.empty() && o.back() == ' ') o.pop_back();
    r.push_back(o);
  }
  return r;
}
bool compare(const Str& got, const Str& want, const Str& key) {
  const auto g{layout(got)}, w{layout(want)};
  vh::step(w.size());
  bool ok{true};
  for (size_t i{}; i < std::max(g.size(), w.size()); ++i) {
    const auto& x{i < g.size() ? g[i] : "(none)"};
    const auto& y{i < w.size() ? w[i] : "(none)"};
    vh::outcome(y);
    if (x == y) continue;
    size_t d{};
    while (d < x.size() && d < y.size() && x[d] == y[d]) ++d;
    d = d > 40 ? d - 40 : 0;
    vh::fail(key + " line " + y.substr(0, 30), "line " + num(i + 1) + " is '" + x.substr(d, 300) + "', expected '" + y.substr(d, 300) + "'");
    ok = false;
    if (g.size() != w.size()) break;
  }
  return ok;
}

struct Model {
  const ref::Kanji& m;
  Str o;

  using Pred = std::function<bool(const ref::K&)>;
  [[nodiscard]] size_t count(const Str& type, const Pred& p) const {
    size_t n{};
    if (const auto i{m.types.find(type)}; i != m.types.end())
      for (auto& k : i->second) n += p(*m.names.at(k));
    return n;
  }
  [[nodiscard]] const Strs& type(const Str& t) const {
    static const Strs none;
    const auto i{m.types.find(t)};
    return i == m.types.end() ? none : i->second;
  }
  void line(const Str& s) { o += ">>> " + s + "\n"; }
  void found(const Strs& l, const Str& what, const Str& where) {
    if (l.empty()) return;
    Str s{"Found " + num(l.size()) + " " + what + " in " + where + ":"};
    for (auto& i : l) s += " " + i;
    line(s);
  }

  void lists() {
    for (auto& l : Levels5) {
      Strs jinmei;
      for (auto& i : m.levels.at(l))
        if (m.find(i)->type == "Jinmei") jinmei.push_back(i);
      found(jinmei, "Jinmei", l);
    }
    const auto of{[&](const Str& t, int jlpt) {
      Strs r;
      for (auto& i : m.freq)
        if (m.find(i)->type == t && (jlpt < 0 || jlpt == m.levelOf.contains(i))) r.push_back(i);
      return r;
    }};
    const Str f{"Frequency"};
    found(of("LinkedOld", -1), "Linked Old", f);
    found(of("Frequency", -1), "non-Jouyou/Jinmei/JLPT", f);
    found(of("Jinmei", 1), "JLPT Jinmei", f);
    found(of("Jinmei", 0), "non-JLPT Jinmei", f);
    found(of("LinkedJinmei", 1), "JLPT Linked Jinmei", f);
    found(of("LinkedJinmei", 0), "non-JLPT Linked Jinmei", f);
    for (auto& t : Types) {
      Strs d;
      for (auto& i : type(t))
        if (const auto* u{m.findUcd(i)}; u && u->strokes != m.names.at(i)->strokes) d.push_back(i);
      found(d, t + " Kanji with different strokes", "_ucd");
    }
  }
  void stat(const Str& what, const Pred& p, size_t examples = 0) {
    size_t total{};
    Str s;
    for (auto& t : Types) {
      const auto n{count(t, p)};
      if (!n) continue;
      total += n;
      s += (s.empty() ? "" : ", ") + t + " " + num(n);
      size_t e{};
      for (auto& i : type(t))
        if (e < examples && p(*m.names.at(i))) {
          s += " " + i;
          ++e;
        }
    }
    if (total) line(what + " " + num(total) + " (" + s + ")");
  }
  void counts(bool full) {
    Str s{"Loaded " + num(m.all.size()) + " Kanji ("};
    for (auto& t : Types) s += (&t == &Types[0] ? "" : " ") + t + " " + num(type(t).size());
    line(s + ")");
    if (!full) return;
    stat("Has JLPT level", [](auto& k) { return !k.level.empty(); });
    stat("Has frequency and not in Jouyou or JLPT", [](auto& k) { return k.freq && k.type != "Jouyou" && k.level.empty(); });
    stat("Jinmei with no frequency and not JLPT", [](auto& k) { return k.type == "Jinmei" && !k.freq && k.level.empty(); });
    stat("NF (no-frequency)", [](auto& k) { return !k.freq; });
    stat("Has Variant Strokes", [](auto& k) { return k.vstrokes != 0; });
    stat("Has Variation Selectors", [](auto& k) { return k.variant; }, 5);
    stat("Old Forms", [](auto& k) { return !k.oldNames.empty(); });
  }
  void grades() {
    line("Grade breakdown:");
    size_t all{};
    for (auto& g : Grades) {
      const auto n{count("Jouyou", [&](auto& k) { return k.grade == g; })};
      if (!n) continue;
      all += n;
      Str s{"Total for grade " + g + ": " + num(n)}, l;
      if (const auto nf{count("Jouyou", [&](auto& k) { return k.grade == g && !k.freq; })}; nf) s += " (nf " + num(nf) + ")";
      auto levels{Levels5};
      levels.push_back("");
      for (auto& x : levels)
        if (const auto c{count("Jouyou", [&](auto& k) { return k.grade == g && k.level == x; })}; c) l += (l.empty() ? "" : ", ") + (x.empty() ? "None" : x) + " " + num(c);
      line(s + " (" + l + ")");
    }
    line("Total for all grades: " + num(all));
  }
  void breakdown(const Str& name, Strs values, Str ref::K::* field, bool nf) {
    line(name + " breakdown:");
    size_t all{};
    values.push_back("");
    for (auto& v : values) {
      size_t total{};
      Str s;
      for (auto& t : Types) {
        const auto n{count(t, [&](auto& k) { return k.*field == v; })};
        if (!n) continue;
        total += n;
        s += (s.empty() ? "" : ", ") + t + " " + num(n);
        if (const auto x{count(t, [&](auto& k) { return k.*field == v && !k.freq; })}; nf && x) s += " nf " + num(x);
      }
      all += total;
      if (total) line("Total for " + name + " " + (v.empty() ? "None" : v) + ": " + num(total) + " (" + s + ")");
    }
    line("Total for all " + name + "s: " + num(all));
  }
  static bool common(const Str& s) {
    const auto c{ref::dec(s)[0]};
    return (c >= 0x3400 && c <= 0x4dbf) || (c >= 0x4e00 && c <= 0x9fff) || (c >= 0xf900 && c <= 0xfaff) || (c >= 0x20000 && c <= 0x2a6df);
  }
  [[nodiscard]] Str radical(unsigned n) const {
    char b[8];
    snprintf(b, sizeof b, "[%03u]", n);
    return b + Str{" "} + m.rads.at(n - 1).name;
  }
  /// by strokes, frequency and code
  static bool less(const ref::K* a, const ref::K* b) {
    const auto key{[](const ref::K* k) { return std::tuple{k->strokes, k->vstrokes, k->freq ? k->freq : 65535U, square(k->compat)}; }};
    return key(a) < key(b);
  }
  void radicals() {
    Str s{"Common Kanji Radicals ("};
    for (auto& t : Types) s += (&t == &Types[0] ? "" : " ") + t;
    line(s + "):");
    std::map<unsigned, std::vector<const ref::K*>> r;
    for (auto& k : m.all)
      if (common(k.name)) r[k.radical].push_back(&k);
    std::map<Str, size_t> total;
    size_t all{};
    for (auto& [n, l] : r) {
      std::sort(l.begin(), l.end(), less);
      std::map<Str, size_t> c;
      for (auto* k : l) {
        ++c[k->type];
        ++total[k->type];
        ++all;
      }
      o += radical(n) + ": " + num(l.size()) + " (";
      for (auto& t : Types) o += " " + num(c[t]);
      o += ") :";
      for (size_t i{}; i < l.size() && i < 12; ++i) o += " " + l[i]->name;
      o += l.size() > 12 ? " ...\n" : "\n";
    }
    s = "Total for " + num(r.size()) + " radicals: " + num(all) + " (";
    for (auto& t : Types) s += " " + num(total[t]);
    line(s + ")");
    Str missing;
    size_t n{};
    for (auto& i : m.rads)
      if (!r.contains(i.number)) {
        missing += " " + radical(i.number);
        ++n;
      }
    if (n) line("Found " + num(n) + " radical" + (n > 1 ? "s" : "") + " with no Kanji:" + missing);
  }
  static Str links(const ref::UcdRow& u) {
    Str s;
    for (auto& i : u.links) s += (s.empty() ? "" : ", ") + square(i) + " " + i;
    return s;
  }
  void ucd() {
    line("Kanji Loaded from Unicode 'ucd' file:");
    const auto row{[&](const Str& what, const std::function<bool(const ref::UcdRow&)>& p) {
      size_t n[3]{};
      for (auto& [name, u] : m.ucd)
        if (p(u)) ++n[u.joyo ? 0 : u.jinmei ? 1 : 2];
      line(what + ": " + num(n[0] + n[1] + n[2]) + " (Jouyou " + num(n[0]) + ", Jinmei " + num(n[1]) + ", Other " + num(n[2]) + ")");
    }};
    row("Total", [](auto&) { return true; });
    row("Links", [](auto& u) { return !u.links.empty(); });
    row("VStrokes", [](auto& u) { return u.vstrokes != 0; });
    row("Meanings", [](auto& u) { return !u.meaning.empty(); });
    row("On Readings", [](auto& u) { return !u.on.empty(); });
    row("Kun Readings", [](auto& u) { return !u.kun.empty(); });
    row("Morohashi Ids", [](auto& u) { return u.moro.first != 0; });
    row("Nelson Ids", [](auto& u) { return !u.nelson.empty(); });
    for (const Str t : {"Frequency", "Extra"}) {
      size_t n{};
      Str s;
      for (auto& i : type(t)) {
        const auto& u{m.ucd.at(i)};
        if (u.links.empty()) continue;
        ++n;
        s += square(i) + " " + i + " -> " + links(u) + " " + u.linkType + "\n";
      }
      line(t + " Kanji with links " + num(n) + ":");
      o += s;
    }
    line("Standard Kanji with 'Variation Selectors' vs UCD Variants:");
    line("# Standard Kanji with Selector UCD Compatibility Kanji");
    line("- ---------------------------- -----------------------");
    size_t n{};
    for (auto& [name, k] : m.names)
      if (k->variant) {
        const auto& u{*m.findUcd(name)};
        const auto plain{ref::enc(ref::dec(name)[0])};
        line(num(++n) + " " + square(name) + " " + name + " variant of " + plain + " " + square(u.name) + " " + u.name + (u.links.empty() ? "" : " variant of " + links(u)));
      }
  }
  Str report(bool full) {
    o.clear();
    if (full) {
      o += ">>>\n>>> Begin Loading Data\n>>>\n";
      lists();
      o += ">>>\n>>> Finished Loading Data\n>>>\n";
    }
    counts(full);
    grades();
    if (full) {
      breakdown("Level", Levels5, &ref::K::level, true);
      breakdown("Kyu", Kyus12, &ref::K::kyu, false);
      radicals();
      ucd();
    }
    return o;
  }

  // groups

  [[nodiscard]] Str qualified(const ref::K& k) const { return k.name + ".'\"^~%+@#*"[ref::Kanji::rank(k)]; }
  Str groups(const Str& file, bool pattern, bool full) {
    o.clear();
    Str body;
    size_t rows{}, places{};
    std::map<Str, size_t> in;
    static const Str Colon{"\uff1a"};
    for (auto& r : ref::table(file)) {
      ++rows;
      const auto& name{r["Name"]};
      Strs l{ref::split(r["Members"], ',')};
      const auto p{name.find(Colon)};
      if (pattern && p && p != Str::npos) {
        const auto c{ref::dec(name)};
        auto first{ref::enc(c[0])};
        if (c.size() > 1 && ref::isVs(c[1])) first += ref::enc(c[1]);
        l.insert(l.begin(), first);
      }
      body += "[" + r["Number"] + "] " + name + " (" + num(l.size()) + ") " + (pattern && p ? "" : ":");
      for (size_t i{}; i < l.size(); ++i) {
        const auto& k{*m.find(l[i])};
        body += " " + qualified(k) + (pattern && p && p != Str::npos && !i ? ":" : "");
        places += pattern ? !in[k.name] : 1;
        ++in[k.name];
      }
      body += "\n";
    }
    line("Loaded " + num(places) + " kanji into " + num(rows) + " groups");
    if (full) {
      line(".=\u5e38\u7528 '=JLPT \"=Freq ^=\u4eba\u540d\u7528 ~=LinkJ %=LinkO +=Extra @=\u691c\u5b9a #=1\u7d1a *=Ucd");
      o += "Name (number of entries) Parent Member : Other Members\n" + body;
    }
    if (!pattern && in.size() < places) {
      size_t most{}, once{};
      for (auto& i : in) {
        most = std::max(most, i.second);
        once += i.second == 1;
      }
      line("Unique kanji: " + num(in.size()) + " (once " + num(once) + ", multi " + num(in.size() - once) + ")");
      for (size_t n{2}; n <= most; ++n) {
        o += "Kanji in " + num(n) + " groups:";
        for (auto& i : in)
          if (i.second == n) o += " " + i.first;
        o += "\n";
      }
    }
    o += "Type Breakdown (showing up to 12 missing examples per type)\n";
    for (auto& t : Types) {
      size_t n{};
      Strs missing;
      for (auto& i : type(t))
        if (in.contains(i))
          ++n;
        else
          missing.push_back(i);
      if (!n) continue;
      o += t + ": " + num(n) + " / " + num(type(t).size());
      if (!missing.empty()) {
        o += " (";
        for (size_t i{}; i < missing.size() && i < 12; ++i) o += " " + missing[i];
        o += ")";
      }
      o += "\n";
    }
    return o;
  }

  // compounds

  static Strs kanjiOf(const Str& name) {
    Strs r;
    const auto c{ref::dec(name)};
    for (size_t i{}; i < c.size(); ++i)
      if (common(ref::enc(c[i])) || (c[i] >= 0x2e80 && c[i] <= 0x2eff) || (c[i] >= 0x2a700 && c[i] <= 0x3134f)) {
        auto s{ref::enc(c[i])};
        if (i + 1 < c.size() && ref::selector(c[i + 1])) s += ref::enc(c[++i]);
        r.push_back(s);
      }
    return r;
  }
  Str jukugo(const Str& dir) {
    o = ">>>\n>>> Begin Loading Jukugo\n>>>\n";
    std::set<Str> seen, kanji;
    static const char* files[]{"g1", "g2", "g3", "g4", "g5", "g6", "other"};
    for (int f{}; f < 7; ++f) {
      const auto before{seen.size()};
      for (auto& l : ref::lines(dir + "/" + files[f] + ".txt")) {
        const auto dots{l.find("...")};
        for (auto& e : f < 6 ? Strs{l} : ref::split(l.substr(dots + 4), ' ')) {
          if (e.empty()) continue;
          auto name{e.substr(0, e.find('('))};
          if (f < 6) name.pop_back();
          if (seen.insert(name + e.substr(e.find('('))).second)
            for (auto& k : kanjiOf(name)) kanji.insert(k);
        }
      }
      line("Loaded " + num(seen.size() - before) + " for Grade: " + Grades[f]);
    }
    line("Total Kanji with Jukugo: " + num(kanji.size()) + ", unique jukugo: " + num(seen.size()));
    auto all{Types};
    all.push_back("None");
    for (auto& t : all) {
      Strs l;
      for (auto& k : kanji)
        if (const auto* x{m.find(k)}; (x ? x->type : "None") == t) l.push_back(k);
      if (l.empty()) continue;
      o += t + ": " + num(l.size()) + " (";
      for (size_t i{}; i < l.size() && i < 12; ++i) o += " " + l[i];
      o += ")\n";
    }
    return o;
  }
};

void shipped() {
  const auto& dir{vh::g().data};
  for (const char* mode : {"-info", "-debug", ""}) {
    if (!vh::begin(Str{"shipped data "} + mode)) continue;
    const ref::Kanji ref{dir};
    Model m{ref, {}};
    Real r{dir, *mode ? mode : nullptr};
    kt::KanjiDataPtr d{std::move(r.data)};
    const bool full{Str{mode} == "-debug"};
    const auto next{[&](const Str& what, const Str& want) {
      vh::trace();
      vh::state(what + want);
      compare(r.out.str(), *mode ? want : "", what + " " + mode);
      vh::same(r.err.str(), Str{}, what + mode + " errors", "errors");
      r.out.str("");
    }};
    next("Kanji", m.report(full));
    // groups one file at a time (the other one empty)
    const Str files[]{"/meaning-groups.txt", "/pattern-groups.txt"};
    const kt::GroupData g{d};
    next("groups", m.groups(dir + files[0], false, full) + m.groups(dir + files[1], true, full));
    const kt::JukugoData j{d};
    next("compounds", m.jukugo(dir + "/jukugo"));
  }
}

/// small group files: every assignment of a few Kanji to up to three groups
void groups() {
  const auto& dir{vh::g().data};
  std::unique_ptr<ref::Kanji> ref;
  std::shared_ptr<kt::TextKanjiData> data[2];
  std::unique_ptr<Real> real[2];
  const auto load{[&] {
    if (ref) return;
    ref = std::make_unique<ref::Kanji>(dir);
    for (int full{}; full < 2; ++full) {
      real[full] = std::make_unique<Real>(dir, full ? "-debug" : "-info");
      data[full] = std::move(real[full]->data);
    }
  }};
  // Jouyou, Jinmei, variant of a Jouyou, other
  const Strs kanji{"\u4e00", "\u4e18", "\u4e11", "\u4fae\ufe00", "\u82b1", "\u4e8c"};
  const fs::path p{vh::g().scratch + "/groups"};
  fs::create_directories(p);
  const Str head{"Number\tName\tMembers\n"};
  const auto check{[&](const Str& meaning, const Str& pattern, const Str& key) {
    load();
    put((p / "meaning-groups.txt").string(), head + meaning);
    put((p / "pattern-groups.txt").string(), head + pattern);
    Model m{*ref, {}};
    for (int full{}; full < 2; ++full) {
      auto& out{real[full]->out};
      out.str("");
      vh::trace();
      vh::state(key);
      try {
        const kt::GroupData g{data[full], &p};
        const auto want{m.groups((p / "meaning-groups.txt").string(), false, full) + m.groups((p / "pattern-groups.txt").string(), true, full)};
        compare(out.str(), want, key + (full ? " full" : ""));
      } catch (const std::exception& e) {
        vh::fail(key, Str{"refused: "} + e.what());
      }
    }
  }};
  // each Kanji is in any of three groups: 8^n assignments; the groups have two filler members (a distinct pair for patterns)
  const size_t n{vh::g().thorough ? 5U : 4U};
  const Strs fill{"\u4e09,\u56db", "\u4e94,\u516d", "\u4e03,\u516b"}, names{"\u8272", "\u5f62\u614b", "\u97f3\u697d\uff1a\u6b4c"};
  vh::words(8, n, n, [&](const std::vector<size_t>& w) {
    if (w[2] || w[3] || (n > 4 && w[4])) return;
    if (!vh::begin("meaning groups " + num(w[0]) + num(w[1]))) return;
    vh::words(8, n - 2, n - 2, [&](const std::vector<size_t>& y) {
      Str text, key{"meaning"};
      for (size_t g{}; g < 3; ++g) {
        text += num(g * 45 + 1) + "\t" + names[g] + "\t" + fill[g];
        for (size_t i{}; i < n; ++i)
          if ((i < 2 ? w[i] : y[i - 2]) >> g & 1) text += "," + kanji[i];
        text += "\n";
      }
      for (size_t i{}; i < n; ++i) key += num(i < 2 ? w[i] : y[i - 2]);
      check(text, "", key);
    });
  });
  // patterns: each Kanji in at most one of three groups of every kind
  const Strs kinds{"\uff1a\u30a2", "\u30a2\u3001\u30a4", "X\uff1a\u30a2"};
  const size_t pn{vh::g().thorough ? 6U : 5U};
  vh::words(3, 3, 3, [&](const std::vector<size_t>& k) {
    if (!vh::begin("pattern groups " + num(k[0]) + num(k[1]) + num(k[2]))) return;
    vh::words(4, pn, pn, [&](const std::vector<size_t>& w) {
      Str text, key{"pattern " + num(k[0]) + num(k[1]) + num(k[2]) + " "};
      for (size_t g{}; g < 3; ++g) {
        auto name{kinds[k[g]]};
        auto list{fill[g]};
        if (name[0] == 'X') { // (the first one is part of the name)
          name = list.substr(0, 3) + name.substr(1);
          list.erase(0, 4);
        }
        text += num(g * 700 + 3) + "\t" + name + "\t" + list;
        for (size_t i{}; i < pn; ++i)
          if (w[i] == g + 1) text += "," + kanji[i];
        text += "\n";
      }
      for (auto i : w) key += num(i);
      check("", text, key);
    });
  });
}

/// one loaded directory, reported both ways
void both(const Mini& mini, const Str& key) {
  vh::trace(2);
  vh::state(key);
  const ref::Kanji ref{mini.dir};
  Model m{ref, {}};
  for (bool full : {false, true})
    try {
      const Real real{mini.dir, full ? "-debug" : "-info"};
      vh::same(real.err.str(), Str{}, key + " errors", "errors printed while loading");
      compare(real.out.str(), m.report(full), key + (full ? " full" : ""));
    } catch (const std::exception& e) {
      vh::fail(key, Str{"loading failed: "} + e.what());
    }
}
/// change the columns of the rows of the Unicode table
void rewrite(const Mini& mini, const std::function<void(size_t, Strs&)>& f) {
  const auto file{mini.dir + "/ucd.txt"};
  const auto rows{ref::lines(file)};
  Str text{rows[0] + "\n"};
  for (size_t i{1}; i < rows.size(); ++i) {
    auto c{ref::split(rows[i], '\t')};
    f(i - 1, c);
    for (auto& x : c) text += (&x == &c[0] ? "" : "\t") + x;
    text += "\n";
  }
  put(file, text);
}
/// strokes and radicals of a few Kanji
void variants(Mini& mini) {
  using R = Role;
  const std::vector<R> three{{R::Jouyou, true, 1, 1, 0}, {R::Jinmei, false, 0, 0, 0}, {R::Extra, false, 0, 3, 0}};
  const auto radicals{mini.dir + "/radicals.txt"};
  const auto rows{ref::lines(radicals)};
  const auto first{[&](size_t n) {
    Str s;
    for (size_t i{}; i <= n; ++i) s += rows[i] + "\n";
    put(radicals, s);
  }};
  // radicals 1, 2 and 6 are used, every choice for the others: 0-3 of 6 (7) have no Kanji
  const size_t n{vh::g().thorough ? 7U : 6U};
  vh::words(n, 3, 3, [&](const std::vector<size_t>& w) {
    if (!vh::begin("radicals " + num(w[0]) + num(w[1]) + num(w[2]))) return;
    mini.write(three);
    first(n);
    rewrite(mini, [&](size_t i, Strs& c) { c[4] = num(i < 3 ? (i ? i : 3) : w[i - 3] + 1); });
    both(mini, "radicals " + num(w[0]) + num(w[1]) + num(w[2]));
    first(rows.size() - 1);
  });
  // strokes of a Kanji that has its own ones (3 and 9) and of one that hasn't
  const unsigned values[]{3, 4, 9}, variants[]{0, 3, 4, 9};
  vh::words(12, 2, 2, [&](const std::vector<size_t>& w) {
    for (auto x : w)
      if (values[x / 4] == variants[x % 4]) return;
    if (!vh::begin("strokes " + num(w[0]) + "," + num(w[1]))) return;
    mini.write(three);
    rewrite(mini, [&](size_t i, Strs& c) {
      if (i > 2) return;
      const auto x{w[i ? 1 : 0]};
      c[5] = num(values[x / 4]);
      c[6] = variants[x % 4] ? num(variants[x % 4]) : "";
    });
    both(mini, "strokes " + num(w[0]) + "," + num(w[1]));
  });
  // up to 16 Kanji of one radical with every split over two others of it
  for (size_t k{}; k <= 16; ++k)
    for (size_t f{}; f < 8; ++f) {
      if (!vh::begin("many " + num(k) + "," + num(f))) continue;
      mini.write(three);
      Str ext{"Number\tName\tRadical\tStrokes\tMeaning\tReading\n"}, ucd;
      const auto file{mini.dir + "/ucd.txt"};
      const auto old{ref::lines(file)};
      for (auto& l : old) ucd += l + "\n";
      ext += "1\t" + Str{Slots[2].name} + "\t\u4e85\t9\tm\tr\n";
      for (size_t i{}; i < k; ++i) {
        const auto c{0x5000 + (i * 7) % 32};
        const auto name{ref::enc(static_cast<unsigned>(c))};
        ext += num(i + 2) + "\t" + name + "\t\u4e85\t" + num(3 + i % 5) + "\tm\tr\n";
        auto x{ref::split(old[1], '\t')};
        x[0] = square(name).substr(1, 4);
        x[1] = name;
        x[12] = x[13] = x[14] = x[15] = x[16] = "";
        for (auto& y : x) ucd += (&y == &x[0] ? "" : "\t") + y;
        ucd += "\n";
      }
      put(mini.dir + "/extra.txt", ext);
      put(file, ucd);
      rewrite(mini, [&](size_t i, Strs& c) {
        if (i > 2 && i < 6) c[4] = f >> (i - 3) & 1 ? "6" : "9";
      });
      both(mini, "many " + num(k) + "," + num(f));
    }
}

void small() {
  Mini mini;
  const auto all{roles()};
  const auto check{[&](const std::vector<size_t>& w) {
    std::vector<Role> r;
    Str key{"mini"};
    for (auto i : w) {
      r.push_back(all[i]);
      key += "." + num(i);
    }
    mini.write(r);
    both(mini, key);
  }};
  // mistakes: for every row of the Unicode table, its flags, links or the whole row are missing, or it has the other flag
  const auto mistakes{[&](const std::vector<size_t>& w) {
    std::vector<Role> r;
    Str key{"mistake"};
    for (auto i : w) {
      r.push_back(all[i]);
      key += "." + num(i);
    }
    mini.write(r);
    const ref::Kanji ref{mini.dir};
    const auto file{mini.dir + "/ucd.txt"};
    const auto rows{ref::lines(file)};
    // (the last three are only fillers)
    for (size_t row{1}; row + 3 < rows.size(); ++row)
      for (int kind{}; kind < 4; ++kind) {
        auto c{ref::split(rows[row], '\t')};
        const auto& name{c[1]};
        auto& u{ref.ucd.at(name)};
        if (kind % 3 == 0 && c[12].empty() && c[13].empty()) continue;
        if (kind == 1 && c[15].empty()) continue;
        if (kind == 0) c[12] = c[13] = "";
        if (kind == 3) std::swap(c[12], c[13]);
        if (kind == 1 || kind == 3) c[14] = c[15] = c[16] = "";
        Str text;
        for (size_t i{}; i < rows.size(); ++i) {
          if (i == row && kind == 2) continue;
          Str l;
          for (auto& x : c) l += (&x == &c[0] ? "" : "\t") + x;
          text += (i == row ? l : rows[i]) + "\n";
        }
        put(file, text);
        const auto k2{key + " row " + num(row) + " kind " + num(kind)};
        vh::trace();
        vh::step();
        vh::state(k2);
        Strs want, got;
        Str thrown;
        bool lost{}; // no entry is found for a Kanji: an error or an exception must name it
        for (auto& k : ref.all) {
          if (ref.findUcd(k.name) != &u) continue;
          const auto miss{[&](const Str& s) { want.push_back(k.name + " " + square(k.name) + (k.variant ? " (non-variant: " + ref::enc(ref::dec(k.name)[0]) + ")" : "") + " " + s + " in _ucd"); }};
          if (kind == 2 || k.variant)
            lost |= k.type != "Ucd";
          else if (kind % 3 == 0) {
            if (k.type == "Jouyou") miss("not marked as 'Joyo'");
            if (k.type == "Jinmei") miss("not marked as 'Jinmei'");
            if (k.type == "LinkedJinmei") miss("with link not marked as 'Jinmei'");
          } else if (k.type == "LinkedJinmei")
            miss("missing 'JinmeiLink' for " + square(k.name) + " " + k.name);
        }
        std::ostringstream out, err;
        const char* argv[]{"", "-data", mini.dir.c_str()};
        try {
          const kt::TextKanjiData d{kt::Args{3, argv}, out, err};
        } catch (const std::exception& e) {
          thrown = e.what();
        }
        static unsigned long last;
        Strs errors;
        for (auto& l : ref::split(err.str(), '\n')) {
          if (l.empty()) continue;
          const auto at{l.find("] --- ")};
          if (l.substr(0, 6) != "ERROR[" || at == Str::npos) {
            vh::fail(k2, "unknown error line " + l);
            continue;
          }
          const auto n{std::stoul(l.substr(6))};
          vh::expect(n == last + 1, k2 + " number", "error " + num(n) + " after " + num(last));
          last = n;
          errors.push_back(l.substr(at + 6));
        }
        vh::outcome(errors.empty() ? thrown : errors[0].substr(errors[0].find("]")));
        if (lost) {
          bool named{thrown.find(name) != Str::npos};
          for (auto& k : ref.all)
            if (ref.findUcd(k.name) == &u) {
              named |= thrown.find(k.name) != Str::npos;
              for (auto& e : errors) named |= e.find(k.name) != Str::npos;
            }
          vh::expect(named, k2, "nothing reported for " + name + " (" + thrown + ")");
          continue;
        }
        vh::same(thrown, Str{}, k2 + " exception", "exception");
        Str g, x;
        for (auto& i : errors) g += i + "; ";
        for (auto& i : want) x += i + "; ";
        vh::same(g, x, k2, "errors");
      }
  }};
  variants(mini);
  for (size_t i{}; i < all.size(); ++i) {
    if (vh::begin("small data " + num(i))) check({i});
    if (vh::begin("mistakes " + num(i))) mistakes({i});
    for (size_t j{}; j < all.size(); ++j) {
      if (vh::begin("small data " + num(i) + "," + num(j))) check({i, j});
      if (vh::begin("mistakes " + num(i) + "," + num(j)) && (vh::g().thorough || (i + j) % 3 == 0)) mistakes({i, j});
    }
  }
}

} // namespace

int main(int argc, char** argv) {
  return vh::run(argc, argv, [] {
#ifdef SMALL
    small();
#else
    shipped();
    groups();
#endif
  });
}
