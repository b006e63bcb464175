// C32: details of a Kanji against a model of what they consist of
#include "quiz.h"
#include "ref_size.h"
#include <filesystem>

namespace fs = std::filesystem;

namespace {

struct Word {
  Str name, reading;
  int grade; ///< 1 to 7
};
struct Grp {
  Str name;
  Strs members;
};
/// groups and compounds
struct Extra {
  std::vector<Grp> meaning, pattern;
  std::vector<Word> jukugo;
  // indexes
  std::map<Str, std::vector<size_t>> meaningOf, jukugoOf;
  std::map<Str, size_t> patternOf;
};

const ref::Kanji& model() {
  static const ref::Kanji m{vh::g().data};
  return m;
}
const Str Colon{"\uff1a"};

Grp pattern(const Str& name, Strs members) {
  if (const auto p{name.find(Colon)}; p && p != Str::npos) {
    const auto c{ref::dec(name)};
    members.insert(members.begin(), ref::enc(c[0]) + (ref::isVs(c[1]) ? ref::enc(c[1]) : ""));
  }
  return {name, members};
}
void index(Extra& x) {
  for (size_t i{}; i < x.meaning.size(); ++i)
    for (auto& k : x.meaning[i].members) x.meaningOf[model().find(k)->name].push_back(i);
  for (size_t i{}; i < x.pattern.size(); ++i)
    for (auto& k : x.pattern[i].members) x.patternOf.emplace(model().find(k)->name, i);
  for (size_t i{}; i < x.jukugo.size(); ++i) {
    const auto c{ref::dec(x.jukugo[i].name)};
    std::set<Str> ks;
    for (size_t j{}; j < c.size(); ++j) {
      auto k{ref::enc(c[j])};
      if (j + 1 < c.size() && ref::isVs(c[j + 1])) k += ref::enc(c[j + 1]);
      ks.insert(k);
    }
    for (auto& k : ks) x.jukugoOf[k].push_back(i);
  }
}

kt::KanjiPtr real(const Str& name) { return world().data->findByName(name); }

Str jukugoList(const Str& title, const Extra& x, const std::vector<size_t>& l) {
  Str r{"    " + title + ":"};
  Strs words;
  for (auto i : l) words.push_back(x.jukugo[i].name + "（" + x.jukugo[i].reading + "）");
  if (words.size() <= 3)
    for (auto& w : words) r += " " + w;
  else {
    r += " " + std::to_string(words.size());
    size_t width[3]{};
    for (size_t i{}; i < words.size(); ++i) width[i % 3] = std::max(width[i % 3], std::min<size_t>(30, ref::width(words[i]) + 2));
    for (size_t i{}; i < words.size(); ++i) {
      if (i % 3 == 0) r += "\n";
      r += words[i];
      for (auto n{ref::width(words[i])}; n < width[i % 3]; ++n) r += " ";
    }
  }
  return r + "\n";
}

/// readings, groups and compounds
Str review(const Str& name, const Extra& x) {
  const auto& m{*model().find(name)};
  const auto k{real(name)};
  Str r{"    Reading: " + k->reading() + "\n"};
  if (const auto i{x.patternOf.find(m.name)}; i != x.patternOf.end())
    if (auto& g{x.pattern[i->second]}; g.name.find(Colon) != Str::npos) {
      r += "    Similar:";
      kt::KanjiData::List l;
      for (auto& j : g.members) l.push_back(real(j));
      std::sort(l.begin(), l.end(), [](auto& a, auto& b) { return a->orderByQualifiedName(*b); });
      for (auto& j : l)
        if (j->name() != m.name) r += " " + j->qualifiedName();
      r += "\n";
    }
  if (m.moro.first) r += "  Morohashi: " + ref::moroText(m.moro) + "\n";
  if (!m.nelson.empty()) {
    r += m.nelson.size() == 1 ? "  Nelson ID:" : " Nelson IDs:";
    for (auto i : m.nelson) r += " " + std::to_string(i);
    r += "\n";
  }
  if (const auto i{x.meaningOf.find(m.name)}; i != x.meaningOf.end()) {
    r += i->second.size() == 1 ? "   Category: " : " Categories: ";
    for (size_t j{}; j < i->second.size(); ++j) r += (j ? ", [" : "[") + x.meaning[i->second[j]].name + "]";
    r += "\n";
  }
  if (const auto i{x.jukugoOf.find(m.name)}; i != x.jukugoOf.end()) {
    std::vector<size_t> same, other;
    for (auto j : i->second) (!m.grade.empty() && m.grade == (x.jukugo[j].grade == 7 ? "S" : "G" + std::to_string(x.jukugo[j].grade)) ? same : other).push_back(j);
    if (m.grade.empty() || i->second.size() <= 3 || other.empty())
      r += jukugoList(" Jukugo", x, i->second);
    else
      r += jukugoList("Same Grade Jukugo", x, same) + jukugoList("Other Grade Jukugo", x, other);
  }
  return r + "\n";
}

const Str Legend{">>> Legend:\nFields: N[1-5]=JLPT Level, K[1-10]=Kentei Kyu, G[1-6]=Grade (S=Secondary School)\nSuffix: .=\u5e38\u7528 '=JLPT \"=Freq ^=\u4eba\u540d\u7528 ~=LinkJ %=LinkO +=Extra @=\u691c\u5b9a #=1\u7d1a *=Ucd\n"};
const Str SourceLegend{"Sources: G=China / Singapore, H=Hong Kong, J=Japan, K=Korea, T=Taiwan, V=Vietnam\n\n"};

Str codes(const Str& s) {
  Str r;
  char b[16];
  for (auto c : ref::dec(s)) {
    snprintf(b, sizeof b, "%04X", c);
    r += (r.empty() ? "" : " ") + Str{b};
  }
  return "[" + r + "]";
}
Str sources(const Str& s) {
  Str r;
  for (auto c : Str{"GHJKTV"})
    if (s.find(c) != Str::npos) r += c;
  return r;
}

/// details asked for by `name`
Str details(const Str& name, const Extra& x) {
  Str r{name + " " + codes(name)};
  const auto* u{model().findUcd(name)};
  if (!u) return r + " --- Not found in 'ucd.txt'\n";
  r += ", Blk " + u->block + ", Ver " + u->version;
  if (const auto s{sources(u->sources)}; !s.empty()) {
    r += ", Sources " + s;
    if (!u->jSource.empty()) r += " (" + u->jSource + ")";
  }
  const auto* m{model().find(name)};
  if (!m) return r + " --- Kanji not loaded'\n";
  r += ", " + m->type;
  if (!m->extra.empty()) r += " (" + m->extra + ")";
  r += "\n" + real(name)->info();
  if (!m->meaning.empty()) r += "\n    Meaning: " + m->meaning;
  return r + "\n" + review(name, x);
}

Str shown(const Str& arg, const kt::GroupDataPtr& g, const kt::JukugoDataPtr& j, Str& thrown) {
  auto& w{world()};
  w.real.out.str("");
  std::istringstream none;
  const char* argv[]{"", arg.c_str()};
  thrown.clear();
  try {
    const kt::QuizLauncher l{kt::Args{2, argv}, w.data, g, j, &none};
  } catch (const kt::DomainError& e) {
    thrown = "refused";
  } catch (const std::exception& e) {
    thrown = Str{"other: "} + e.what();
  }
  return w.real.out.str();
}

void compare(const Str& key, const Str& got, const Str& want, const Str& thrown = {}) {
  vh::step();
  if (!thrown.empty()) return vh::fail(key, "ends with '" + thrown + "'");
  if (got == want) return;
  size_t i{};
  while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
  i = i > 80 ? i - 80 : 0;
  vh::fail(key, "got ..." + got.substr(i, 300) + "..., expected ..." + want.substr(i, 300));
}

const Extra& shipped() {
  static Extra x;
  if (x.meaning.empty()) {
    const auto& d{vh::g().data};
    for (auto& r : ref::table(d + "/meaning-groups.txt")) x.meaning.push_back({r["Name"], ref::split(r["Members"], ',')});
    for (auto& r : ref::table(d + "/pattern-groups.txt")) x.pattern.push_back(pattern(r["Name"], ref::split(r["Members"], ',')));
    std::set<std::pair<Str, Str>> seen;
    for (int g{1}; g < 8; ++g)
      for (auto& l : ref::lines(d + "/jukugo/" + (g == 7 ? "other" : "g" + std::to_string(g)) + ".txt"))
        for (auto& e : g == 7 ? ref::split(l.substr(l.find("...") + 4), ' ') : Strs{l})
          if (const auto a{e.find('(')}; a != Str::npos) {
            const Word w{e.substr(0, g == 7 ? a : a - 1), e.substr(a + 1, e.find(')') - a - 1), g};
            if (seen.emplace(w.name, w.reading).second) x.jukugo.push_back(w);
          }
    index(x);
  }
  return x;
}

void everyKanji() {
  for (unsigned k{}; k < 128; ++k)
    if (vh::begin("shipped Kanji " + std::to_string(k))) {
      auto& x{shipped()};
      size_t n{};
      Str t;
      for (auto& i : model().all) {
        if (n++ % 128 != k) continue;
        Strs names{i.name};
        if (i.compat != i.name) names.push_back(i.compat);
        for (auto& a : names) {
          vh::trace();
          vh::state(a);
          const auto want{Legend + SourceLegend + details(a, x)};
          vh::outcome(want.substr(Legend.size() + SourceLegend.size() + a.size() + 7));
          compare(a, shown(a, world().groups, world().jukugo, t), want, t);
          vh::sample([&] { return a; });
        }
        const auto r{printed([&](const auto& l) { l.printReviewDetails(*real(i.name)); })};
        compare(i.name + " review", r, review(i.name, x));
        for (int b{}; b < 4; ++b)
          compare(i.name + " meaning " + std::to_string(b), printed([&](const auto& l) { l.printMeaning(*real(i.name), b & 1, b & 2); }), (b & 2 && !i.meaning.empty() ? (b & 1 ? "\n    Meaning: " : " : ") + i.meaning : "") + "\n");
        compare(i.name + " extra", printed([&](const auto& l) { l.printExtraTypeInfo(*real(i.name)); }), ", " + i.type + (i.extra.empty() ? "" : " (" + i.extra + ")"));
      }
    }
  if (vh::begin("legends"))
    for (unsigned f{}; f < 512; ++f) {
      vh::trace();
      using kt::Kanji;
      Str want;
      const auto info{static_cast<Kanji::Info>(f)};
      const auto add{[&](Kanji::Info i, const char* s) {
        if (kt::hasValue(info & i)) want += (want.empty() ? " " : ", ") + Str{s};
      }};
      add(Kanji::Info::Level, "N[1-5]=JLPT Level");
      add(Kanji::Info::Kyu, "K[1-10]=Kentei Kyu");
      add(Kanji::Info::Grade, "G[1-6]=Grade (S=Secondary School)");
      compare("legend " + std::to_string(f), printed([&](const auto& l) { l.printLegend(info); }), ">>> Legend:\nFields:" + want + Legend.substr(Legend.find("\nSuffix")));
    }
}

bool kanji(uint32_t c) { return (c >= 0x2e80 && c <= 0x2eff) || (c >= 0x4e00 && c <= 0x9fff) || (c >= 0x3400 && c <= 0x4dbf) || (c >= 0xf900 && c <= 0xfaff) || (c >= 0x20000 && c <= 0x2a6df) || (c >= 0x2a700 && c <= 0x2ebef) || (c >= 0x2f800 && c <= 0x2fa1f) || (c >= 0x30000 && c <= 0x3134f); }

/// every code point, as "u" argument and as UTF-8
void codePoints() {
  const bool th{vh::g().thorough};
  for (uint32_t b{}; b < 0x31400; b += 0x400)
    if (vh::begin("code points from " + std::to_string(b))) {
      auto& x{shipped()};
      Str t;
      for (auto c{b}; c < b + 0x400; ++c) {
        char u[16];
        vh::trace();
        const auto name{ref::scalar(c) && c ? ref::enc(c) : Str{}};
        const auto ok{kanji(c)};
        const auto full{ok ? Legend + SourceLegend + details(name, x) : Str{}};
        if (c < 0x30000) {
          for (auto f : {"u%04X", "u%04x", "u%05x"}) {
            if (f[3] == '5' && c > 0xffff) continue;
            snprintf(u, sizeof u, f, c);
            const auto got{shown(u, world().groups, world().jukugo, t)};
            if (f[3] == '5')
              compare(u, got + t, "refused"); // 5 digits may only start with 1 or 2
            else if (ok)
              compare(u, got, full, t);
            else // not specified: refused or shown as not found
              vh::expect((t == "refused" && got.empty()) || (t.empty() && got.find("Not found") != Str::npos), u, "not a Kanji, but '" + t + "', '" + got + "'");
          }
        }
        if (name.empty() || c < 0x80) continue;
        auto got{shown(name, world().groups, world().jukugo, t)};
        if (ok)
          compare(name, got, full, t);
        else if (name != "m" && name != "n" && name != "u")
          vh::expect(t == "refused" && got.empty(), name, "not refused: " + got);
        if (!ok || (c % 16 && !th && !model().findUcd(name))) continue;
        for (uint32_t v{0xfe00}; v < 0xfe10; ++v) {
          const auto s{name + ref::enc(v)};
          compare(s, shown(s, world().groups, world().jukugo, t), Legend + SourceLegend + details(s, x), t);
        }
      }
    }
}

Str dir() { return vh::g().scratch + "/small"; }
void put(const Str& f, const Str& s) {
  static std::map<Str, Str> last;
  static bool made{fs::create_directories(dir())};
  (void)made;
  if (const auto i{last.find(f)}; i != last.end() && i->second == s) return;
  last[f] = s;
  std::ofstream{dir() + "/" + f, std::ios::binary} << s;
}

void check(const Extra& x, const Strs& names, const Str& key) {
  static kt::GroupDataPtr emptyGroups;
  const fs::path p{dir()};
  Str m{"Number\tName\tMembers\n"}, q{m};
  unsigned n{};
  const auto members{[](const Strs& l) {
    Str s;
    for (auto& i : l) s += (s.empty() ? "" : ",") + i;
    return s;
  }};
  for (auto& g : x.meaning) m += std::to_string(++n) + "\t" + g.name + "\t" + members(g.members) + "\n";
  n = 0;
  for (auto& g : x.pattern) {
    auto l{g.members};
    if (const auto c{g.name.find(Colon)}; c && c != Str::npos) l.erase(l.begin());
    q += std::to_string(++n) + "\t" + g.name + "\t" + members(l) + "\n";
  }
  put("meaning-groups.txt", m);
  put("pattern-groups.txt", q);
  Str t[8];
  for (auto& w : x.jukugo)
    if (w.grade == 7)
      t[7] += "\u5b57 ... " + w.name + "(" + w.reading + ")\n";
    else
      t[w.grade] += w.name + " (" + w.reading + ")\n";
  for (int g{1}; g < 8; ++g) put(g == 7 ? "other.txt" : "g" + std::to_string(g) + ".txt", t[g]);
  vh::trace();
  vh::state(key);
  vh::note(key);
  try {
    const auto groups{std::make_shared<kt::GroupData>(world().data, &p)};
    const auto jukugo{std::make_shared<kt::JukugoData>(world().data, &p)};
    Str thrown;
    for (auto& i : names) {
      const auto got{shown(i, groups, jukugo, thrown)};
      compare(key + " " + i, got, Legend + SourceLegend + details(i, x), thrown);
    }
  } catch (const std::exception& e) {
    vh::fail(key, Str{"exception "} + e.what());
  }
}

void small() {
  const bool th{vh::g().thorough};
  // compounds: same or other grade, and how wide
  const Str long1(40, 'x');
  struct Kind {
    int grade;
    unsigned letters; ///< of the reading
  };
  const std::vector<Kind> kinds{{1, 2}, {1, 12}, {2, 10}, {7, 4}, {7, 11}};
  // of another Kanji each (so that names differ)
  const auto list{[&](const std::vector<size_t>& w, const Str& target) {
    Extra x;
    std::vector<Word> words;
    for (size_t i{}; i < w.size(); ++i) {
      Str r;
      for (unsigned j{}; j < kinds[w[i]].letters; ++j) r += "\u3042";
      words.push_back({target + model().all[300 + i].name, r, kinds[w[i]].grade});
    }
    // in order of the files
    for (int g{1}; g < 8; ++g)
      for (auto& i : words)
        if (i.grade == g) x.jukugo.push_back(i);
    index(x);
    return x;
  }};
  const auto of{[&](const char* type, const char* grade) {
    for (auto& k : model().all)
      if (k.type == type && k.grade == grade && k.name.size() == 3) return k.name;
    return Str{};
  }};
  for (auto& target : {of("Jouyou", "G1"), of("Jouyou", "S"), of("Jinmei", "")})
    for (size_t a{}; a < kinds.size(); ++a)
      for (size_t b{}; b < kinds.size(); ++b)
        if (vh::begin("compounds of " + target + " starting " + std::to_string(a) + std::to_string(b)))
          vh::words(kinds.size(), 0, th ? 5 : 4, [&](const auto& w) {
            std::vector<size_t> v{a, b};
            v.insert(v.end(), w.begin(), w.end());
            if (w.empty() && b == 0) check(list({a}, target), {target}, target + " " + std::to_string(a));
            Str key{target};
            for (auto i : v) key += std::to_string(i);
            check(list(v, target), {target}, key);
          });
  // groups
  const auto k{[&](size_t i) { return model().all[i].name; }};
  const auto target{k(50)};
  for (int p{}; p < 7; ++p)
    if (vh::begin("groups, pattern " + std::to_string(p)))
      for (unsigned size{1}; size < 5; ++size)
        for (unsigned at{}; at <= size; ++at)
          vh::words(3, 0, 4, [&](const auto& w) {
            Extra x;
            Strs m;
            for (unsigned i{}; i < size; ++i) m.push_back(i % 2 ? k(2200 + i * 300) : k(100 + (7 - i) * 50));
            auto with{m};
            with.insert(with.begin() + at, target);
            const Str x1{"\u3042"};
            switch (p) {
            case 0: break;
            case 1: x.pattern.push_back(pattern(Colon + x1, with)); break;
            case 2: x.pattern.push_back(pattern(target + Colon + x1, m)); break;
            case 3: x.pattern.push_back(pattern(k(60) + Colon + x1, with)); break;
            case 4: x.pattern.push_back(pattern(x1, with)); break;
            case 5:
              x.pattern.push_back(pattern(Colon + x1, {k(61), k(62)}));
              x.pattern.push_back(pattern(Colon + x1, with));
              break;
            default:
              x.pattern.push_back(pattern(x1, with));
              x.pattern.push_back(pattern(Colon + x1, {k(61), k(62)}));
            }
            Str key{"groups " + std::to_string(p) + std::to_string(size) + std::to_string(at)};
            for (auto i : w) {
              const Str name{ref::enc(0x8272 + static_cast<uint32_t>(x.meaning.size()))};
              key += std::to_string(i);
              x.meaning.push_back({name, i == 0 ? Strs{k(70), k(71)} : i == 1 ? Strs{target, k(72)} : Strs{k(73), k(74), target}});
            }
            index(x);
            check(x, {target, k(100 + 7 * 50), k(72)}, key);
          });
}

} // namespace

int main(int argc, char** argv) {
  return vh::run(argc, argv, [] {
    everyKanji();
    codePoints();
    small();
  });
}
