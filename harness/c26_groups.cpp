// C26: meaning and pattern groups against a model of their files
#include "cmp_kanji.h"
#include <filesystem>
#include <kt_quiz/GroupData.h>

namespace fs = std::filesystem;
using ref::Str;
using ref::Strs;

namespace {

struct Grp {
  unsigned number;
  Str name;
  Strs members; ///< names of the Kanji
  Str pattern;  ///< Family, Peer, Reading or None
};
struct Model {
  std::vector<Grp> groups;
  std::map<Str, std::vector<unsigned>> byKanji; ///< indexes of groups
  struct Again {
    Str kanji;
    unsigned second, first;
  };
  std::vector<Again> again; ///< Kanji already in another pattern group
  size_t bad{};             ///< first row that has to be refused
};

Str patternText(kt::Group::PatternType t) {
  using enum kt::Group::PatternType;
  switch (t) {
  case Family: return "Family";
  case Peer: return "Peer";
  case Reading: return "Reading";
  case None: return "None";
  }
  return "?";
}

const Str Colon{"\uff1a"};

struct World {
  ref::Kanji m{vh::g().data};
  Real real{vh::g().data};
  kt::KanjiDataPtr data{std::move(real.data)};
};
World& world() {
  static World w;
  return w;
}

/// rows are (number, name, members)
Model load(const std::vector<Strs>& rows, bool pattern) {
  Model r;
  const auto& m{world().m};
  for (size_t n{}; n < rows.size(); ++n) {
    const auto& row{rows[n]};
    Grp g{0, row.size() > 1 ? row[1] : Str{}, {}, "None"};
    bool ok{row.size() == 3 && !g.name.empty()};
    for (unsigned char c : g.name)
      if (c < 0x80) ok = false;
    unsigned long v{};
    if (row[0].empty()) ok = false;
    for (auto c : row[0])
      if (c < '0' || c > '9')
        ok = false;
      else
        v = std::min(v * 10 + static_cast<unsigned>(c - '0'), 1000000UL);
    if (v > 65535) ok = false;
    g.number = static_cast<unsigned>(v);
    Strs names;
    if (row.size() > 2) names = ref::split(row[2], ',');
    if (names.size() == 1 && names[0].empty()) names.clear();
    if (pattern) {
      const auto p{g.name.find(Colon)};
      g.pattern = p == 0 ? "Peer" : p == Str::npos ? "Reading" : "Family";
      if (p && p != Str::npos) { // first character (with its selector) is a member
        const auto c{ref::dec(g.name)};
        auto first{ref::enc(c[0])};
        if (c.size() > 1 && c[1] >= 0xfe00 && c[1] <= 0xfe0f) first += ref::enc(c[1]);
        names.insert(names.begin(), first);
      }
    }
    std::set<Str> seen;
    for (auto& i : names)
      if (const auto* k{i.empty() ? nullptr : m.find(i)}; k) {
        g.members.push_back(k->name);
        if (!seen.insert(k->name).second) ok = false;
      } else
        ok = false;
    if (g.members.size() < 2 || g.members.size() > 58) ok = false;
    if (!ok) {
      r.bad = n + 1;
      return r;
    }
    for (auto& i : g.members)
      if (auto& l{r.byKanji[i]}; pattern && !l.empty())
        r.again.push_back({i, static_cast<unsigned>(r.groups.size()), l[0]});
      else
        l.push_back(static_cast<unsigned>(r.groups.size()));
    r.groups.push_back(g);
  }
  return r;
}

Str label(const Grp& g) { return "[" + std::to_string(g.number) + " " + g.name + "]"; }

void compareGroup(const kt::Group& g, const Grp& m, bool pattern, const Str& key) {
  const auto eq{[&](const auto& got, const auto& want, const char* what) {
    vh::step();
    vh::same(got, want, key + ":" + what, "group " + m.name + " " + what);
  }};
  eq(unsigned{g.number()}, m.number, "number");
  eq(g.name(), m.name, "name");
  eq(names(g.members()), names(m.members), "members");
  eq(patternText(g.patternType()), m.pattern, "patternType");
  eq(g.type() == kt::GroupType::Pattern, pattern, "type");
  eq(g.toString(), label(m), "toString");
  std::ostringstream o, t;
  o << g;
  eq(o.str(), m.pattern == "Peer" ? "[Peers " + m.members[0] + m.name + "]" : "[" + m.name + "]", "printed");
  t << g.type();
  eq(t.str(), Str{pattern ? "Pattern" : "Meaning"}, "type printed");
  for (auto& i : g.members()) vh::expect(world().data->findByName(i->name()) == i, key + ":object", "member " + i->name() + " isn't the one of the data");
}

void compareData(const kt::GroupData& d, const Model& m, bool pattern, const Str& key) {
  const auto& l{pattern ? d.patternGroups() : d.meaningGroups()};
  if (!vh::same(l.size(), m.groups.size(), key + ":count", "groups")) return;
  for (size_t i{}; i < l.size(); ++i) compareGroup(*l[i], m.groups[i], pattern, key + ":" + m.groups[i].name);
  std::map<Str, Str> got, want;
  const auto fill{[&](const auto& map) {
    for (auto& i : map) got[i.first] += i.second->toString();
    size_t n{};
    for (auto& i : m.byKanji)
      for (auto j : i.second) {
        want[i.first] += label(m.groups[j]);
        ++n;
        // the very group of the list
        bool found{};
        const auto r{map.equal_range(i.first)};
        for (auto k{r.first}; k != r.second; ++k) found = found || k->second == l[j];
        vh::expect(found, key + ":find " + i.first, i.first + " doesn't find " + label(m.groups[j]));
      }
    vh::same(map.size(), n, key + ":mapSize", "entries in map");
    vh::step(n);
  }};
  if (pattern)
    fill(d.patternMap());
  else
    fill(d.meaningMap());
  for (auto& i : want) vh::same(got[i.first], i.second, key + ":map " + i.first, "groups of " + i.first);
  vh::same(got.size(), want.size(), key + ":mapKeys", "Kanji in map");
}

/// errors printed for Kanji that are in more than one pattern group
void compareErrors(Str text, const Model& m, const Str& key) {
  Strs l;
  for (auto& i : ref::split(text, '\n'))
    if (!i.empty()) l.push_back(i);
  if (!vh::same(l.size(), m.again.size(), key + ":errors", "errors printed (" + text + ")")) return;
  for (size_t i{}; i < l.size(); ++i) {
    auto& a{m.again[i]};
    const auto x{l[i].find(a.kanji)}, y{l[i].find(label(m.groups[a.second]))}, z{l[i].rfind(label(m.groups[a.first]))};
    vh::expect(x != Str::npos && y != Str::npos && z != Str::npos && x < y && y < z, key + ":error " + a.kanji, "error '" + l[i] + "' doesn't name " + a.kanji + ", " + label(m.groups[a.second]) + " and " + label(m.groups[a.first]));
  }
}

void shipped() {
  static std::vector<Strs> rows[2];
  static Model m[2];
  static std::unique_ptr<kt::GroupData> d;
  const char* files[]{"meaning-groups", "pattern-groups"};
  if (vh::begin("shipped groups")) {
    auto& w{world()};
    w.real.err.str("");
    d = std::make_unique<kt::GroupData>(w.data);
    for (int p{}; p < 2; ++p) {
      for (auto& r : ref::table(vh::g().data + "/" + files[p] + ".txt")) rows[p].push_back({r["Number"], r["Name"], r["Members"]});
      m[p] = load(rows[p], p);
      vh::trace(rows[p].size());
      vh::same(m[p].bad, size_t{}, files[p], "row the model refuses");
      compareData(*d, m[p], p, files[p]);
      for (auto& g : m[p].groups) {
        vh::state(label(g));
        vh::outcome(std::to_string(g.members.size()) + g.pattern);
      }
    }
    compareErrors(w.real.err.str(), m[1], "shipped");
    w.real.err.str("");
    const std::filesystem::path dir{vh::g().data};
    const kt::GroupData e{w.data, &dir};
    for (int p{}; p < 2; ++p) compareData(e, m[p], p, Str{files[p]} + " with directory");
    vh::same(&d->data() == w.data.get() && &d->out() == &w.data->out(), true, "data", "data()");
  }
}

Str dir() { return vh::g().scratch + "/groups"; }
Str render(const std::vector<Strs>& rows) {
  Str t{"Number\tName\tMembers\n"};
  for (auto& r : rows) {
    for (size_t i{}; i < r.size(); ++i) t += (i ? "\t" : "") + r[i];
    t += "\n";
  }
  return t;
}
void write(const Str& f, const Str& t) {
  FILE* o{fopen((dir() + "/" + f).c_str(), "wb")};
  if (!o || fwrite(t.data(), 1, t.size(), o) != t.size()) abort();
  fclose(o);
}

/// one pair of files
void run(const std::vector<Strs>& meaning, const std::vector<Strs>& pattern) {
  auto& w{world()};
  static bool made{fs::create_directories(dir())};
  (void)made;
  const auto a{render(meaning)}, b{render(pattern)}, key{a.substr(20) + "/" + b.substr(20)};
  static Str lastA, lastB;
  if (a != lastA) write("meaning-groups.txt", lastA = a);
  if (b != lastB) write("pattern-groups.txt", lastB = b);
  const auto ma{load(meaning, false)}, mb{load(pattern, true)};
  vh::trace();
  vh::step(meaning.size() + pattern.size());
  vh::state(key);
  vh::sample([&] { return key; });
  w.real.err.str("");
  const fs::path p{dir()};
  try {
    const kt::GroupData d{w.data, &p};
    vh::outcome("ok");
    if (ma.bad || mb.bad) {
      vh::fail(key, Str{"not refused: row "} + std::to_string(ma.bad ? ma.bad : mb.bad) + " of the " + (ma.bad ? "meaning" : "pattern") + " groups");
      return;
    }
    compareData(d, ma, false, key);
    compareData(d, mb, true, key);
    compareErrors(w.real.err.str(), mb, key);
  } catch (const kt::DomainError& e) {
    const Str what{e.what()};
    vh::outcome(what.substr(0, 30));
    if (!ma.bad && !mb.bad)
      vh::fail(key, "refused: " + what);
    else
      vh::expect(what.find(ma.bad ? "meaning-groups.txt" : "pattern-groups.txt") != Str::npos && what.find("row: " + std::to_string(ma.bad ? ma.bad : mb.bad)) != Str::npos, key, "error doesn't name file and row: " + what);
  } catch (const std::exception& e) {
    vh::fail(key, Str{"unexpected exception: "} + e.what());
  }
}

void files() {
  // no separate word for a Kanji's second name: U+FA30 and U+4FAE U+FE00 are the same Kanji
  Str big;
  Strs many;
  for (auto c : {58, 59, 57, 60, 300}) {
    big.clear();
    for (int i{}; i < c; ++i) big += (i ? "," : "") + world().m.all[static_cast<size_t>(i) + 100].name;
    many.push_back(big);
  }
  Strs numbers{"1", "2", "65535", "65536", "", "x", "-1", "007", "1 ", "0", "99999999999999999999"};
  Strs nameCells{"\u65b9\u5411", "\u963f\uff1a\u30a2", "\uff1a\u30a4", "\u30a2\uff1a", "\uff1a", "", "abc", "\u65b9a", "a\uff1a\u30a2", "\u30a2\u3001\u30a4", "\u4e00\uff1a", "\u4fae\ufe00\uff1a\u30d6", "\ufa30\uff1a", "\u30a2\uff1a\uff1a", "\u4e00\uff1a\u4e8c\uff1a", "\u4e00:\u4e8c", "\u4e00\u4e8c\uff1a", "\U00020b9f\uff1a", " \uff1a"};
  Strs members{"\u4e00,\u4e8c", "", "\u4e00", "\u4e00,\u4e8c,", ",\u4e00,\u4e8c", "\u4e00,,\u4e8c", "\u4e00,\u4e00", "\u4e8c,\u4e00,\u4e00,\u4e8c", "\u4e00,a", "\u4e00,\u30a2", "\u4e00\u3001\u4e8c", "\u4e00, \u4e8c", "\u4e00,\u4e8c ",
      "\u4fae,\ufa30", "\ufa30,\u4fae\ufe00", "\u4fae\ufe00,\u4fae", "\u4e00\ufe00,\u4e8c", "\u4e8c,\u4e09", "\u963f,\u4e8c", "\u4e8c,\u963f", "\u4e09,\u4e8c,\u4e00", ",", "\u4e00\u4e8c,\u4e09", "\U00020b9f,\u4e00"};
  members.insert(members.end(), many.begin(), many.end());
  const std::vector<Strs> good{{"5", "\u6570\u5b57", "\u56db,\u4e94"}}, goodP{{"6", "\u30a2", "\u516d,\u4e03"}};
  for (int p{}; p < 2; ++p)
    for (auto& n : numbers)
      for (auto& c : nameCells)
        if (vh::begin(Str{p ? "pattern" : "meaning"} + " group " + n + " " + c))
          for (auto& x : members)
            for (int pos{}; pos < 2; ++pos) {
              std::vector<Strs> rows{{n, c, x}};
              if (pos) rows.insert(rows.begin(), p ? goodP[0] : good[0]);
              run(p ? good : rows, p ? rows : goodP);
            }
  if (vh::begin("column counts"))
    for (int p{}; p < 2; ++p)
      for (auto& r : std::vector<std::vector<Strs>>{{}, {{"1"}}, {{"1", "\u65b9"}}, {{"1", "\u65b9", "\u4e00,\u4e8c", "x"}}, {{"1", "\u65b9", "\u4e00,\u4e8c"}, {"2"}}}) run(p ? good : r, p ? r : goodP);
  // several groups sharing members
  const std::vector<Strs> pool{{"1", "\u65b9\u5411", "\u4e00,\u4e8c"}, {"2", "\u8272", "\u4e8c,\u4e09"}, {"9", "\u963f\uff1a\u30a2", "\u4e00,\u4e8c"}, {"4", "\uff1a\u30a4", "\u4e09,\u4e8c,\u4e00"}, {"3", "\u4e00\uff1a\u30a4\u30c1", "\u4e09"}, {"7", "\u30a6", "\ufa30,\u4e09"}, {"8", "\u30a8", "\u4fae,\u4fae\ufe00"}, {"10", "\uff1a\u30aa", "\u56db,\u4e94"}, {"11", "\u56db", "\u4e94,x"}};
  const size_t max{vh::g().thorough ? 5U : 4U};
  for (int p{}; p < 2; ++p)
    for (size_t a{}; a < pool.size(); ++a)
      for (size_t b{}; b < pool.size(); ++b)
        if (vh::begin(Str{p ? "pattern" : "meaning"} + " files starting with " + pool[a][1] + " " + pool[b][1]))
          vh::words(pool.size(), 0, max - 2, [&](const auto& w) {
            std::vector<Strs> rows{pool[a], pool[b]};
            for (auto i : w) rows.push_back(pool[i]);
            run(p ? good : rows, p ? rows : goodP);
          });
  // both files, the same Kanji and both wrong
  for (size_t a{}; a < pool.size(); ++a)
    if (vh::begin("both files from " + pool[a][1]))
      for (size_t b{}; b < pool.size(); ++b)
        for (size_t c{}; c < pool.size(); ++c)
          for (size_t d{}; d < pool.size(); ++d) run({pool[a], pool[b]}, {pool[c], pool[d]});
  // each list of Kanji as members
  for (size_t b{}; b < world().m.all.size(); b += 512)
    if (vh::begin("members from " + std::to_string(b))) {
      std::vector<Strs> rows;
      const auto end{std::min(b + 512, world().m.all.size())};
      for (size_t i{b}; i + 1 < end; i += 2) {
        const auto &x{world().m.all[i]}, &y{world().m.all[i + 1]};
        rows.push_back({std::to_string(i), "\u8272", x.name + "," + y.compat});
      }
      run(rows, goodP);
      for (auto& r : rows) r[1] = "\uff1a\u30a4";
      run(good, rows);
      for (size_t i{b}, j{}; i + 1 < end; i += 2, ++j) {
        rows[j][1] = world().m.all[i].name + "\uff1a\u30a4";
        rows[j][2] = world().m.all[i + 1].name;
      }
      run(good, rows);
    }
}

/// the classes themselves
void classes() {
  const auto& all{world().data->nameMap()};
  std::vector<kt::KanjiPtr> k;
  for (auto& i : all) {
    k.push_back(i.second);
    if (k.size() == 70) break;
  }
  const auto check{[&](unsigned n, const Str& name, const std::vector<size_t>& w, const Str& key) {
    kt::Group::Members l;
    Grp m{n, name, {}, "None"};
    std::set<Str> seen;
    Strs dups;
    for (auto i : w) {
      l.push_back(k[i]);
      m.members.push_back(k[i]->name());
      if (!seen.insert(k[i]->name()).second && std::find(dups.begin(), dups.end(), k[i]->name()) == dups.end()) dups.push_back(k[i]->name());
    }
    using enum kt::Group::PatternType;
    for (auto t : {None, Family, Peer, Reading})
      for (int meaning{t == None}; meaning >= 0; --meaning) {
        vh::trace();
        vh::step();
        m.pattern = patternText(t);
        const auto id{key + m.pattern + std::to_string(meaning)};
        const bool bad{w.size() < 2 || w.size() > 58 || !dups.empty() || (t == None && !meaning)};
        try {
          std::unique_ptr<kt::Group> g;
          const auto num{static_cast<kt::Group::Number>(n)};
          if (meaning)
            g = std::make_unique<kt::MeaningGroup>(num, name, l);
          else
            g = std::make_unique<kt::PatternGroup>(num, name, l, t);
          if (vh::expect(!bad, id, "not refused")) compareGroup(*g, m, !meaning, id);
        } catch (const kt::DomainError& e) {
          const Str what{e.what()};
          if (vh::expect(bad, id, "refused: " + what)) {
            vh::expect(what.find(label(m)) != Str::npos, id, "error doesn't name the group: " + what);
            if (w.size() >= 2 && w.size() <= 58)
              for (auto& x : dups) vh::expect(what.find(x) != Str::npos, id, "error doesn't name the duplicate " + x + ": " + what);
          }
        }
      }
  }};
  if (vh::begin("group sizes"))
    for (size_t n{}; n <= 66; ++n) {
      std::vector<size_t> w;
      for (size_t i{}; i < n; ++i) w.push_back(i);
      check(static_cast<unsigned>(n), "\u8272", w, "size" + std::to_string(n));
      if (n > 1)
        for (size_t i{}; i < n - 1; i += 7) {
          auto x{w};
          x.back() = i;
          check(static_cast<unsigned>(n), "\u8272", x, "dup" + std::to_string(n) + "," + std::to_string(i));
        }
    }
  if (vh::begin("group members"))
    vh::words(4, 0, 6, [&](const auto& w) {
      Str key;
      for (auto i : w) key += std::to_string(i);
      vh::state(key);
      check(65535, "\uff1a\u30a2", w, "members" + key);
    });
}

} // namespace

int main(int argc, char** argv) {
  return vh::run(argc, argv, [] {
    shipped();
    classes();
    files();
  });
}
