// Reference model of the Kanji data: everything is derived from the text files
// of a data directory by the rules of the documentation (Kanji.h, KanjiData.h,
// scripts/parseUcdAllFlat.sh), sharing no code with the repository.
#pragma once
#include "ref_conv.h"
#include <cstring>
#include <deque>
#include <fstream>
#include <optional>

namespace ref {

using Str = std::string;
using Strs = std::vector<Str>;

inline Strs split(const Str& s, char d) {
  Strs r;
  Str c;
  for (auto x : s)
    if (x == d) {
      r.push_back(c);
      c.clear();
    } else
      c += x;
  r.push_back(c);
  return r;
}

inline Strs lines(const Str& file) {
  std::ifstream f{file};
  Strs r;
  for (Str l; std::getline(f, l);) r.push_back(l);
  return r;
}

using Rec = std::map<Str, Str>;
inline std::vector<Rec> table(const Str& file) {
  const auto l{lines(file)};
  std::vector<Rec> r;
  if (l.empty()) return r;
  const auto head{split(l[0], '\t')};
  for (size_t i{1}; i < l.size(); ++i) {
    const auto c{split(l[i], '\t')};
    Rec x;
    for (size_t k{}; k < head.size(); ++k) x[head[k]] = k < c.size() ? c[k] : Str{};
    r.push_back(x);
  }
  return r;
}

inline Strs listing(const Str& file) {
  Strs r;
  for (auto& l : lines(file))
    for (auto& t : split(l, ' '))
      if (!t.empty()) r.push_back(t);
  return r;
}

/// number plus kind (0 plain, 1 P, 2 PP, 3 H)
using Moro = std::pair<unsigned, int>;
inline Moro moro(Str s) {
  Moro m{};
  const auto cut{[&](const char* x) {
    const auto n{strlen(x)};
    if (s.size() < n || s.substr(s.size() - n) != x) return false;
    s.resize(s.size() - n);
    return true;
  }};
  if (cut("PP") || cut("''"))
    m.second = 2;
  else if (cut("P") || cut("'"))
    m.second = 1;
  else if (!s.empty() && s[0] == 'H')
    m.second = 3, s.erase(0, 1);
  m.first = s.empty() ? 0 : static_cast<unsigned>(std::stoul(s));
  return m;
}
inline Str moroText(const Moro& m) {
  const auto n{m.first ? std::to_string(m.first) : Str{}};
  return m.second == 1 ? n + "P" : m.second == 2 ? n + "PP" : m.second == 3 ? "H" + n : n;
}

struct UcdRow {
  uint32_t code{};
  Str name, block, version, pinyin, nelson, sources, jSource, linkType, meaning, on, kun;
  unsigned radical{}, strokes{}, vstrokes{};
  Moro moro;
  bool joyo{}, jinmei{};
  Strs links;
  [[nodiscard]] bool linkedReadings() const { return !linkType.empty() && linkType.back() == '*'; }
  [[nodiscard]] bool traditional() const { return linkType == "Traditional" || linkType == "Traditional*"; }
};

struct RadRow {
  unsigned number{};
  Str name, longName, reading;
  Strs alt;
};

struct K {
  Str name, type, compat, meaning, reading, pinyin, reason, extra, grade, level, kyu, newName, link;
  Alts readings; ///< acceptable readings (if converted from Rōmaji)
  Strs oldNames;
  unsigned freq{}, radical{}, strokes{}, vstrokes{}, year{}, number{};
  bool linkedReadings{}, hasNew{}, variant{};
  Moro moro;
  std::vector<unsigned> nelson;
};

inline bool isVs(uint32_t c) { return c >= 0xfe00 && c <= 0xfe0f; }

struct Kanji {
  std::map<Str, UcdRow> ucd;
  std::map<Str, Str> jinmeiLinks; ///< standard name to its Jinmei variant
  std::vector<RadRow> rads;
  std::map<Str, unsigned> radByName;
  std::deque<K> all;
  std::map<Str, const K*> names;
  std::map<Str, Str> compat;
  std::map<Str, Strs> types, grades, levels, kyus;
  Strs freq;
  std::map<Str, unsigned> freqIndex;
  std::map<Str, Str> levelOf, kyuOf, freqReading;
  std::map<Moro, Strs> byMoro;
  std::map<unsigned, Strs> byNelson;

  [[nodiscard]] static bool hasVs(const Str& s) {
    const auto u{dec(s)};
    return u.size() == 2 && isVs(u[1]);
  }
  [[nodiscard]] const UcdRow* findUcd(const Str& name) const {
    Str n{name};
    if (hasVs(name)) {
      const auto i{jinmeiLinks.find(enc(dec(name)[0]))};
      if (i == jinmeiLinks.end()) return nullptr;
      n = i->second;
    }
    const auto i{ucd.find(n)};
    return i == ucd.end() ? nullptr : &i->second;
  }
  [[nodiscard]] const K* find(const Str& name) const {
    const auto c{compat.find(name)};
    const auto i{names.find(c == compat.end() ? name : c->second)};
    return i == names.end() ? nullptr : i->second;
  }

  static Alts ucdReading(const UcdRow& u) {
    const auto conv{[](Str s, Script t) {
      std::replace(s.begin(), s.end(), ' ', ',');
      return fromRomaji(s, t, {});
    }};
    Alts r{conv(u.on, Script::Kata)};
    if (u.kun.empty()) return r;
    Alts result;
    for (auto& i : r)
      for (auto& j : conv((i.empty() ? "" : ",") + u.kun, Script::Hira)) result.push_back(i + j);
    return result;
  }

  /// common attributes
  K make(const Str& type, const Str& name) const {
    K k;
    k.type = type;
    k.name = name;
    k.variant = hasVs(name);
    const auto* u{findUcd(name)};
    k.compat = u ? u->name : name;
    if (u) {
      k.pinyin = u->pinyin;
      k.moro = u->moro;
      for (auto& i : split(u->nelson, ','))
        if (!i.empty()) k.nelson.push_back(static_cast<unsigned>(std::stoul(i)));
      k.radical = u->radical;
      k.strokes = u->strokes;
      k.vstrokes = u->vstrokes;
      k.meaning = u->meaning;
    }
    const auto get{[&name](auto& m) {
      const auto i{m.find(name)};
      return i == m.end() ? typename std::decay_t<decltype(m)>::mapped_type{} : i->second;
    }};
    k.kyu = get(kyuOf);
    if (type == "Jouyou" || type == "Jinmei") k.level = get(levelOf);
    if (type != "Extra" && type != "Kentei" && type != "Ucd") k.freq = get(freqIndex);
    if (type == "Ucd") k.kyu.clear();
    return k;
  }

  const K& add(K k) {
    all.push_back(std::move(k));
    auto& x{all.back()};
    names[x.name] = &x;
    if (x.variant) compat[x.compat] = x.name;
    types[x.type].push_back(x.name);
    if (!x.grade.empty()) grades[x.grade].push_back(x.name);
    if (x.moro.first) byMoro[x.moro].push_back(x.name);
    for (auto i : x.nelson) byNelson[i].push_back(x.name);
    return x;
  }

  /// attributes from UCD for types other than the numbered and linked ones
  void other(K& k) const {
    const auto* u{findUcd(k.name)};
    k.readings = ucdReading(*u);
    ucdLinks(k, *u);
    k.linkedReadings = u->linkedReadings();
  }
  static void ucdLinks(K& k, const UcdRow& u) {
    if (u.links.empty()) return;
    if (u.traditional())
      k.oldNames = u.links;
    else {
      k.hasNew = true;
      k.newName = u.links[0];
    }
  }

  void loadUcd(const Str& file) {
    for (auto& r : table(file)) {
      UcdRow u;
      u.name = r["Name"];
      u.code = dec(u.name)[0];
      u.block = r["Block"];
      u.version = r["Version"];
      u.radical = static_cast<unsigned>(std::stoul(r["Radical"]));
      u.strokes = static_cast<unsigned>(std::stoul(r["Strokes"]));
      if (!r["VStrokes"].empty()) u.vstrokes = static_cast<unsigned>(std::stoul(r["VStrokes"]));
      u.pinyin = r["Pinyin"];
      u.moro = ref::moro(r["MorohashiId"]);
      u.nelson = r["NelsonIds"];
      u.sources = r["Sources"];
      u.jSource = r["JSource"];
      u.joyo = r["Joyo"] == "Y";
      u.jinmei = r["Jinmei"] == "Y";
      if (!r["LinkNames"].empty()) u.links = split(r["LinkNames"], ',');
      u.linkType = r["LinkType"];
      u.meaning = r["Meaning"];
      u.on = r["On"];
      u.kun = r["Kun"];
      if (u.jinmei)
        for (auto& l : u.links) jinmeiLinks[l] = u.name;
      ucd[u.name] = u;
    }
  }
  void loadRadicals(const Str& file) {
    for (auto& r : table(file)) {
      const auto n{split(r["Name"], ' ')};
      RadRow x{static_cast<unsigned>(std::stoul(r["Number"])), n[0], r["LongName"], r["Reading"], {n.begin() + 1, n.end()}};
      radByName[x.name] = x.number;
      rads.push_back(x);
    }
  }

  explicit Kanji(const Str& dir) {
    loadUcd(dir + "/ucd.txt");
    loadRadicals(dir + "/radicals.txt");
    freq = listing(dir + "/frequency.txt");
    for (unsigned i{}; i < freq.size(); ++i) freqIndex[freq[i]] = i + 1;
    static const char *Levels[]{"N5", "N4", "N3", "N2", "N1"}, *Kyus[]{"K10", "K9", "K8", "K7", "K6", "K5", "K4", "K3", "KJ2", "K2", "KJ1", "K1"};
    for (auto* l : Levels)
      for (auto& i : levels[l] = listing(dir + "/jlpt/n" + (l + 1) + ".txt")) levelOf[i] = l;
    for (auto* l : Kyus)
      for (auto& i : kyus[l] = listing(dir + "/kentei/k" + (l + 1) + ".txt")) kyuOf[i] = l;
    for (auto& r : table(dir + "/frequency-readings.txt")) freqReading[r["Name"]] = r["Reading"];
    const auto num{[](const Str& s) { return s.empty() ? 0U : static_cast<unsigned>(std::stoul(s)); }};
    for (auto& r : table(dir + "/jouyou.txt")) {
      auto k{make("Jouyou", r["Name"])};
      k.number = num(r["Number"]);
      k.radical = radByName.at(r["Radical"]);
      k.strokes = num(r["Strokes"]);
      k.vstrokes = 0;
      k.meaning = r["Meaning"];
      k.reading = r["Reading"];
      k.grade = r["Grade"] == "S" ? "S" : "G" + r["Grade"];
      k.year = num(r["Year"]);
      if (!r["OldNames"].empty()) k.oldNames = split(r["OldNames"], ',');
      k.extra = "#" + std::to_string(k.number) + (k.year ? " " + std::to_string(k.year) : "");
      add(k);
    }
    const auto linked{[this](const Str& type, const Str& name, const K& to) {
      auto k{make(type, name)};
      k.link = to.name;
      k.meaning = to.meaning;
      k.reading = to.reading;
      k.hasNew = true;
      k.newName = to.name;
      k.linkedReadings = true;
      add(k);
    }};
    for (auto& l : lines(dir + "/linked-jinmei.txt")) {
      const auto c{split(l, '\t')};
      linked("LinkedJinmei", c[1], *names.at(c[0]));
    }
    const auto before{names};
    for (auto& i : before)
      for (auto& j : i.second->oldNames)
        if (!find(j)) linked("LinkedOld", j, *i.second);
    for (auto& r : table(dir + "/jinmei.txt")) {
      auto k{make("Jinmei", r["Name"])};
      k.number = num(r["Number"]);
      k.radical = radByName.at(r["Radical"]);
      k.reading = r["Reading"];
      k.year = num(r["Year"]);
      k.reason = r["Reason"];
      if (!r["OldNames"].empty()) k.oldNames = split(r["OldNames"], ',');
      k.extra = "#" + std::to_string(k.number) + (k.year ? " " + std::to_string(k.year) : "") + " [" + k.reason + "]";
      auto& x{add(k)};
      for (auto& j : x.oldNames) linked("LinkedJinmei", j, x);
    }
    for (auto& r : table(dir + "/extra.txt")) {
      auto k{make("Extra", r["Name"])};
      k.number = num(r["Number"]);
      k.radical = radByName.at(r["Radical"]);
      k.strokes = num(r["Strokes"]);
      k.vstrokes = 0;
      k.meaning = r["Meaning"];
      k.reading = r["Reading"];
      k.extra = "#" + std::to_string(k.number);
      ucdLinks(k, *findUcd(k.name));
      add(k);
    }
    const auto frequency{[this](const Str& name) {
      if (find(name)) return;
      auto k{make("Frequency", name)};
      other(k);
      if (const auto i{freqReading.find(name)}; i != freqReading.end()) {
        k.readings.clear();
        k.reading = i->second;
      }
      add(k);
    }};
    for (auto& i : freq) frequency(i);
    for (auto* l : Kyus)
      for (auto& i : kyus[l])
        if (!find(i)) {
          auto k{make("Kentei", i)};
          other(k);
          add(k);
        }
    for (auto& i : ucd)
      if (!find(i.first)) {
        auto k{make("Ucd", i.first)};
        other(k);
        add(k);
      }
  }

  /// position of a Kanji's qualifier in .'"^~%+@#*
  static unsigned rank(const K& k) {
    if (k.type == "Jouyou") return 0;
    if (!k.level.empty()) return 1;
    if (k.freq) return 2;
    static const char* t[]{"Jinmei", "LinkedJinmei", "LinkedOld", "Extra"};
    for (unsigned i{}; i < 4; ++i)
      if (k.type == t[i]) return 3 + i;
    if (k.type == "Ucd") return 9;
    return k.kyu == "K1" ? 8 : 7;
  }
};

} // namespace ref
