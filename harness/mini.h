// Small data directories in which up to three Kanji have every combination of
// roles in the list files (shared by C19, C33 and C34)
#pragma once
#include "cmp_kanji.h"
#include <filesystem>

namespace fs = std::filesystem;
using ref::Str;

struct Role {
  enum Base { Jouyou, Jinmei, Linked, LinkedVs, Old, OldOfJinmei, OldOfJinmeiVs, Extra, Other } base;
  bool freq;
  int level, kyu, link; ///< indexes, 0 is none
};
inline const char* Levels[]{"", "n5", "n1"};
inline const char* Kyus[]{"", "k10", "kJ1", "k1"};
inline const char* Links[]{"", "Traditional", "Simplified*", "Traditional*"};

inline std::vector<Role> roles(bool every = vh::g().thorough) {
  std::vector<Role> r;
  for (int b{}; b <= Role::Other; ++b)
    for (int f{}; f < 2; ++f)
      for (int l{}; l < 3; ++l)
        for (int k{}; k < 4; ++k)
          for (int n{}; n < 4; ++n) {
            const auto base{static_cast<Role::Base>(b)};
            if (f && base == Role::Extra) continue;
            if (l && base > Role::Jinmei) continue;
            if (n && base < Role::Extra) continue;
            if ((f || k) && (base == Role::LinkedVs || base == Role::OldOfJinmeiVs)) continue; // lists have single characters
            if ((k == 2 || n == 3 || l == 2) && !every) continue;
            r.push_back({base, f > 0, l, k, n});
          }
  return r;
}

// standard form, what is used for the plain roles, compatibility character
struct Slot {
  const char *jouyou, *jinmei, *name, *compat;
};
inline const Slot Slots[]{{"\u4fae", "\u732a", "\u9f3b", "\ufa30"}, {"\u50e7", "\u51dc", "\u6b6f", "\ufa31"}, {"\u6d77", "\u6e1a", "\u9f8d", "\ufa45"}};

// four byte characters: these also have long lists of everything that can have several values
inline const Slot WideSlots[]{{"\U00020b9f", "\U0002000b", "\U00020089", "\U0002f800"}, {"\U00020164", "\U00020213", "\U0002032b", "\U0002f801"}, {"\U00020381", "\U00020509", "\U0002070e", "\U0002f802"}};
inline const Slot* slots(bool wide) { return wide ? WideSlots : Slots; }
/// names and codes of linked characters ('n' is different for each Kanji)
inline std::vector<Str> manyNames(size_t n) {
  std::vector<Str> r;
  for (size_t i{}; i < 7; ++i) r.push_back(ref::enc(static_cast<uint32_t>((i % 2 ? 0x4e00 : 0x2a700) + n * 16 + i)));
  return r;
}

inline void put(const Str& f, const Str& s) {
  std::ofstream o{f};
  o << s;
}

struct Mini {
  Str dir;
  explicit Mini(const Str& name = "mini") : dir{vh::g().scratch + "/" + name} {
    for (const char* s : {"", "/jlpt", "/kentei"}) fs::create_directories(dir + s);
    for (const char* s : {"radicals.txt", "meaning-groups.txt", "pattern-groups.txt"}) fs::copy_file(vh::g().data + "/" + s, dir + "/" + s, fs::copy_options::overwrite_existing);
    for (const char* s : {"n5", "n4", "n3", "n2", "n1"}) put(dir + "/jlpt/" + s + ".txt", "");
    for (const char* s : {"k10", "k9", "k8", "k7", "k6", "k5", "k4", "k3", "kJ2", "k2", "kJ1", "k1"}) put(dir + "/kentei/" + s + ".txt", "");
  }
  void write(const std::vector<Role>& r, bool wide = false) {
    std::map<Str, Str> level, kyu;
    for (auto* i : Levels) level[i] = "";
    for (auto* i : Kyus) kyu[i] = "";
    Str jou{"Number\tName\tRadical\tOldNames\tYear\tStrokes\tGrade\tMeaning\tReading\n"}, jin{"Number\tName\tRadical\tOldNames\tYear\tReason\tReading\n"},
        ext{"Number\tName\tRadical\tStrokes\tMeaning\tReading\n"}, linked, freq, fr{"Name\tReading\n"},
        ucd{"Code\tName\tBlock\tVersion\tRadical\tStrokes\tVStrokes\tPinyin\tMorohashiId\tNelsonIds\tSources\tJSource\tJoyo\tJinmei\tLinkCodes\tLinkNames\tLinkType\tMeaning\tOn\tKun\tJapanese\n"};
    int nums[3]{}, freqs{}, rows{};
    const auto more{[wide](size_t i, const char* sep) {
      Str t;
      if (wide)
        for (auto& o : manyNames(i)) t += sep + o;
      return t;
    }};
    static const Str Long{" A B CHI DA E FU GA HI I JA KA RO MU NYU SHITSU TSUKURU UTSUSHI WAKARANAI YOROSHIKU"};
    const auto row{[&](const Str& name, const char* kind, const std::vector<Str>& links, const Str& type) {
      Str link, linkCode;
      ++rows;
      const auto c{ref::dec(name)[0]};
      const auto u{[](uint32_t x) {
        char b[16];
        snprintf(b, sizeof b, "%04X", x);
        return Str{b};
      }};
      for (auto& l : links) {
        link += (link.empty() ? "" : ",") + l;
        linkCode += (linkCode.empty() ? "" : ",") + u(ref::dec(l)[0]);
      }
      ucd += u(c) + "\t" + name + "\tCJK\t1.1\t" + std::to_string(100 + rows) + "\t" + std::to_string(10 + rows) + "\t" + (rows % 2 ? std::to_string(11 + rows) : Str{}) + "\tpin" +
             std::to_string(rows % 3) + "\t" + std::to_string(5 + rows % 3) + (rows % 4 ? "" : "P") + "\t" + (rows % 3 ? "7," : "") + (wide ? "9,3,8,1,6," : "") + std::to_string(rows) + "\tGJ\tJ0\t" +
             (kind[0] == 'J' ? "Y" : "") + "\t" + (kind[0] == 'N' ? "Y" : "") + "\t" + linkCode + "\t" + link + "\t" + type + "\tucd" + std::to_string(rows) +
             "\tKAN TOU" + (wide ? Long : "") + "\tYAMA" + (wide ? Long : "") + "\t\n";
    }};
    for (size_t i{}; i < r.size(); ++i) {
      const auto& x{r[i]};
      const auto& s{slots(wide)[i]};
      // the name used in the lists, and rows this role needs besides its own
      const bool vs{x.base == Role::LinkedVs || x.base == Role::OldOfJinmeiVs};
      Str std{x.base == Role::OldOfJinmei || x.base == Role::OldOfJinmeiVs ? s.jinmei : s.jouyou};
      if (x.base == Role::OldOfJinmeiVs) std = s.jouyou; // (the character with a compatibility form)
      Str name{vs ? std + ref::enc(0xfe00) : s.name};
      const auto jouyou{[&](const Str& n, const Str& old) {
        jou += std::to_string(++nums[0]) + "\t" + n + "\t一\t" + old + "\t" + (i % 2 ? "1981" : "") + "\t" + std::to_string(3 + i) + "\t" + (i ? "S" : "2") + "\tm" + n + "\tr" + n + "\n";
        row(n, "J", {}, "");
      }};
      const auto jinmei{[&](const Str& n, const Str& old) {
        jin += std::to_string(++nums[1]) + "\t" + n + "\t丨\t" + old + "\t2004\tPrint\tr" + n + "\n";
        row(n, "N", {}, "");
      }};
      switch (x.base) {
      case Role::Jouyou: jouyou(name, ""); break;
      case Role::Jinmei: jinmei(name, ""); break;
      case Role::Linked:
      case Role::LinkedVs:
        jouyou(std, i % 2 ? name : "");
        linked += std + "\t" + name + (wide ? "\tsecond\tthird" : "") + "\n";
        row(vs ? s.compat : s.name, "N", {std}, "Jinmei");
        break;
      case Role::Old:
        jouyou(std, name + more(i, ","));
        row(name, "", {std}, "Simplified*");
        if (wide)
          for (auto& o : manyNames(i)) row(o, "", {std}, "Simplified*");
        break;
      case Role::OldOfJinmei:
      case Role::OldOfJinmeiVs:
        jinmei(std, name + more(i, ","));
        row(vs ? s.compat : s.name, "N", {std}, "Compatibility*");
        if (wide)
          for (auto& o : manyNames(i)) row(o, "N", {o}, "Compatibility*");
        break;
      case Role::Extra:
        ext += std::to_string(++nums[2]) + "\t" + name + "\t亅\t9\tm" + name + "\tr" + name + "\n";
        [[fallthrough]];
      case Role::Other: {
        std::vector<Str> l;
        if (x.link) l.push_back(s.jouyou);
        if (x.link && wide)
          for (auto& o : manyNames(i)) l.push_back(o);
        row(name, "", l, Links[x.link]);
        break;
      }
      }
      if (x.base == Role::Other && x.freq && i == 1) fr += name + "\tよみ" + (wide ? "、よみかた、ながいよみかた、もっとながいよみかた" : "") + "\n";
      if (x.freq) {
        freq += name + "\n";
        ++freqs;
      }
      if (x.level) level[Levels[x.level]] += name + (i % 2 ? "\n" : " ");
      if (x.kyu) kyu[Kyus[x.kyu]] += name + (i % 2 ? " " : "\n");
    }
    // same number of frequencies everywhere
    static const char* fill[]{"山", "川", "田"};
    for (auto* f : fill) row(f, "", {}, "");
    for (int i{}; freqs < 3; ++i, ++freqs) freq += Str{fill[i]} + "\n";
    for (auto* i : Levels)
      if (*i) put(dir + "/jlpt/" + i + ".txt", level[i]);
    for (auto* i : Kyus)
      if (*i) put(dir + "/kentei/" + i + ".txt", kyu[i]);
    put(dir + "/jouyou.txt", jou);
    put(dir + "/jinmei.txt", jin);
    put(dir + "/linked-jinmei.txt", linked);
    put(dir + "/extra.txt", ext);
    put(dir + "/frequency.txt", freq);
    put(dir + "/frequency-readings.txt", fr);
    put(dir + "/ucd.txt", ucd);
  }
};
