// Reference transducers between Rōmaji, Hiragana and Katakana, written from
// the conversion chart and the documentation of Converter (not from its code).
// Where the documentation leaves a choice open all alternatives are produced.
#pragma once
#include "ref_char.h"
#include <algorithm>
#include <unordered_map>

namespace ref {

enum class Script { Hira, Kata, Roma };
struct Flags {
  bool hepburn{}, kunrei{}, noProlong{}, removeSpaces{};
};

struct Unit {
  const KanaRow* row;
  std::string roma, hepburn, kunrei; ///< Rōmaji for no flag / each flag
  [[nodiscard]] const std::string& romaji(Flags f) const {
    return f.hepburn ? (hepburn != roma ? hepburn : f.kunrei ? kunrei : roma) : f.kunrei ? kunrei : roma;
  }
  [[nodiscard]] std::string kana(Script s) const { return s == Script::Hira ? row->hira : row->kata; }
};

struct Chart {
  std::vector<Unit> units;
  std::unordered_map<std::string, const Unit*> roma, hira, kata;
  std::map<std::string, const Unit*> dakuten, plain; ///< by Hiragana
  std::map<char, std::string> wide;
  std::map<std::string, char> narrow;
  Chart() {
    const auto strip{[](std::string s) { return !s.empty() && s[0] == '(' ? s.substr(1, s.size() - 2) : s; }};
    for (auto& r : kanaRows())
      units.push_back({&r, r.roma, *r.hepburn ? strip(r.hepburn) : r.roma, *r.kunrei ? strip(r.kunrei) : r.roma});
    for (auto& u : units) {
      roma[u.roma] = &u;
      for (auto v : u.row->variants) roma[v] = &u;
      hira[u.row->hira] = &u;
      kata[u.row->kata] = &u;
    }
    // voiced / unvoiced partners: the first Kana carries the mark
    for (auto& u : units) {
      const std::string h{u.row->hira}, a{h.substr(0, 3)}, rest{h.substr(3)};
      if (const auto d{compose(a, 0x3099)}; !d.empty())
        if (const auto i{hira.find(d + rest)}; i != hira.end()) {
          dakuten[h] = i->second;
          plain[d + rest] = &u;
        }
      if (const auto d{compose(a, 0x309a)}; !d.empty())
        if (const auto i{hira.find(d + rest)}; i != hira.end()) plain[d + rest] = &u;
    }
    const auto d{[this](const char* n, const char* w) {
      wide[*n] = w;
      narrow[w] = *n;
    }};
    d(" ", "　"), d("!", "！"), d("\"", "”"), d("#", "＃"), d("$", "＄"), d("%", "％"), d("&", "＆"), d("(", "（"), d(")", "）"), d("*", "＊");
    d("+", "＋"), d(",", "、"), d(".", "。"), d("/", "・"), d("0", "０"), d("1", "１"), d("2", "２"), d("3", "３"), d("4", "４"), d("5", "５");
    d("6", "６"), d("7", "７"), d("8", "８"), d("9", "９"), d(":", "："), d(";", "；"), d("<", "＜"), d("=", "＝"), d(">", "＞"), d("?", "？");
    d("@", "＠"), d("[", "「"), d("\\", "￥"), d("]", "」"), d("^", "＾"), d("_", "＿"), d("`", "｀"), d("{", "『"), d("|", "｜"), d("}", "』"), d("~", "〜");
  }
};
inline const Chart& chart() {
  static const Chart c;
  return c;
}

using Alts = std::vector<std::string>; ///< acceptable outputs

inline void append(Alts& a, const std::string& s) {
  for (auto& x : a) x += s;
}
inline void append(Alts& a, const std::string& s, const std::string& t) {
  const auto n{a.size()};
  for (size_t i{}; i < n; ++i) {
    a.push_back(a[i] + t);
    a[i] += s;
  }
}

struct Elem {
  char base;     ///< lower case letter, or 0 for a character that isn't a letter/control
  bool macron{};
  std::string text;
};

inline bool repeatable(char c) { return std::string_view{"bcdfghjkmpqrstvwyz"}.find(c) != std::string_view::npos; }

/// length (0: none) of the shortest syllable starting at e[i] ('n' excluded)
inline size_t syllable(const std::vector<Elem>& e, size_t i, const Unit** u = nullptr) {
  std::string s;
  for (size_t k{i}; k < e.size() && k < i + 3 && e[k].base; ++k) {
    s += e[k].base;
    if (s == "n") continue;
    if (const auto f{chart().roma.find(s)}; f != chart().roma.end()) {
      if (u) *u = f->second;
      return k - i + 1;
    }
    if (e[k].macron) break;
  }
  return 0;
}

inline std::vector<std::string> charsOf(const std::string& s) {
  std::vector<std::string> r;
  std::string c;
  for (Iter i{s}; i.next(c, false);) r.push_back(c);
  return r;
}

/// Rōmaji to Kana
inline Alts fromRomaji(const std::string& in, Script target, Flags f) {
  static const std::map<std::string, char> Macrons{{"ā", 'a'}, {"ī", 'i'}, {"ū", 'u'}, {"ē", 'e'}, {"ō", 'o'}, {"Ā", 'a'}, {"Ī", 'i'}, {"Ū", 'u'}, {"Ē", 'e'}, {"Ō", 'o'}};
  std::vector<Elem> e;
  for (auto& c : charsOf(in)) {
    if (const auto m{Macrons.find(c)}; m != Macrons.end())
      e.push_back({m->second, true, c});
    else if (c.size() == 1 && (isalpha(c[0]) != 0))
      e.push_back({static_cast<char>(tolower(c[0])), false, c});
    else
      e.push_back({0, false, c});
  }
  Alts r{""};
  const auto get{[&](const char* roma) { return chart().roma.at(roma)->kana(target); }};
  bool raw{}; // previous letter was left unconverted
  for (size_t i{}; i < e.size();) {
    auto& x{e[i]};
    const Unit* u{};
    if (!x.base) {
      raw = x.text.size() == 1;
      if (x.text == "'" || x.text == "-" || (x.text == " " && f.removeSpaces))
        raw = false;
      else if (const auto w{x.text.size() == 1 ? chart().wide.find(x.text[0]) : chart().wide.end()}; w != chart().wide.end()) {
        append(r, w->second);
        raw = false;
      } else
        append(r, x.text);
      ++i;
    } else if (const auto n{syllable(e, i, &u)}; n) {
      append(r, u->kana(target));
      if (auto& last{e[i + n - 1]}; last.macron) {
        const std::string v{last.base};
        const auto mark{target == Script::Hira && f.noProlong ? chart().roma.at(v)->kana(target) : std::string{"ー"}};
        if (raw && n == 1) // a macron after a letter that can't be converted
          append(r, mark, "");
        else
          append(r, mark);
      }
      i += n;
      raw = false;
    } else if (x.base == 'n') {
      append(r, get("n"));
      ++i;
      raw = false;
    } else {
      if (i + 1 < e.size() && repeatable(x.base) && !e[i + 1].macron && (e[i + 1].base == x.base || (x.base == 't' && e[i + 1].base == 'c'))) {
        if (syllable(e, i + 1)) {
          append(r, get("ltu"));
          raw = false;
        } else { // doubled consonant of something that isn't a syllable
          append(r, get("ltu"), x.text);
          raw = true;
        }
      } else {
        append(r, x.text);
        raw = true;
      }
      ++i;
    }
  }
  return r;
}

/// Kana of one script to the other one or to Rōmaji; `open` is set if the
/// input contains something whose result isn't documented
inline Alts fromKana(const std::string& in, Script source, Script target, Flags f, bool* open = nullptr) {
  const auto& map{source == Script::Hira ? chart().hira : chart().kata};
  const bool hira{source == Script::Hira};
  const std::string plainMark{hira ? "ゝ" : "ヽ"}, voicedMark{hira ? "ゞ" : "ヾ"};
  static const std::string Small[2]{"ぁぃぅぇぉゃゅょゎ", "ァィゥェォャュョヮ"};
  const auto c{charsOf(in)};
  const auto isUnit{[&](const std::string& s) { return map.contains(s); }};
  const auto unitLen{[&](size_t i) -> size_t {
    if (i >= c.size() || c[i].size() != 3 || !isUnit(c[i])) return 0;
    return i + 1 < c.size() && c[i + 1].size() == 3 && Small[!hira].find(c[i + 1]) != std::string::npos && isUnit(c[i] + c[i + 1]) ? 2 : 1;
  }};
  const auto unit{[&](size_t i, size_t n) { return map.at(n == 2 ? c[i] + c[i + 1] : c[i]); }};
  Alts r{""};
  enum Prev { None, Kana, Prolonged, Repeated, Other } prev{None};
  const Unit* last{};
  const auto vowel{[](char x) { return std::string_view{"aiueo"}.find(x) != std::string_view::npos; }};
  for (size_t i{}; i < c.size();) {
    const bool mark{c[i] == plainMark || c[i] == voicedMark};
    if (target != Script::Roma) {
      if (c[i] == plainMark)
        append(r, hira ? "ヽ" : "ゝ"), ++i;
      else if (c[i] == voicedMark)
        append(r, hira ? "ヾ" : "ゞ"), ++i;
      else if (const auto n{unitLen(i)}; n) {
        append(r, unit(i, n)->kana(target));
        i += n;
      } else
        append(r, c[i++]);
      continue;
    }
    if (mark) {
      if (prev == Kana || (prev == Repeated && last)) {
        const auto& t{c[i] == voicedMark ? chart().dakuten : chart().plain};
        const auto k{t.find(last->row->hira)};
        append(r, (k == t.end() ? last : k->second)->romaji(f));
        // doubled marks repeat the same previous Kana
      } else if (prev == Other && last && open)
        *open = true;
      if (prev != Kana && prev != Repeated) last = prev == Other ? last : nullptr;
      prev = Repeated;
      ++i;
    } else if (c[i] == "ー") {
      if (prev == Repeated && open) *open = true;
      if (prev == Kana && vowel(r[0].back())) {
        for (auto& x : r) {
          const auto v{x.back()};
          x.pop_back();
          x += v == 'a' ? "ā" : v == 'i' ? "ī" : v == 'u' ? "ū" : v == 'e' ? "ē" : "ō";
        }
        last = nullptr;
      } else
        append(r, "ー");
      prev = Prolonged;
      ++i;
    } else if (auto n{unitLen(i)}; n) {
      const auto* u{unit(i, n)};
      const std::string h{u->row->hira};
      last = u;
      prev = Kana;
      if (h == "っ") {
        const auto m{unitLen(i + 1)};
        const auto* v{m ? unit(i + 1, m) : nullptr};
        if (v && v->row->hira != h && repeatable(v->romaji(f)[0])) {
          const auto& s{v->romaji(f)};
          append(r, (s[0] == 'c' ? "t" : s.substr(0, 1)) + s);
          last = v;
          n += m;
        } else
          append(r, u->romaji(f));
      } else {
        append(r, u->romaji(f));
        if (h == "ん")
          if (const auto m{unitLen(i + 1)}; m) {
            const auto first{unit(i + 1, m)->romaji(f)[0]};
            if (vowel(first) || first == 'y')
              append(r, "'");
            else if (vowel(unit(i + 1, 1)->romaji(f)[0])) // not needed, but harmless
              append(r, "'", "");
          }
      }
      i += n;
    } else {
      prev = Other;
      if (const auto d{chart().narrow.find(c[i])}; d != chart().narrow.end())
        append(r, std::string(1, d->second));
      else
        append(r, c[i]);
      ++i;
    }
  }
  return r;
}

inline Alts convert(const std::string& in, Script source, Script target, Flags f, bool* open = nullptr) {
  if (source == target) return {in};
  return source == Script::Roma ? fromRomaji(in, target, f) : fromKana(in, source, target, f, open);
}

/// conversion of all scripts to the target, one after the other
inline Alts convert(const std::string& in, Script target, Flags f, bool* open = nullptr) {
  Alts r{in};
  for (auto s : {Script::Hira, Script::Kata, Script::Roma})
    if (s != target) {
      Alts n;
      for (auto& x : r)
        for (auto& y : convert(x, s, target, f, open)) n.push_back(y);
      std::sort(n.begin(), n.end());
      n.erase(std::unique(n.begin(), n.end()), n.end());
      r = std::move(n);
    }
  return r;
}

inline bool accepts(const Alts& a, const std::string& s) { return std::find(a.begin(), a.end(), s) != a.end(); }
inline std::string list(const Alts& a) {
  std::string r;
  for (auto& x : a) (r += r.empty() ? "" : "' or '") += x;
  return r;
}

} // namespace ref
