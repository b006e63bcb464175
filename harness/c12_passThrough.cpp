// C12: delimiters, other characters and the laws of splitting
#include "ref_conv.h"
#include "vh.h"
#include <kt_kana/Converter.h>

using namespace kanji_tools;
using ref::Script;

namespace {

const CharType Types[]{CharType::Hiragana, CharType::Katakana, CharType::Romaji};
const char Names[]{'H', 'K', 'R'};
Converter& conv() {
  static Converter c;
  return c;
}
ConvertFlags flags(int fl) {
  auto f{ConvertFlags::None};
  if (fl & 1) f |= ConvertFlags::Hepburn;
  if (fl & 2) f |= ConvertFlags::Kunrei;
  if (fl & 4) f |= ConvertFlags::NoProlongMark;
  if (fl & 8) f |= ConvertFlags::RemoveSpaces;
  return f;
}
ref::Flags refFlags(int fl) { return {(fl & 1) != 0, (fl & 2) != 0, (fl & 4) != 0, (fl & 8) != 0}; }
/// source 3 means all
String run(int s, const String& x, int t, int fl) { return s == 3 ? conv().convert(x, Types[t], flags(fl)) : conv().convert(Types[s], x, Types[t], flags(fl)); }
ref::Alts want(int s, const String& x, int t, int fl, bool& open) {
  return s == 3 ? ref::convert(x, static_cast<Script>(t), refFlags(fl), &open) : ref::convert(x, static_cast<Script>(s), static_cast<Script>(t), refFlags(fl), &open);
}
String id(int s, int t, int fl) { return String{s == 3 ? '*' : Names[s]} + Names[t] + std::to_string(fl) + ":"; }

void check(const String& x, bool all = false) {
  for (int s{}; s < 4; ++s)
    for (int t{}; t < 3; ++t)
      for (int fl{}; fl < 16; ++fl) {
        if (!all && fl != 0 && fl != 4 && fl != 8) continue;
        bool open{};
        const auto w{want(s, x, t, fl, open)};
        if (open) continue;
        const auto got{run(s, x, t, fl)};
        vh::trace();
        vh::step(x.size());
        if (!ref::accepts(w, got)) vh::fail(id(s, t, fl) + vh::show(x), "'" + x + "' gives '" + got + "', expected '" + ref::list(w) + "'");
        if (vh::g().traces % 16 == 0) vh::outcome(got), vh::state(id(s, t, fl) + x.substr(0, 4));
      }
}

/// converting the pieces around a delimiter is converting the whole
void split(const String& a, const String& d, const String& b) {
  for (int s{}; s < 4; ++s)
    for (int t{}; t < 3; ++t)
      for (int fl : {0, 3, 12}) {
        const auto whole{run(s, a + d + b, t, fl)}, parts{run(s, a, t, fl) + run(s, d, t, fl) + run(s, b, t, fl)};
        vh::trace();
        vh::step(2);
        if (whole != parts) vh::fail("split:" + id(s, t, fl) + a + d + b, "'" + a + d + b + "' gives '" + whole + "', its pieces '" + parts + "'");
      }
}

void body() {
  const bool deep{vh::g().thorough};
  // every printable Ascii character, every wide delimiter and a range of others, alone and next to others
  std::vector<String> one;
  for (char c{' '}; c < 0x7f; ++c) one.emplace_back(1, c);
  for (auto& [n, w] : ref::chart().wide) one.push_back(w);
  const std::vector<String> others{"漢", "﨑", "〇", "々", "㐀", "𠀀", "逸︁", "é", "ß", "Ω", "я", "😀", "ｶ", "Ａ", "１", "、", "※", "→", "■", "ﾟ", "\t", "\n", "\x7f", "ヷ", "ゟ", "ヿ", "゛", "゜", "゠", "ゝ", "ヽ", "ゞ", "ヾ", "ー", "‐", "　", "…", "“", "～", "あ", "ん", "っ", "ア", "ン", "ッ", "か\u3099", "ā", "Ō", "ñ", "ŭ", "ｔ", "가", "ﾊﾟ", "½", "€"};
  one.insert(one.end(), others.begin(), others.end());
  for (auto& a : one)
    if (vh::begin("pairs starting with " + vh::show(a))) {
      check(a, true);
      for (auto& b : one) {
        check(a + b);
        if (deep)
          for (auto& c : {"a", "k", "n", "ン", "漢", " ", "ー"}) check(a + b + c);
      }
      for (auto& x : {"a", "ka", "n", "kk", "あ", "ん", "カ", "ッ", "漢"}) {
        check(x + a, true);
        check(a + x, true);
        for (auto& y : {"a", "ya", "t", "n", "あ", "や", "ア", "ー", "漢"}) check(x + a + y, deep);
      }
    }
  // words over a token of every class
  const std::vector<String> tok{"a", "ki", "n", "t", "ō", "か", "ん", "っ", "ガ", "ン", "ー", "漢", " ", "　", "/", "・", "'", "-", "1", "、", "é", "\xe3", "\x80", "😀", "X"};
  for (size_t a{}; a < tok.size(); ++a)
    for (size_t b{}; b < tok.size(); ++b)
      if (vh::begin("words starting with " + vh::show(tok[a] + tok[b]))) {
        vh::words(tok.size(), 0, deep ? 2 : 1, [&](auto& w) {
          auto s{tok[a] + tok[b]};
          for (auto i : w) s += tok[i];
          check(s, w.size() < 2);
        });
        vh::sample([&] { return tok[a] + tok[b] + tok[a]; });
      }
  // splitting at delimiters
  std::vector<String> pieces{""};
  for (auto a : {"a", "ka", "n", "t", "kya", "ō", "あ", "ん", "っ", "きゃ", "カ", "ン", "ッ", "漢", "é", "kk", "si"}) {
    pieces.emplace_back(a);
    for (auto b : {"a", "ya", "n", "t", "つ", "ん", "ヤ", "ッ", "漢"}) pieces.push_back(String{a} + b);
  }
  std::vector<String> delims;
  for (auto& [n, w] : ref::chart().wide) delims.emplace_back(1, n), delims.push_back(w);
  for (auto& d : delims)
    if (vh::begin("splitting at '" + d + "'"))
      for (auto& a : pieces)
        for (auto& b : pieces) split(a, d, b);
  for (auto d : {"'", "-"}) // only separate Rōmaji
    if (vh::begin(String{"splitting at "} + d))
      for (auto& a : pieces)
        for (auto& b : pieces)
          for (int t : {0, 1})
            for (int fl : {0, 12}) {
              vh::trace();
              vh::same(run(2, a + d + b, t, fl), run(2, a, t, fl) + run(2, b, t, fl), "sep:" + id(2, t, fl) + a + d + b, "separated Rōmaji");
            }
  // long texts
  for (auto d : {"、", "漢", " ", "　", "/", "・", "。"})
    for (auto& a : {"ka", "n", "あっち", "カン", "ō", "é", "かガa"})
      if (vh::begin(String{"long text of "} + a + d))
        for (size_t n{2}; n < (deep ? 20000U : 2500U); n = n * 2 - (n > 8))
          for (int s{}; s < 4; ++s)
            for (int t{}; t < 3; ++t)
              for (int fl : {0, 4, 8, 15}) {
                const auto one{run(s, String{a} + d, t, fl)};
                String in, out;
                for (size_t i{}; i < n; ++i) in += a, in += d, out += one;
                vh::trace();
                vh::step(n);
                if (run(s, in, t, fl) != out) vh::fail("long:" + id(s, t, fl) + a + d + std::to_string(n), std::to_string(n) + " times '" + a + d + "' isn't that many times '" + one + "'");
              }
  // narrow -> wide -> narrow
  std::vector<String> rev;
  for (auto& [n, w] : ref::chart().wide) rev.emplace_back(1, n);
  for (auto& a : rev)
    if (vh::begin("there and back from '" + a + "'"))
      for (auto& b : rev)
        for (auto c : {"", "ka", "漢", " "})
          for (int t : {0, 1})
            for (int fl : {0, 4}) {
              const auto s{a + b + c};
              vh::trace();
              vh::step(2);
              vh::same(run(t, run(2, s, t, fl), 2, fl), s, "back:" + id(2, t, fl) + s, "narrow to wide and back");
              vh::same(run(3, run(3, s, t, fl), 2, fl), s, "back*:" + id(2, t, fl) + s, "narrow to wide and back");
            }
  // every other character, between Kana and Rōmaji
  for (uint32_t p{}; p < 0x31000; p += 0x400)
    if (vh::begin("code points from " + std::to_string(p)))
      for (uint32_t c{p ? p : 1}; c < p + 0x400; ++c) {
        if (c >= 0xd800 && c < 0xe000) continue;
        const auto x{ref::enc(c)};
        if (!deep && c % 8 && (c < 0x2000 || c > 0x3400) && c > 0x400) continue;
        for (auto& s : {x, "ka" + x + "n", "カ" + x + "ん"})
          for (int src{}; src < 4; ++src)
            for (int t{}; t < 3; ++t) {
              bool open{};
              const auto w{want(src, s, t, 0, open)};
              if (open) continue;
              const auto got{run(src, s, t, 0)};
              vh::trace();
              if (!ref::accepts(w, got)) vh::fail(id(src, t, 0) + vh::show(s), "'" + s + "' gives '" + got + "', expected '" + ref::list(w) + "'");
            }
      }
}

} // namespace

int main(int c, char** v) { return vh::run(c, v, body); }
