// C09: Rōmaji to Kana
#include "ref_conv.h"
#include "vh.h"
#include <kt_kana/Converter.h>

using namespace kanji_tools;
using ref::Script;

namespace {

const CharType Types[]{CharType::Hiragana, CharType::Katakana, CharType::Romaji};
ConvertFlags flags(ref::Flags f) {
  auto r{ConvertFlags::None};
  if (f.hepburn) r |= ConvertFlags::Hepburn;
  if (f.kunrei) r |= ConvertFlags::Kunrei;
  if (f.noProlong) r |= ConvertFlags::NoProlongMark;
  if (f.removeSpaces) r |= ConvertFlags::RemoveSpaces;
  return r;
}

void check(const String& s, bool extra = true) {
  for (int t{}; t < 2; ++t)
    for (int fl{}; fl < (extra ? 4 : 1); ++fl) {
      const ref::Flags f{false, false, (fl & 1) != 0, (fl & 2) != 0};
      const auto want{ref::convert(s, Script::Roma, static_cast<Script>(t), f)};
      static Converter c;
      const auto got{c.convert(CharType::Romaji, s, Types[t], flags(f))};
      vh::trace();
      vh::step(s.size());
      if (!ref::accepts(want, got))
        vh::fail(s + (t ? ":Katakana:" : ":Hiragana:") + std::to_string(fl), "'" + s + "' converts to '" + got + "', expected '" + ref::list(want) + "'");
      if (want.size() > 1) vh::count("inputs with an open alternative");
      if (vh::g().traces % 16 == 0) {
        vh::outcome(got.substr(0, 9));
        vh::state(std::to_string(s.size()) + '.' + std::to_string(got.size()) + '.' + std::to_string(want.size()) + got.substr(0, 3));
      }
    }
}

void body() {
  const auto& all{ref::chart().roma};
  std::vector<String> keys;
  for (auto& i : all) keys.push_back(i.first);
  std::sort(keys.begin(), keys.end());
  // every spelling in every letter case, alone and with every kind of neighbour
  const std::vector<String> around{"", "a", "ka", "n", "N", "ta", "kk", "k", "t", "ky", "'", "-", " ", "!", "7", "あ", "カ", "漢", "ā", "Ō", "\t", "l", "é", "tt", "ch", "shi", "nn", "n'"};
  for (auto& k : keys)
    if (vh::begin("spelling " + k))
      for (unsigned mask{}; mask < 1U << k.size(); ++mask) {
        String s{k};
        for (size_t i{}; i < s.size(); ++i)
          if (mask >> i & 1) s[i] = static_cast<char>(toupper(s[i]));
        vh::state("spelling" + s);
        for (auto& a : around)
          for (auto& b : around) check(a + s + b, mask == 0);
        // doubled first letter in every case
        for (char d : {s[0], static_cast<char>(s[0] ^ 0x20), 't', 'T'})
          for (auto& a : around) check(a + d + s, mask == 0);
        // macron on the final vowel
        static const std::map<char, std::pair<String, String>> mac{{'a', {"ā", "Ā"}}, {'i', {"ī", "Ī"}}, {'u', {"ū", "Ū"}}, {'e', {"ē", "Ē"}}, {'o', {"ō", "Ō"}}};
        if (const auto m{mac.find(k.back())}; m != mac.end()) {
          const auto base{s.substr(0, s.size() - 1)};
          for (auto& x : {m->second.first, m->second.second})
            for (auto& a : around)
              for (auto& b : around) check(a + base + x + b);
          // a circumflex isn't a macron: it is passed through
          check(base + "ô");
        }
      }
  // every pair (thorough: triple) of spellings
  std::vector<String> units{keys};
  for (auto x : {"kk", "tt", "n'", "n-", "N", "ō", "KA"}) units.push_back(x);
  for (auto& a : units)
    if (vh::begin("sequences starting with " + a))
      for (auto& b : units) {
        check(a + b, false);
        if (vh::g().thorough)
          for (auto& c : units) check(a + b + c, false);
        else
          for (auto c : {"a", "n", "tt", "kya", "ni", "ltu", "nyo", "chi"}) check(a + b + c, false);
      }
  // every word of letters
  std::vector<String> abc;
  for (char c{'a'}; c <= 'z'; ++c) abc.push_back({c});
  for (auto x : {"A", "N", "T", "K", "'", "-", " ", "ā", "Ō", "\t", "あ", "漢", "3"}) abc.push_back(x);
  for (size_t a{}; a < abc.size(); ++a)
    for (size_t b{}; b < abc.size(); ++b)
      if (vh::begin("words starting with " + abc[a] + abc[b]))
        vh::words(abc.size(), 0, vh::g().thorough ? 3 : 2, [&](auto& w) {
          String s{abc[a] + abc[b]};
          for (auto i : w) s += abc[i];
          check(s, w.size() < 2);
          vh::sample([&] { return s; });
        });
  // longer words over the letters that interact
  const std::vector<String> core{"n", "k", "y", "t", "c", "h", "a", "s", "u", "ō"};
  for (size_t a{}; a < core.size(); ++a)
    for (size_t b{}; b < core.size(); ++b)
      if (vh::begin("long words starting with " + core[a] + core[b]))
        vh::words(core.size(), 3, vh::g().thorough ? 5 : 4, [&](auto& w) {
          String s{core[a] + core[b]};
          for (auto i : w) s += core[i];
          check(s, false);
        });
  // long texts: the conversion of a repeated text is the repeated conversion when it starts afresh each time
  const std::vector<String> parts{"kyaku ", "ttāN'i-", "shinnyo/", "gakkō desu.", "vyī ", "漢xtsu ", "nn ", "a  ", "Rōmaji,tcha "};
  for (auto& p : parts)
    if (vh::begin("long text of " + p))
      for (size_t n{2}; n < (vh::g().thorough ? 70000U : 9000U); n = n * 2 - (n > 8))
        for (int t{}; t < 2; ++t)
          for (int fl{}; fl < 4; ++fl) {
            const auto want{ref::convert(p, Script::Roma, static_cast<Script>(t), {false, false, (fl & 1) != 0, (fl & 2) != 0})};
            static Converter c;
            const auto f{flags({false, false, (fl & 1) != 0, (fl & 2) != 0})};
            const auto one{c.convert(CharType::Romaji, p, Types[t], f)};
            vh::expect(ref::accepts(want, one), "one:" + p + std::to_string(fl), "'" + p + "' gives '" + one + "', expected '" + ref::list(want) + "'");
            String in, out;
            for (size_t i{}; i < n; ++i) in += p, out += one;
            const auto got{c.convert(CharType::Romaji, in, Types[t], f)};
            vh::trace();
            vh::step(n);
            size_t at{};
            while (at < got.size() && at < out.size() && got[at] == out[at]) ++at;
            if (got != out) vh::fail("long:" + p + std::to_string(n) + ':' + std::to_string(t) + std::to_string(fl), std::to_string(n) + " times '" + p + "' is converted differently from byte " + std::to_string(at) + " of the result");
          }
}

} // namespace

int main(int c, char** v) { return vh::run(c, v, body); }
