// C10: Kana to Rōmaji / other Kana and the round trip laws
#include "ref_conv.h"
#include "vh.h"
#include <kt_kana/Converter.h>

using namespace kanji_tools;
using ref::Script;

namespace {

const CharType Types[]{CharType::Hiragana, CharType::Katakana, CharType::Romaji};
Converter& conv() {
  static Converter c;
  return c;
}
String run(Script s, const String& x, Script t, int fl) {
  auto f{ConvertFlags::None};
  if (fl & 1) f |= ConvertFlags::Hepburn;
  if (fl & 2) f |= ConvertFlags::Kunrei;
  if (fl & 4) f |= ConvertFlags::NoProlongMark;
  if (fl & 8) f |= ConvertFlags::RemoveSpaces;
  return conv().convert(Types[static_cast<int>(s)], x, Types[static_cast<int>(t)], f);
}

/// hira/kata spell the same sequence; trip: Rōmaji must convert back to it
void check(const String& hira, const String& kata, bool trip, int maxFlags = 4) {
  for (int src{}; src < 2; ++src) {
    const auto s{static_cast<Script>(src)};
    const auto& in{src ? kata : hira};
    const auto& other{src ? hira : kata};
    // the other script
    const auto k{run(s, in, src ? Script::Hira : Script::Kata, 0)};
    vh::trace();
    vh::step(in.size() / 3);
    if (k != other) vh::fail(in + ":kana", "'" + in + "' converts to '" + k + "', expected '" + other + "'");
    if (maxFlags > 4 && run(s, in, src ? Script::Hira : Script::Kata, 15) != k) vh::fail(in + ":kanaflags", "flags change the result of '" + in + "'");
    for (int fl{}; fl < maxFlags; ++fl) {
      bool open{};
      const auto want{ref::fromKana(in, s, Script::Roma, {(fl & 1) != 0, (fl & 2) != 0, (fl & 4) != 0, (fl & 8) != 0}, &open)};
      const auto got{run(s, in, Script::Roma, fl)};
      vh::trace();
      if (!open && !ref::accepts(want, got)) vh::fail(in + ":romaji:" + std::to_string(fl), "'" + in + "' gives '" + got + "', expected '" + ref::list(want) + "'");
      if (vh::g().traces % 8 == 0) {
        vh::outcome(got.substr(0, 6));
        vh::state(got.substr(0, 3) + std::to_string(got.size()));
      }
      if (fl == 0 && trip)
        for (int t{}; t < 2; ++t) {
          const auto back{run(Script::Roma, got, static_cast<Script>(t), 0)};
          vh::trace();
          if (back != (t ? kata : hira)) vh::fail(in + ":trip", "'" + in + "' -> '" + got + "' -> '" + back + "'");
        }
    }
  }
}

void body() {
  const auto& u{ref::chart().units};
  std::vector<std::pair<String, String>> units;
  for (auto& i : u) units.emplace_back(i.row->hira, i.row->kata);
  const auto nKana{units.size()};
  units.emplace_back("ー", "ー");
  units.emplace_back("ゝ", "ヽ");
  units.emplace_back("ゞ", "ヾ");
  // representatives of every way units interact
  std::vector<std::pair<String, String>> reps;
  for (auto h : {"あ", "い", "う", "お", "か", "き", "し", "ち", "つ", "な", "に", "は", "や", "よ", "を", "ゐ", "ゔ", "ん", "っ", "ぁ", "ぃ", "ゃ", "ょ", "ゎ", "ゕ", "きゃ", "ちゃ", "いぇ", "うぃ", "ゔぁ", "じ", "ぢ", "ぴ"})
    reps.emplace_back(h, ref::chart().hira.at(h)->row->kata);
  for (size_t i{nKana}; i < units.size(); ++i) reps.push_back(units[i]);
  const auto trips{[&](const std::vector<std::pair<String, String>>& w) {
    // not reversible: iteration marks, and a prolong mark after anything but a Kana
    bool prev{};
    for (auto& x : w) {
      if (x.first == "ゝ" || x.first == "ゞ") return false;
      if (x.first == "ー" && !prev) return false;
      prev = x.first != "ー";
    }
    return true;
  }};
  for (auto& a : units)
    if (vh::begin("sequences starting with " + a.first)) {
      check(a.first, a.second, trips({a}), 16);
      vh::state(a.first);
      for (auto& b : units) {
        check(a.first + b.first, a.second + b.second, trips({a, b}));
        for (auto& c : reps) check(a.first + b.first + c.first, a.second + b.second + c.second, trips({a, b, c}), vh::g().thorough ? 4 : 1);
        if (vh::g().thorough)
          for (auto& c : units) check(a.first + b.first + c.first, a.second + b.second + c.second, trips({a, b, c}), 1);
      }
      vh::sample([&] { return a.first + units[7].first; });
    }
  for (auto& a : reps)
    for (auto& b : reps)
      if (vh::begin("words starting with " + a.first + b.first)) {
        vh::words(reps.size(), 1, vh::g().thorough ? 3 : 2, [&](auto& w) {
          std::vector<std::pair<String, String>> s{a, b};
          String h{a.first + b.first}, k{a.second + b.second};
          for (auto i : w) {
            h += reps[i].first;
            k += reps[i].second;
            s.push_back(reps[i]);
          }
          check(h, k, trips(s), w.size() > 1 ? 1 : 4);
        });
      }
  // long texts: each part starts afresh, so repeating it repeats its conversion
  const std::vector<std::pair<String, String>> parts{{"かゝさー。", "カヽサー。"}, {"しゞんあっちゃ漢", "シヾンアッチャ漢"}, {"きゃーゝぢ／", "キャーヽヂ／"}, {"はゞぱゝばゝ・", "ハヾパヽバヽ・"}};
  for (auto& p : parts)
    if (vh::begin("long text of " + p.first))
      for (int src{}; src < 2; ++src)
        for (size_t n{2}; n < (vh::g().thorough ? 70000U : 9000U); n = n * 2 - (n > 8))
          for (int fl{}; fl < 16; fl += n > 300 ? 5 : 1) {
            const auto s{static_cast<Script>(src)};
            const auto& part{src ? p.second : p.first};
            const auto want{ref::fromKana(part, s, Script::Roma, {(fl & 1) != 0, (fl & 2) != 0, (fl & 4) != 0, (fl & 8) != 0})};
            const auto one{run(s, part, Script::Roma, fl)};
            vh::expect(ref::accepts(want, one), "one:" + part + std::to_string(fl), "'" + part + "' gives '" + one + "', expected '" + ref::list(want) + "'");
            String in, out, other;
            for (size_t i{}; i < n; ++i) in += part, out += one, other += src ? p.first : p.second;
            vh::trace();
            vh::step(n);
            if (run(s, in, Script::Roma, fl) != out) vh::fail("long:" + part + std::to_string(n) + ':' + std::to_string(fl), std::to_string(n) + " times '" + part + "' isn't that many times '" + one + "'");
            if (run(s, in, src ? Script::Hira : Script::Kata, fl) != other) vh::fail("longkana:" + part + std::to_string(n) + ':' + std::to_string(fl), std::to_string(n) + " times '" + part + "' isn't converted to the other script");
          }
  // decomposed Kana behave like composed ones
  if (vh::begin("combining marks"))
    for (auto& i : units) {
      const auto& [h, k]{i};
      for (uint32_t m : {0x3099U, 0x309aU}) {
        const auto f{h.substr(0, 3)}, c{ref::compose(f, m)}, ck{ref::compose(k.substr(0, 3), m)};
        if (c.empty()) continue;
        for (int fl{}; fl < 4; ++fl) {
          vh::trace();
          vh::same(run(Script::Hira, f + ref::enc(m) + h.substr(3), Script::Roma, fl), run(Script::Hira, c + h.substr(3), Script::Roma, fl), h + std::to_string(m), "decomposed Hiragana");
          vh::same(run(Script::Kata, k.substr(0, 3) + ref::enc(m) + k.substr(3), Script::Roma, fl), run(Script::Kata, ck + k.substr(3), Script::Roma, fl), k + std::to_string(m), "decomposed Katakana");
        }
        vh::same(run(Script::Hira, f + ref::enc(m) + h.substr(3), Script::Kata, 0), ck + k.substr(3), h + std::to_string(m), "decomposed Hiragana to Katakana");
      }
    }
}

} // namespace

int main(int c, char** v) { return vh::run(c, v, body); }
