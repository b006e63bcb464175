// C03: character classification equals the documented Unicode block sets
#include "ref_utf8.h"
#include "vh.h"
#include <kt_utils/BlockRange.h>
#include <regex>

using namespace kanji_tools;

namespace {

using Ranges = std::vector<std::pair<uint32_t, uint32_t>>;

// transcription of the Unicode block chart for the blocks named in the docs
const Ranges Hira{{0x3040, 0x309f}}, Kata{{0x30a0, 0x30ff}, {0x31f0, 0x31ff}},
    Common{{0x3400, 0x4dbf}, {0x4e00, 0x9fff}, {0xf900, 0xfaff}, {0x20000, 0x2a6df}},
    Rare{{0x2e80, 0x2eff}, {0x2a700, 0x2ebef}, {0x2f800, 0x2fa1f}, {0x30000, 0x3134f}},
    Punct{{0x2000, 0x206f}, {0x3000, 0x303f}, {0xfff0, 0xffff}},
    Sym{{0x2100, 0x214f}, {0x2190, 0x21ff}, {0x2200, 0x22ff}, {0x2500, 0x257f}, {0x25a0, 0x25ff},
        {0x2600, 0x26ff}, {0x2ff0, 0x2fff}, {0x3190, 0x319f}, {0x31c0, 0x31ef}},
    Letter{{0x80, 0xff}, {0x100, 0x17f}, {0x180, 0x24f}, {0x2150, 0x218f}, {0x2460, 0x24ff},
        {0x2c60, 0x2c7f}, {0xff00, 0xffef}},
    Marks{{0xfe00, 0xfe0f}, {0x3099, 0x309a}};

bool in(const Ranges& r, uint32_t c) {
  for (auto& [a, b] : r)
    if (c >= a && c <= b) return true;
  return false;
}
Ranges operator+(Ranges a, const Ranges& b) {
  a.insert(a.end(), b.begin(), b.end());
  return a;
}

struct Pred {
  const char* name;
  std::function<bool(const String&, bool)> is;
  std::function<bool(const String&)> all;
  Ranges set;
};

const std::vector<Pred>& preds() {
  static const std::vector<Pred> p{
      {"Hiragana", [](auto& s, bool o) { return isHiragana(s, o); }, isAllHiragana, Hira},
      {"Katakana", [](auto& s, bool o) { return isKatakana(s, o); }, isAllKatakana, Kata},
      {"Kana", [](auto& s, bool o) { return isKana(s, o); }, isAllKana, Hira + Kata},
      {"CommonKanji", [](auto& s, bool o) { return isCommonKanji(s, o); }, isAllCommonKanji, Common},
      {"RareKanji", [](auto& s, bool o) { return isRareKanji(s, o); }, isAllRareKanji, Rare},
      {"Kanji", [](auto& s, bool o) { return isKanji(s, o); }, isAllKanji, Common + Rare},
      {"MBSymbol", [](auto& s, bool o) { return isMBSymbol(s, o); }, isAllMBSymbol, Sym},
      {"MBLetter", [](auto& s, bool o) { return isMBLetter(s, o); }, isAllMBLetter, Letter},
      {"MBPunctuation", [](auto& s, bool o) { return isMBPunctuation(s, true, o); }, isAllMBPunctuation, Punct},
      {"Recognized", [](auto& s, bool o) { return isRecognizedUtf8(s, o); }, isAllRecognizedUtf8,
          Hira + Kata + Common + Rare + Punct + Sym + Letter}};
  return p;
}

void check(const std::vector<uint32_t>& w) {
  String s;
  for (auto c : w) s += ref::enc(c);
  static std::vector<char> m; // memo of membership per predicate
  const auto& ps{preds()};
  const auto key{[&](const char* f) {
    String k{f};
    for (auto c : w) k += ':' + toHex(c);
    return k;
  }};
  for (size_t i{}; i < ps.size(); ++i) {
    const auto& p{ps[i]};
    const bool first{!w.empty() && in(p.set, w[0])};
    const bool one{first && (w.size() == 1 || (w.size() == 2 && in(Marks, w[1])))};
    bool all{true}, mark{false};
    for (auto c : w)
      if (mark && in(Marks, c))
        mark = false;
      else if (in(p.set, c))
        mark = true;
      else {
        all = false;
        break;
      }
    vh::trace(3);
    if (p.is(s, false) != first) vh::fail(key((String{"first:"} + p.name).c_str()), String{"is"} + p.name + " (first char only) is wrong for '" + s + "'");
    // whether a wide space may carry a mark is left open for punctuation
    const bool open{i == 8 && w.size() > 1 && w[0] == 0x3000};
    if (!open && p.is(s, true) != one) vh::fail(key((String{"one:"} + p.name).c_str()), String{"is"} + p.name + " (one char) is wrong for '" + s + "'");
    if (p.all(s) != all) vh::fail(key((String{"all:"} + p.name).c_str()), String{"isAll"} + p.name + " is wrong for '" + s + "'");
    if (one || all) vh::outcome(String{p.name} + (one ? "1" : "0") + (all ? "1" : "0") + std::to_string(w.size()));
  }
  // default arguments: one character, wide space not punctuation
  const bool sp{!w.empty() && w[0] == 0x3000};
  const bool p1{!sp && !w.empty() && in(Punct, w[0]) && (w.size() == 1 || (w.size() == 2 && in(Marks, w[1])))};
  vh::expect(isMBPunctuation(s) == p1, key("punct"), "isMBPunctuation must exclude the wide space by default");
  if (w.size() == 1) {
    const auto c{static_cast<Code>(w[0])};
    const bool h{in(Hira, c)}, k{in(Kata, c)}, kj{in(Common + Rare, c)}, r{in(preds()[9].set, c)};
    vh::expect(isHiragana(s) == h && isKatakana(s) == k && isKana(s) == (h || k) && isKanji(s) == kj &&
                   isRecognizedUtf8(s) == r && isNonSpacing(c) == in(Marks, c),
        key("default"), "default 'one character' predicates are wrong");
  }
  vh::step(w.size());
}

void body() {
  if (vh::begin("empty")) {
    check({});
    vh::state("empty");
  }
  const std::vector<uint32_t> marks{0xfe00, 0xfe0f, 0x3099, 0x309a};
  // every scalar value in every context of marks and neighbours
  for (uint32_t blk{}; blk < 0x1100; ++blk)
    if (vh::begin("code points from " + toHex(blk << 8)))
      for (uint32_t c{blk << 8}; c < (blk + 1) << 8; ++c) {
        if (!c || !ref::scalar(c)) continue;
        check({c});
        const bool rec{in(preds()[9].set, c)};
        if (!rec && !vh::g().thorough && c > 0x3ff && (c & 0xff) > 0x0f && (c & 0xff) < 0xf0) continue;
        for (auto m : marks) {
          check({c, m});
          check({m, c});
        }
        check({c, c});
        check({c, 0x3042});
        check({0x4e9c, c});
        check({c, 0xfe00, 0xfe00});
        if (vh::g().thorough) {
          check({'a', c});
          check({c, 'a'});
          check({c, 0xfe01, c});
          check({0x30a2, 0x3099, c});
        }
        String st;
        for (auto& p : preds()) st += in(p.set, c) ? '1' : '0';
        vh::state(st + std::to_string(c >> 8));
        vh::sample([&] { return toUnicode(static_cast<Code>(c)) + " classes " + st; });
      }
  // words over representatives of every class (both ends of a block of each)
  const std::vector<uint32_t> rep{'a', 0x3042, 0x309f, 0x30a0, 0x31ff, 0x3400, 0x9fff, 0x2a6df, 0x2e80, 0x2f800,
      0x3000, 0x3001, 0x2500, 0xff21, 0x3099, 0xfe0f, 0x1f600};
  for (size_t a{}; a < rep.size(); ++a)
    for (size_t b{}; b < rep.size(); ++b)
      if (vh::begin("words from " + toHex(rep[a]) + ' ' + toHex(rep[b])))
        vh::words(rep.size(), 0, vh::g().thorough ? 4 : 2, [&](auto& w) {
          std::vector<uint32_t> v{rep[a], rep[b]};
          for (auto i : w) v.push_back(rep[i]);
          check(v);
        });
  // an Ascii character after the first one
  for (auto c : rep)
    for (uint32_t a{1}; a < 0x80; ++a)
      if (vh::begin("Ascii after " + toHex(c) + ' ' + toHex(a))) {
        check({c, a});
        check({c, a, c});
        check({c, 0xfe00, a});
        String s{ref::enc(c)};
        s += static_cast<char>(a);
        if (c == 0x3000)
          vh::expect(!isMBPunctuation(s, true, true) && isMBPunctuation(s, true, false) && !isMBPunctuation(s, false, true) && !isMBPunctuation(s, false, false),
              "space:" + vh::hex(s), "a wide space followed by another character isn't one character");
      }
  // long texts of one class, alone and with a foreign character near each end
  for (auto c : rep)
    for (size_t n{5}; n < (vh::g().thorough ? 70000U : 5000U); n = n * 2 - (n % 2))
      if (vh::begin("long text of " + toHex(c) + ' ' + std::to_string(n)))
        for (const uint32_t other : {0U, 0x62U, 0x10fffdU, 0xfe00U})
          for (const size_t at : {size_t{0}, size_t{1}, n / 2, n - 1}) {
            std::vector<uint32_t> v(n, c);
            if (other) v[at] = other;
            check(v);
            if (!other) break;
          }
  // ranges handed to regular expressions
  struct Re {
    const char* name;
    std::wstring range;
    Ranges set;
  };
  const Ranges vs{{0xfe00, 0xfe0f}};
  const std::vector<Re> res{{"Kanji", KanjiRange(), Common + Rare + vs}, {"WideLetter", WideLetterRange(), {{0xff00, 0xffef}}},
      {"Hiragana", HiraganaRange(), Hira}, {"Katakana", KatakanaRange(), Kata}, {"Kana", KanaRange(), Hira + Kata}};
  for (auto& r : res)
    for (uint32_t blk{}; blk < 0x11; ++blk)
      if (vh::begin(String{"regex range "} + r.name + " plane " + std::to_string(blk))) {
        const std::wregex re{std::wstring{L"["} + r.range + L"]"}, neg{std::wstring{L"[^"} + r.range + L"]"};
        for (uint32_t c{blk << 16}; c < (blk + 1) << 16; ++c) {
          if (!ref::scalar(c) || !c) continue;
          const std::wstring ws(1, static_cast<wchar_t>(c));
          vh::trace();
          vh::step();
          if (std::regex_match(ws, re) != in(r.set, c) || ((c & 63) == 0 && std::regex_match(ws, neg) == in(r.set, c)))
            vh::fail(String{"regex:"} + r.name + ':' + toHex(c), String{r.name} + "Range membership is wrong for " + toUnicode(static_cast<Code>(c)));
        }
      }
}

} // namespace

int main(int c, char** v) { return vh::run(c, v, body); }
