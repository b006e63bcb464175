// C15: display width
#include "ref_size.h"
#include "vh.h"
#include <iomanip>
#include <kt_kana/DisplaySize.h>

using namespace kanji_tools;

namespace {

void pad(const String& s, size_t w, size_t n, const String& key) {
  for (bool left : {true, false}) {
    std::ostringstream o;
    o << (left ? std::left : std::right) << std::setfill('.') << std::setw(wideSetw(s, n)) << s;
    const auto fill{n > w ? String(n - w, '.') : String{}};
    vh::trace();
    vh::same(o.str(), left ? s + fill : fill + s, key + ":pad" + std::to_string(n), "'" + s + "' padded to " + std::to_string(n));
  }
}

void check(const String& s, const String& key, bool pads = true) {
  const auto w{ref::width(s)};
  const auto codes{ref::dec(s)};
  CodeString u{codes.begin(), codes.end()};
  vh::trace(2);
  vh::step(u.size());
  vh::outcome(std::to_string(w) + ":" + std::to_string(s.size()));
  vh::same(displaySize(s), w, key, "displaySize('" + s + "')");
  vh::same(displaySize(s.c_str()), w, key + ":c", "displaySize(char*)");
  vh::same(displaySize(u), w, key + ":u", "displaySize(CodeString)");
  if (pads)
    for (size_t n{}; n < w + 4; ++n) pad(s, w, n, key);
}

void body() {
  for (uint32_t b{}; b < 0x120000; b += 0x1000)
    if (vh::begin("code points from " + std::to_string(b)))
      for (uint32_t c{b}; c < b + 0x1000; ++c) {
        const auto w{ref::width(c)};
        vh::trace();
        vh::step();
        vh::state(std::to_string(w) + ":" + std::to_string(c >> 6));
        const auto key{"U+" + std::to_string(c)};
        vh::same(displaySize(CodeString(1, c)), w, key, "width of the code point");
        vh::same(displaySize(CodeString{c, 'a', c}), 2 * w + 1, key + ":2", "width of the doubled code point");
        if (c && c < 0x110000 && (c < 0xd800 || c > 0xdfff)) {
          check(ref::enc(c), key, c % 16 == 0 || vh::g().thorough);
          if (vh::g().thorough || (c & 7) == 0) check("ア" + ref::enc(c), key + ":a", false);
        }
      }
  const std::vector<String> tok{"a", "é", "あ", "ア", "日", "𠀀", "😀", "ｱ", "Ａ", "・", "\u3099", "\u309a", "\ufe00", "\ufe0f", "\u0301", "\u200b", "　", "〿", "ㄴ", "가", "\x01", "\xe3", "\x80", "－"};
  for (size_t a{}; a < tok.size(); ++a)
    if (vh::begin("words starting with " + vh::show(tok[a])))
      vh::words(tok.size(), 0, vh::g().thorough ? 4 : 3, [&](auto& w) {
        String s{tok[a]};
        for (auto i : w) s += tok[i];
        check(s, vh::hex(s), w.size() < 2);
        if (vh::g().traces % 64 == 0) vh::state(s);
        vh::sample([&] { return s; });
      });
  if (vh::begin("every requested width"))
    for (auto s : {"", "a", "日本", "か\u3099x", "é", "逸\ufe01"})
      for (size_t n{}; n < 300; ++n) pad(s, ref::width(s), n, vh::hex(s));
}

} // namespace

int main(int c, char** v) { return vh::run(c, v, body); }
