// C01: UTF-8 <-> UTF-32 conversion is total, exact and never overreads
#include "ref_utf8.h"
#include "vh.h"
#include <kt_utils/Utf8.h>

using namespace kanji_tools;

namespace {

// bytes that separate every decision of a decoder
const std::vector<int> Classes{0x01, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f,
    0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef,
    0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfe, 0xff};
const std::vector<int> Small{0x41, 0x80, 0x9f, 0xa0, 0xbf, 0xc2, 0xe0, 0xe3,
    0xed, 0xf0, 0xf4, 0xff};

std::string kind(const std::string& s) { // shape of the input
  std::string k;
  for (size_t i{}; i < s.size();) {
    const auto q{ref::one(s, i)};
    k += static_cast<char>('0' + static_cast<int>(q.err));
    k += static_cast<char>('0' + q.used);
    i += q.used;
  }
  return k;
}

void checkBytes(const std::string& s, bool full) {
  // exactly sized heap buffer: any read past the terminator is an ASan error
  const std::unique_ptr<char[]> p{new char[s.size() + 1]};
  std::memcpy(p.get(), s.c_str(), s.size() + 1);
  const auto want{ref::dec(s)};
  const auto got{fromUtf8(p.get())};
  vh::trace();
  vh::step(s.size());
  if (got != want) {
    std::string m{"fromUtf8 decoded to"};
    for (const auto c : got) m += ' ' + toUnicode(c);
    m += " expected";
    for (const auto c : want) m += ' ' + toUnicode(c);
    vh::fail("decode:" + vh::hex(s), m);
  }
  if (!full) return;
  vh::state(kind(s));
  vh::expect(fromUtf8(s) == want, "decodeS:" + vh::hex(s),
      "fromUtf8(String) differs from fromUtf8(const char*)");
  const auto w{fromUtf8ToWstring(p.get())};
  vh::expect(std::equal(w.begin(), w.end(), want.begin(), want.end(),
                 [](auto a, auto b) { return static_cast<Code>(a) == b; }),
      "wide:" + vh::hex(s), "fromUtf8ToWstring differs from UTF-32 result");
  vh::expect(fromUtf8ToWstring(s) == w, "wideS:" + vh::hex(s),
      "fromUtf8ToWstring(String) differs");
  const auto first{want.empty() ? Code{} : want[0]};
  vh::expect(getCode(p.get()) == first && getCode(s) == first,
      "getCode:" + vh::hex(s), "getCode isn't the first code point");
  for (size_t m{1}; m <= want.size() + 1; ++m) {
    vh::expect(fromUtf8(p.get(), m) == want.substr(0, m) &&
                   fromUtf8(s, m) == want.substr(0, m),
        "max:" + std::to_string(m) + ':' + vh::hex(s),
        "maxSize didn't return the prefix of the complete conversion");
    vh::trace();
  }
  // re-encoding what was decoded: identity on well-formed input
  const auto back{toUtf8(got)};
  vh::expect(back == ref::enc(want), "reenc:" + vh::hex(s), "re-encode differs");
  if (ref::wellFormed(s))
    vh::expect(back == s, "round:" + vh::hex(s), "round trip changed the text");
  std::wstring ws{got.begin(), got.end()};
  vh::expect(toUtf8(ws) == back, "reencW:" + vh::hex(s), "wide re-encode differs");
  vh::outcome(back);
}

void body() {
  // all byte strings of up to 2 bytes, and all of 3 bytes (one case per lead)
  if (vh::begin("empty input")) {
    vh::trace();
    vh::expect(fromUtf8("").empty() && fromUtf8(static_cast<const char*>(nullptr)).empty() &&
                   fromUtf8(String{}).empty() && fromUtf8ToWstring("").empty() && !getCode("") &&
                   !getCode(static_cast<const char*>(nullptr)) && toUtf8(U"").empty() && toUtf8(std::wstring{}).empty(),
        "empty", "empty or null input must give an empty result");
    vh::state("empty");
  }
  for (int a{1}; a < 256; ++a)
    if (vh::begin("1-2 bytes from " + std::to_string(a))) {
      checkBytes(std::string(1, static_cast<char>(a)), true);
      for (int b{1}; b < 256; ++b)
        checkBytes({static_cast<char>(a), static_cast<char>(b)}, true);
    }
  for (int a{1}; a < 256; ++a)
    if (vh::begin("3 bytes from " + std::to_string(a))) {
      // 3-byte strings starting with an Ascii byte only repeat the 2-byte space
      if (a < 0x80 && !vh::g().thorough && a != 0x41) continue;
      for (int b{1}; b < 256; ++b)
        for (int c{1}; c < 256; ++c)
          checkBytes({static_cast<char>(a), static_cast<char>(b), static_cast<char>(c)},
              vh::g().thorough || (a * 7 + b * 3 + c) % 5 == 0);
    }
  // 4 bytes: complete lead byte, all byte classes after it
  for (int a{0x80}; a < 256; ++a)
    if (vh::begin("4 bytes from " + std::to_string(a)))
      for (auto b : Classes)
        for (auto c : Classes)
          for (auto d : Classes) {
            const std::string s{static_cast<char>(a), static_cast<char>(b),
                static_cast<char>(c), static_cast<char>(d)};
            checkBytes(s, vh::g().thorough || d % 3 == 0);
            if (vh::g().thorough) checkBytes(s + "\xe3\x81\x82", false);
          }
  // longer texts over a small alphabet (resynchronisation after errors)
  const size_t hi{vh::g().thorough ? 7U : 6U};
  for (size_t a{}; a < Small.size(); ++a)
    for (size_t b{}; b < Small.size(); ++b)
      if (vh::begin("words starting " + std::to_string(Small[a]) + ' ' + std::to_string(Small[b])))
        vh::words(Small.size(), 3, hi - 2, [&](auto& w) {
          std::string s{static_cast<char>(Small[a]), static_cast<char>(Small[b])};
          for (auto i : w) s += static_cast<char>(Small[i]);
          checkBytes(s, w.size() < 4);
          vh::sample([&] { return "bytes " + vh::hex(s) + " -> " + toUtf8(fromUtf8(s)); });
        });
  // all UTF-32 values (and invalid ones beyond), one block per case
  for (uint32_t blk{}; blk < 0x112; ++blk)
    if (vh::begin("code points " + std::to_string(blk << 12)))
      for (uint32_t c{blk << 12}; c < (blk + 1) << 12; ++c) {
        const auto want{ref::enc(c)};
        const auto k{"enc:" + std::to_string(c)};
        vh::trace();
        vh::step();
        const bool ok{toUtf8(Code{c}) == want && toUtf8(c) == want &&
                      toUtf8(static_cast<int>(c)) == want};
        if (!ok) vh::fail(k, "toUtf8 gave " + vh::hex(toUtf8(Code{c})) + " expected " + vh::hex(want));
        if (toUtf8(CodeString{c, U'a', c}) != want + 'a' + want ||
            toUtf8(std::wstring{static_cast<wchar_t>(c), L'a'}) != want + 'a')
          vh::fail(k + ":str", "string overload of toUtf8 differs");
        if (c && ref::scalar(c) && (getCode(want) != c || fromUtf8("x" + want + "y") != U"x" + CodeString{c} + U"y"))
          vh::fail(k + ":dec", "code point doesn't survive a round trip");
      }
  for (uint32_t c : {0x110000U, 0x111111U, 0x200000U, 0x7fffffffU, 0x80000000U, 0xd800d800U, 0xffffffffU})
    if (vh::begin("beyond Unicode " + std::to_string(c))) {
      vh::trace();
      vh::same(vh::hex(toUtf8(Code{c})), vh::hex(ref::enc(0xfffd)), "enc:" + std::to_string(c), "toUtf8");
      vh::same(vh::hex(toUtf8(static_cast<int>(c))), vh::hex(ref::enc(0xfffd)), "encI:" + std::to_string(c), "toUtf8(int)");
      vh::same(vh::hex(toUtf8(c)), vh::hex(ref::enc(0xfffd)), "encU:" + std::to_string(c), "toUtf8(uint32_t)");
    }
  // every value of the 11 bits above Unicode (and of the top of the 21 it needs) over code points of every length
  for (uint32_t hi{1}; hi < 1U << 12; hi += 64)
    if (vh::begin("high bits from " + std::to_string(hi)))
      for (uint32_t h{hi}; h < hi + 64; ++h)
        for (const uint32_t low : {0U, 0x41U, 0xe9U, 0x3042U, 0x4e9cU, 0xd800U, 0xfffdU, 0xfffffU}) {
          const auto c{(h << 20) | low};
          const auto want{ref::enc(c)};
          vh::trace();
          vh::step();
          if (toUtf8(Code{c}) != want || toUtf8(c) != want || toUtf8(static_cast<int>(c)) != want ||
              toUtf8(CodeString{U'a', c}) != 'a' + want || toUtf8(std::wstring{L'a', static_cast<wchar_t>(c)}) != 'a' + want)
            vh::fail("high:" + std::to_string(c), "toUtf8 of a value beyond Unicode must be U+FFFD in every form");
        }
  // long texts: every limit around a power of two, and the whole text
  for (int kind{}; kind < 4; ++kind)
    for (const size_t n : {255U, 256U, 257U, 1023U, 4096U, 4097U, 65535U, 65537U, 70000U})
      if (vh::begin("long text " + std::to_string(kind) + ' ' + std::to_string(n))) {
        static const std::vector<std::string> bits{"a", "\xe3\x81\x82", "\xf0\x9f\x98\x80", "\xc3\xa9"};
        std::string s;
        std::u32string want;
        for (size_t i{}; i < n; ++i) {
          const auto& b{bits[kind == 3 ? i % 4 : static_cast<size_t>(kind)]};
          s += b;
          want += ref::dec(b);
        }
        const auto key{"long:" + std::to_string(kind) + ':' + std::to_string(n)};
        vh::trace();
        vh::step(n);
        vh::expect(fromUtf8(s) == want && fromUtf8(s.c_str()) == want, key, "a long text is decoded differently");
        const auto w{fromUtf8ToWstring(s)};
        vh::expect(std::equal(w.begin(), w.end(), want.begin(), want.end(), [](auto a, auto b) { return static_cast<Code>(a) == b; }), key + ":wide", "a long text is decoded differently to wide characters");
        vh::expect(toUtf8(want) == s && toUtf8(w) == s, key + ":back", "a long text is encoded differently");
        for (size_t k{1}; k < 1U << 18; k *= 2)
          for (const size_t m : {k - 1, k, k + 1, 3 * k}) {
            if (!m) continue;
            vh::trace();
            vh::expect(fromUtf8(s, m) == want.substr(0, m) && fromUtf8(s.c_str(), m) == want.substr(0, m), key + ":max" + std::to_string(m), "maxSize " + std::to_string(m) + " of a long text isn't its prefix");
          }
        vh::state(key);
      }
}

} // namespace

int main(int c, char** v) { return vh::run(c, v, body); }
