// C08: formatting helpers, narrowing and argument lists
#include "ref_utf8.h"
#include "vh.h"
#include <algorithm>
#include <kt_utils/Args.h>
#include <kt_utils/Exception.h>
#include <kt_utils/String.h>
#include <limits>
#include <optional>
#include <utility>

using namespace kanji_tools;

namespace {

const BracketType Brackets[]{BracketType::None, BracketType::Curly, BracketType::Round, BracketType::Square};
const char* const Open[]{"", "{", "(", "["};
const char* const Close[]{"", "}", ")", "]"};

/// digits of x in a power of two base, at least `width` of them
String digits(uint64_t x, unsigned bits, size_t width, bool upper) {
  const char* const d{upper ? "0123456789ABCDEF" : "0123456789abcdef"};
  String r;
  for (int shift{60}; shift >= 0; shift -= static_cast<int>(1))
    if (shift % static_cast<int>(bits) == 0) {
      const auto v{(x >> shift) & ((1U << bits) - 1)};
      if (v || !r.empty()) r += d[v];
    }
  if (bits == 1) { // bits above 60
    String hi;
    for (int s{63}; s > 60; --s)
      if (const auto v{(x >> s) & 1U}; v || !hi.empty()) hi += d[v];
    if (!hi.empty()) {
      r.clear();
      for (int s{63}; s >= 0; --s) r += d[(x >> s) & 1U];
      r = r.substr(r.find('1'));
    }
  }
  if (r.empty()) r = "0";
  while (r.size() < width) r = '0' + r;
  return r;
}

template <typename T> void numbers(const String& type, T x, const std::vector<size_t>& widths) {
  const auto u{static_cast<uint64_t>(x)};
  const auto key{[&](const char* f, size_t w) { return String{f} + ':' + type + ':' + std::to_string(u) + ':' + std::to_string(w); }};
  for (auto w : widths) {
    const auto hexW{w ? w : sizeof(T) * 2}, binW{w ? w : sizeof(T) * 8};
    const auto lo{digits(u, 4, hexW, false)}, up{digits(u, 4, hexW, true)}, bin{digits(u, 1, binW, false)};
    vh::trace();
    vh::step(14);
    vh::same(toHex(x, w), lo, key("toHex", w), "toHex");
    vh::same(toHex(x, HexCase::Upper, w), up, key("toHexUpper", w), "upper toHex");
    vh::same(toHex(x, HexCase::Lower, w), lo, key("toHexLower", w), "lower toHex");
    vh::same(toBinary(x, w), bin, key("toBinary", w), "toBinary");
    for (int b{}; b < 4; ++b) {
      vh::same(toHex(x, Brackets[b], w), Open[b] + lo + Close[b], key("toHexBrackets", w), "toHex with brackets");
      vh::same(toHex(x, Brackets[b], HexCase::Upper, w), Open[b] + up + Close[b], key("toHexBracketsUpper", w), "upper toHex with brackets");
      vh::same(toBinary(x, Brackets[b], w), Open[b] + bin + Close[b], key("toBinaryBrackets", w), "toBinary with brackets");
    }
    vh::outcome(std::to_string(lo.size()) + '.' + std::to_string(bin.size()));
  }
  vh::state(type + std::to_string(u));
}

/// like numbers(), for char (digits of its byte)
void charNumber(char c, const std::vector<size_t>& widths) {
  const auto u{static_cast<uint8_t>(c)};
  const auto key{"char:" + std::to_string(u)};
  for (auto w : widths) {
    vh::trace();
    vh::step(3);
    for (int b{}; b < 4; ++b) {
      vh::same(toHex(c, Brackets[b], HexCase::Upper, w), Open[b] + digits(u, 4, w ? w : 2, true) + Close[b], key, "char toHex");
      vh::same(toBinary(c, Brackets[b], w), Open[b] + digits(u, 1, w ? w : 8, false) + Close[b], key, "char toBinary");
    }
  }
}

std::vector<uint64_t> interesting(int bits) {
  std::set<uint64_t> r;
  const uint64_t mask{bits == 64 ? ~uint64_t{} : (uint64_t{1} << bits) - 1};
  for (int i{}; i < bits; ++i) {
    for (int d{-3}; d <= 3; ++d) r.insert(((uint64_t{1} << i) + static_cast<uint64_t>(d)) & mask);
    for (int j{}; j < i; ++j) r.insert((uint64_t{1} << i) | (uint64_t{1} << j));
    for (uint64_t n{}; n < 16; ++n) r.insert((n << (i & ~3)) & mask);
    r.insert(mask >> i);
    r.insert(0xfedcba9876543210ULL >> i & mask);
  }
  return {r.begin(), r.end()};
}

template <typename F> std::optional<int> narrow(const F& f) {
  try {
    return static_cast<uint8_t>(f());
  } catch (const RangeError&) {
    return {};
  }
}

template <typename T> void toChars(const String& type, const std::vector<T>& values) {
  for (auto x : values) {
    const auto key{"toChar:" + type + ':' + std::to_string(x)};
    vh::trace();
    vh::step();
    std::optional<int> want;
    if (std::cmp_greater_equal(int64_t(x), 0) && uint64_t(x) <= 255) want = static_cast<int>(x);
    if constexpr (std::is_same_v<T, int>) {
      vh::expect(narrow([&] { return toChar(x, false); }) == want, key + ":positive", "toChar of a positive int");
      if (x < 0 && x >= -128) want = x + 256;
    }
    vh::expect(narrow([&] { return toChar(x); }) == want, key, "toChar");
    vh::state(key);
    vh::outcome(want ? "char" : "range");
  }
}

String caseOf(const String& s, bool upper, bool firstOnly) {
  String r{s};
  for (size_t i{}; i < r.size() && !(firstOnly && i); ++i)
    if (upper ? r[i] >= 'a' && r[i] <= 'z' : r[i] >= 'A' && r[i] <= 'Z') r[i] = static_cast<char>(r[i] ^ 0x20);
  return r;
}

void strings(const String& s) {
  const auto key{vh::hex(s)};
  vh::trace();
  vh::step(14);
  vh::same(toUpper(s), caseOf(s, true, false), key, "toUpper");
  vh::same(toLower(s), caseOf(s, false, false), key, "toLower");
  vh::same(firstUpper(s), caseOf(s, true, true), key, "firstUpper");
  vh::same(firstLower(s), caseOf(s, false, true), key, "firstLower");
  bool all{true}, any{false};
  for (unsigned char c : s) (c < 128 ? any : all) = c < 128;
  const bool first{!s.empty() && static_cast<unsigned char>(s[0]) < 128};
  vh::expect(isSingleByte(s) == (first && s.size() == 1) && isSingleByte(s, false) == first && isAllSingleByte(s) == all && isAnySingleByte(s) == any, key, "single byte predicates");
  for (int b{}; b < 4; ++b) vh::same(addBrackets(s, Brackets[b]), Open[b] + s + Close[b], key, "addBrackets");
  for (size_t w{}; w < 9; ++w) {
    auto want{s.empty() ? String{"0"} : s};
    while (want.size() < w) want.insert(0, "0");
    vh::same(addLeadingZeroes(s, w), want, key + ':' + std::to_string(w), "addLeadingZeroes");
  }
  // Unicode notation
  const auto u32{ref::dec(s)};
  const CodeString code(u32.begin(), u32.end());
  String text;
  for (auto c : code) (text += text.empty() ? "" : " ") += digits(c, 4, 4, true);
  for (int b{}; b < 4; ++b) {
    vh::same(toUnicode(s, Brackets[b]), Open[b] + text + Close[b], key, "toUnicode of UTF-8");
    vh::same(toUnicode(code, Brackets[b]), Open[b] + text + Close[b], key, "toUnicode of UTF-32");
  }
  vh::same(toUnicode(s), text, key, "toUnicode");
  all = true, any = false;
  for (auto c : code) (c < 128 ? any : all) = c < 128;
  const bool f32{!code.empty() && code[0] < 128};
  vh::expect(isSingleByte(code) == (f32 && code.size() == 1) && isSingleByte(code, false) == f32 && isAllSingleByte(code) == all && isAnySingleByte(code) == any, key, "UTF-32 single byte predicates");
  for (size_t w{}; w < 6; ++w) {
    auto want{code.empty() ? CodeString{U"0"} : code};
    while (want.size() < w) want.insert(0, 1, U'0');
    vh::expect(addLeadingZeroes(code, w) == want, key + ':' + std::to_string(w), "UTF-32 addLeadingZeroes");
  }
  vh::state(s);
}

void args() {
  const char* list[]{"p", "a", "", "b"};
  const auto attempt{[&](const String& key, auto argc, Args::List argv, bool argcOk) {
    vh::trace();
    vh::step();
    vh::state("args" + key);
    int got{};
    try {
      const Args a{argc, argv};
      got = 1;
      bool good{std::cmp_equal(a.size(), argc) && static_cast<bool>(a) == (argc != 0)};
      // only the entries that exist are read
      for (int i{}; i < 65536; i += i < 8 || i > 65530 ? 1 : 17) {
        int r{};
        const char* p{};
        if (argc > 4 && i < argc) continue;
        try {
          p = a[static_cast<Args::Size>(i)];
          r = 1;
        } catch (const RangeError&) {
          r = 2;
        }
        if (r != (i < argc ? 1 : 2) || (i < argc && p != argv[i])) good = false;
      }
      vh::expect(good, "args:" + key, "size or items are wrong");
    } catch (const DomainError&) {
      got = 2;
    } catch (const RangeError&) {
      got = 3;
    }
    const int want{!argcOk ? 3 : (argc == 0) == (argv == nullptr) ? 1 : 2};
    vh::outcome("args" + std::to_string(got));
    vh::expect(got == want, "args:" + key, "construction result " + std::to_string(got) + ", expected " + std::to_string(want));
  }};
  for (int argv{}; argv < 2; ++argv) {
    for (int n : {std::numeric_limits<int>::min(), -65537, -65536, -65535, -2, -1, 0, 1, 2, 3, 4, 65534, 65535, 65536, 65537, 131072, 131073, std::numeric_limits<int>::max()})
      attempt("int" + std::to_string(n) + (argv ? "list" : "null"), n, argv ? list : nullptr, n >= 0 && n <= 65535);
    for (int n : {0, 1, 2, 3, 4, 65535}) attempt("u16" + std::to_string(n) + (argv ? "list" : "null"), static_cast<Args::Size>(n), argv ? list : nullptr, true);
  }
  const Args a;
  vh::expect(!a && a.size() == 0, "args:default", "default arguments");
  const char* two[]{"x", "y"};
  const Args b{two};
  vh::expect(b && b.size() == 2 && b[0] == two[0] && b[1] == two[1], "args:array", "arguments from an array");
}

void body() {
  const std::vector<size_t> widths{0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 32, 33, 64, 65, 70};
  if (vh::begin("8 bit numbers"))
    for (int i{}; i < 256; ++i) {
      numbers("u8", static_cast<uint8_t>(i), widths);
      charNumber(static_cast<char>(i), widths);
    }
  for (int block{}; block < 64; ++block)
    if (vh::begin("16 bit numbers from " + std::to_string(block * 1024)))
      for (int i{block * 1024}; i < block * 1024 + 1024; ++i) numbers("u16", static_cast<uint16_t>(i), vh::g().thorough ? widths : std::vector<size_t>{0, 1, 5, 17});
  if (vh::begin("32 bit numbers"))
    for (auto x : interesting(32)) {
      numbers("u32", static_cast<uint32_t>(x), widths);
      numbers("code", static_cast<Code>(x), widths);
      numbers("char16", static_cast<char16_t>(x), widths);
    }
  if (vh::begin("64 bit numbers"))
    for (auto x : interesting(64)) {
      numbers("u64", x, widths);
      numbers("size_t", static_cast<size_t>(x), widths);
    }
  const Code step{0x4000};
  for (Code lo{}; lo < 0x114000; lo += step)
    if (vh::begin("code points from " + std::to_string(lo)))
      for (Code c{lo}; c < lo + step; ++c) {
        const auto d{digits(c, 4, 4, true)};
        vh::trace();
        for (int b{}; b < 4; ++b) vh::same(toUnicode(c, Brackets[b]), Open[b] + d + Close[b], "toUnicode:" + d, "toUnicode of a code point");
        vh::same(toUnicode(c), d, "toUnicode:" + d, "toUnicode of a code point");
        vh::expect(isSingleByteChar(c) == (c < 128), "single:" + d, "isSingleByteChar");
        vh::state(d);
        vh::step(6);
      }
  if (vh::begin("toChar")) {
    std::vector<int> ints;
    std::vector<uint8_t> u8;
    std::vector<uint16_t> u16;
    std::vector<uint32_t> u32;
    std::vector<size_t> u64;
    std::vector<Code> code;
    for (int i{-70000}; i < 70000; ++i) ints.push_back(i);
    for (auto x : interesting(32)) {
      ints.push_back(static_cast<int>(x));
      u32.push_back(static_cast<uint32_t>(x));
      code.push_back(static_cast<Code>(x));
    }
    for (auto x : interesting(64)) u64.push_back(x);
    for (int i{}; i < 65536; ++i) {
      if (i < 256) u8.push_back(static_cast<uint8_t>(i));
      u16.push_back(static_cast<uint16_t>(i));
      u32.push_back(static_cast<uint32_t>(i));
      u64.push_back(static_cast<size_t>(i));
      code.push_back(static_cast<Code>(i));
    }
    toChars("int", ints);
    toChars("u8", u8);
    toChars("u16", u16);
    toChars("u32", u32);
    toChars("size_t", u64);
    toChars("code", code);
    for (int i{-128}; i < 128; ++i)
      vh::expect(std::cmp_equal(toUChar(static_cast<char>(i)), i & 255) && isSingleByteChar(static_cast<char>(i)) == (i >= 0), "toUChar" + std::to_string(i), "toUChar");
  }
  const std::vector<String> tokens{"a", "Z", "z", "A", "@", "[", "`", "{", "0", " ", "\xe3\x81\x82", "\xc3\xa9", "\x80", "\xe3", "\xf0\x9f\x8e\x89", String(1, '\0')};
  for (size_t a{}; a < tokens.size(); ++a)
    if (vh::begin("strings starting with " + tokens[a]))
      vh::words(tokens.size(), 0, vh::g().thorough ? 4 : 3, [&](auto& w) {
        String s{a == 0 && w.empty() ? "" : tokens[a]};
        for (auto i : w) s += tokens[i];
        // embedded NUL ends the text for the decoder in use, so skip it where decoding matters
        if (s.find('\0') == String::npos)
          strings(s);
        else {
          vh::same(toUpper(s), caseOf(s, true, false), vh::hex(s), "toUpper");
          vh::same(firstLower(s), caseOf(s, false, true), vh::hex(s), "firstLower");
        }
      });
  if (vh::begin("bytes"))
    for (int a{}; a < 256; ++a)
      for (int b{-1}; b < 256; ++b) {
        String s(1, static_cast<char>(a));
        if (b >= 0) s += static_cast<char>(b);
        vh::trace();
        vh::same(toUpper(s), caseOf(s, true, false), vh::hex(s), "toUpper");
        vh::same(toLower(s), caseOf(s, false, false), vh::hex(s), "toLower");
        vh::same(firstUpper(s), caseOf(s, true, true), vh::hex(s), "firstUpper");
        vh::same(firstLower(s), caseOf(s, false, true), vh::hex(s), "firstLower");
        vh::step(4);
      }
  if (vh::begin("args")) args();
}

} // namespace

int main(int c, char** v) { return vh::run(c, v, body); }
