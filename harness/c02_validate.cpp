// C02: UTF-8 validation verdicts are exact, with a truthful error reason
#include "ref_utf8.h"
#include "vh.h"
#include <kt_utils/Utf8.h>

using namespace kanji_tools;
using ref::Err;

namespace {

const std::vector<int> Classes{0x01, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f,
    0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef,
    0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfe, 0xff};

void check(const std::string& s) {
  const std::unique_ptr<char[]> p{new char[s.size() + 1]};
  std::memcpy(p.get(), s.c_str(), s.size() + 1);
  const auto q{ref::one(s, 0)};
  for (const bool sizeOne : {false, true}) {
    // the set of verdicts that are true of this input
    std::set<Utf8Result> ok;
    auto mb{MBUtf8Result::NotValid};
    if (s.empty() || static_cast<unsigned char>(s[0]) < 0x80) {
      mb = MBUtf8Result::NotMultiByte;
      ok = {Utf8Result::Valid};
    } else
      switch (q.err) {
      case Err::None:
        if (sizeOne && s.size() > q.used)
          ok = {Utf8Result::StringTooLong};
        else {
          ok = {Utf8Result::Valid};
          mb = MBUtf8Result::Valid;
        }
        break;
      case Err::Continuation: ok = {Utf8Result::ContinuationByte}; break;
      case Err::TooLong:
        ok = {Utf8Result::CharTooLong};
        if (q.alsoMissing) ok.insert(Utf8Result::MissingBytes);
        break;
      case Err::Missing: ok = {Utf8Result::MissingBytes}; break;
      case Err::Overlong: ok = {Utf8Result::Overlong}; break;
      case Err::CodePoint: ok = {Utf8Result::InvalidCodePoint}; break;
      }
    const auto key{(sizeOne ? "one:" : "any:") + vh::hex(s)};
    auto e{Utf8Result::Valid};
    const auto got{validateMBUtf8(p.get(), e, sizeOne)};
    vh::trace();
    vh::step(q.used);
    if (got != mb || !ok.contains(e))
      vh::fail(key, "verdict " + std::to_string(static_cast<int>(got)) + " reason " +
                        std::to_string(static_cast<int>(e)) + ", expected verdict " +
                        std::to_string(static_cast<int>(mb)) + " reason " +
                        std::to_string(static_cast<int>(*ok.begin())));
    // 'error' is only set for invalid input
    for (const auto before : {Utf8Result::StringTooLong, Utf8Result::Overlong}) {
      auto keep{before};
      const auto again{validateMBUtf8(p.get(), keep, sizeOne)};
      auto keepS{before};
      const auto againS{validateMBUtf8(s, keepS, sizeOne)};
      if (again != got || againS != got || keep != (got == MBUtf8Result::NotValid ? e : before) || keepS != keep)
        vh::fail("before:" + key, "the verdict depends on the earlier value of 'error', or a value was set for input that isn't invalid");
    }
    auto e2{Utf8Result::Valid};
    const auto got2{validateMBUtf8(s, e2, sizeOne)};
    if (got2 != got || e2 != e || validateMBUtf8(s, sizeOne) != got ||
        validateMBUtf8(p.get(), sizeOne) != got || validateUtf8(s, sizeOne) != e ||
        validateUtf8(p.get(), sizeOne) != e ||
        isValidMBUtf8(s, sizeOne) != (mb == MBUtf8Result::Valid) ||
        isValidUtf8(s, sizeOne) != ok.contains(Utf8Result::Valid))
      vh::fail("overload:" + key, "an overload or convenience form disagrees with the verdict");
    const auto st{std::to_string(static_cast<int>(got)) + ' ' + std::to_string(static_cast<int>(e)) +
                  ' ' + std::to_string(q.used) + (sizeOne ? " one" : " any")};
    vh::state(st);
    vh::outcome(st);
    vh::sample([&] { return vh::hex(s) + " -> " + st; });
  }
}

void body() {
  if (vh::begin("empty and null")) {
    check("");
    auto e{Utf8Result::Valid};
    vh::expect(validateMBUtf8(static_cast<const char*>(nullptr), e) == MBUtf8Result::NotMultiByte &&
                   e == Utf8Result::Valid,
        "null", "null must be 'not multi-byte' without an error");
  }
  for (int a{1}; a < 256; ++a)
    if (vh::begin("1-3 bytes from " + std::to_string(a))) {
      check(std::string(1, static_cast<char>(a)));
      for (int b{1}; b < 256; ++b) {
        check({static_cast<char>(a), static_cast<char>(b)});
        if (a >= 0xc0 || vh::g().thorough)
          for (int c{1}; c < 256; ++c)
            check({static_cast<char>(a), static_cast<char>(b), static_cast<char>(c)});
      }
    }
  for (int a{0xc0}; a < 256; ++a)
    if (vh::begin("4-5 bytes from " + std::to_string(a)))
      for (auto b : Classes)
        for (auto c : Classes)
          for (auto d : Classes) {
            const std::string s{static_cast<char>(a), static_cast<char>(b), static_cast<char>(c), static_cast<char>(d)};
            check(s);
            for (auto x : {'z', '\x80', '\xc3', '\xe9', '\xf0'}) {
              if (!vh::g().thorough && x != '\x80' && x != 'z') continue;
              check(s + x);
            }
          }
  for (uint32_t blk{}; blk < 0x110; ++blk)
    if (vh::begin("every scalar value from " + std::to_string(blk << 12)))
      for (uint32_t c{blk << 12}; c < (blk + 1) << 12; ++c)
        if (c && ref::scalar(c)) {
          const auto s{ref::enc(c)};
          check(s);
          check(s + s);
        }
  for (const std::string c : {"a", "\xc3\xa9", "\xe3\x81\x82", "\xf0\x9f\x98\x80", "\xed\xa0\x80", "\x80"})
    for (size_t n{2}; n < 70000; n = n < 40 ? n + 1 : n * 2)
      if (vh::begin("long text " + vh::hex(c) + ' ' + std::to_string(n))) {
        std::string s;
        for (size_t i{}; i < n; ++i) s += c;
        check(s);
      }
}

} // namespace

int main(int c, char** v) { return vh::run(c, v, body); }
