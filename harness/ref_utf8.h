// Reference UTF-8 model (RFC 3629 plus the documented error policy), written
// from the standard, sharing no code or tables with the repository.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace ref {

using U32 = std::u32string;

inline bool scalar(uint32_t c) {
  return c <= 0x10ffff && !(c >= 0xd800 && c <= 0xdfff);
}

inline std::string enc(uint32_t c) {
  std::string r;
  if (!scalar(c)) return "\xef\xbf\xbd";
  if (c < 0x80)
    r += static_cast<char>(c);
  else {
    int n{c < 0x800 ? 1 : c < 0x10000 ? 2 : 3};
    static const int lead[]{0, 0xc0, 0xe0, 0xf0};
    r += static_cast<char>(lead[n] | c >> (6 * n));
    while (n--) r += static_cast<char>(0x80 | (c >> (6 * n) & 0x3f));
  }
  return r;
}
inline std::string enc(const U32& s) {
  std::string r;
  for (auto c : s) r += enc(c);
  return r;
}

enum class Err { None, Continuation, TooLong, Missing, Overlong, CodePoint };

struct Seq {
  Err err{Err::None}; ///< (first applicable) reason
  uint32_t code{};
  size_t used{};      ///< bytes consumed by the decoder's error policy
  bool alsoMissing{}; ///< a 5+ byte lead that also lacks continuation bytes
};

/// one sequence at `s[i]`; bytes past the end count as 0
inline Seq one(const std::string& s, size_t i) {
  const auto at{[&](size_t j) -> unsigned {
    return j < s.size() ? static_cast<unsigned char>(s[j]) : 0U;
  }};
  const auto isCont{[&](size_t j) { return at(j) >= 0x80 && at(j) < 0xc0; }};
  const unsigned b{at(i)};
  Seq r;
  if (b < 0x80) return {Err::None, b, 1, false};
  if (b < 0xc0) return {Err::Continuation, 0, 1, false};
  if (b >= 0xf8) {
    r = {Err::TooLong, 0, 1, false};
    for (size_t k{1}; k < 4; ++k)
      if (!isCont(i + k)) r.alsoMissing = true;
    return r;
  }
  const size_t n{b < 0xe0 ? 1U : b < 0xf0 ? 2U : 3U};
  uint32_t c{b & (0x3fU >> n)};
  for (size_t k{1}; k <= n; ++k) {
    if (!isCont(i + k)) return {Err::Missing, 0, k, false};
    c = c << 6 | (at(i + k) & 0x3f);
  }
  static const uint32_t min[]{0, 0x80, 0x800, 0x10000};
  r.used = n + 1;
  r.code = c;
  if (c < min[n])
    r.err = Err::Overlong;
  else if (!scalar(c))
    r.err = Err::CodePoint;
  return r;
}

/// decode: every ill-formed sequence becomes one U+FFFD, decoding resumes at
/// the first byte that can't belong to it
inline U32 dec(const std::string& s, size_t max = 0) {
  U32 r;
  for (size_t i{}; i < s.size() && (!max || r.size() < max);) {
    const auto q{one(s, i)};
    r += q.err == Err::None ? q.code : U'\xfffd';
    i += q.used;
  }
  return r;
}

inline bool wellFormed(const std::string& s) {
  for (size_t i{}; i < s.size();) {
    const auto q{one(s, i)};
    if (q.err != Err::None) return false;
    i += q.used;
  }
  return true;
}

inline std::vector<std::string> chars(const std::string& s) {
  std::vector<std::string> r;
  for (size_t i{}; i < s.size();) {
    const auto q{one(s, i)};
    r.push_back(s.substr(i, q.used));
    i += q.used;
  }
  return r;
}

} // namespace ref
