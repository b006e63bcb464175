// Reference model of "characters" (UTF-8 plus selectors and voice marks)
#pragma once
#include "ref_kana.h"
#include "ref_utf8.h"
#include <map>
#include <memory>

namespace ref {

inline bool selector(uint32_t c) { return c >= 0xfe00 && c <= 0xfe0f; }
inline bool mark(uint32_t c) { return c == 0x3099 || c == 0x309a; }

/// precomposed Kana for base + voice mark ("" if there is none).  Taken from
/// the chart: dakuten = next code point, han-dakuten = the one after.
inline std::string compose(const std::string& base, uint32_t m) {
  static const std::map<std::string, std::pair<std::string, std::string>> t{[] {
    std::map<std::string, std::pair<std::string, std::string>> r;
    for (int k{}; k < 2; ++k) {
      const uint32_t o{k ? 0x60U : 0U};
      const auto d{[&](uint32_t c, bool h) {
        r[enc(c + o)] = {enc(c + 1 + o), h ? enc(c + 2 + o) : ""};
      }};
      for (uint32_t c{0x304b}; c <= 0x3061; c += 2) d(c, false); // ka .. chi
      for (uint32_t c : {0x3064U, 0x3066U, 0x3068U}) d(c, false); // tsu te to
      for (uint32_t c{0x306f}; c <= 0x307b; c += 3) d(c, true); // ha .. ho
      r[enc(0x3046 + o)] = {enc(0x3094 + o), ""}; // u
    }
    return r;
  }()};
  const auto i{t.find(base)};
  return i == t.end() ? "" : m == 0x3099 ? i->second.first : i->second.second;
}

/// a text that is cheap to copy
struct Text {
  Text(const std::string& x) : p{std::make_shared<const std::string>(x)} {}
  operator const std::string&() const { return *p; }
  std::shared_ptr<const std::string> p;
};

struct Iter {
  Text text;
  size_t pos{}, errors{}, variants{}, marks{};
  bool next(std::string& out, bool onlyMB) {
    const std::string& s{text};
    while (pos < s.size()) {
      const auto q{one(s, pos)};
      if (q.err != Err::None) {
        ++pos;
        ++errors;
        continue;
      }
      if (q.code < 0x80) {
        ++pos;
        if (onlyMB) continue;
        out = s.substr(pos - 1, 1);
        return true;
      }
      if (selector(q.code) || mark(q.code)) { // nothing to modify
        pos += q.used;
        ++errors;
        continue;
      }
      out = s.substr(pos, q.used);
      pos += q.used;
      if (pos < s.size()) {
        const auto n{one(s, pos)};
        if (n.err == Err::None && selector(n.code)) {
          out += s.substr(pos, n.used);
          pos += n.used;
          ++variants;
        } else if (n.err == Err::None && mark(n.code)) {
          const auto c{compose(out, n.code)};
          pos += n.used;
          if (c.empty())
            ++errors;
          else {
            ++marks;
            out = c;
          }
        }
      }
      return true;
    }
    return false;
  }
};

} // namespace ref
