// C17: Morohashi ids and stroke counts against an independent grammar
#include "vh.h"
#include <algorithm>
#include <kt_kanji/MorohashiId.h>
#include <kt_kanji/Strokes.h>
#include <kt_utils/Exception.h>
#include <optional>
#include <tuple>

using namespace kanji_tools;
using Type = MorohashiId::IdType;

namespace {

struct Id {
  unsigned long n{};
  int type{}; // 0 plain, 1 prime, 2 double prime, 3 supplemental
};

/// what `s` spells, or nothing if it must be refused
std::optional<Id> parse(const std::string& s) {
  if (s.empty()) return Id{};
  size_t b{}, e{s.size()};
  Id r;
  const auto ends{[&](const char* x) { return s.size() >= strlen(x) && s.substr(s.size() - strlen(x)) == x; }};
  if (ends("PP") || ends("''"))
    r.type = 2, e -= 2;
  else if (ends("P") || ends("'"))
    r.type = 1, --e;
  else if (s[0] == 'H')
    r.type = 3, ++b;
  if (b == e) return {};
  for (; b < e; ++b) {
    if (s[b] < '0' || s[b] > '9') return {};
    r.n = r.n * 10 + static_cast<unsigned long>(s[b] - '0');
    if (r.n > 65535) r.n = 1000000;
  }
  if (r.n > 65535 || (r.type && !r.n)) return {};
  return r;
}

std::string print(const Id& i) {
  const auto n{i.n ? std::to_string(i.n) : std::string{}};
  return i.type == 1 ? n + "P" : i.type == 2 ? n + "PP" : i.type == 3 ? "H" + n : n;
}

void one(const std::string& s) {
  vh::trace();
  vh::step(s.size());
  const auto want{parse(s)};
  try {
    const MorohashiId m{s};
    if (!want) {
      vh::fail(s, "accepted '" + vh::show(s) + "' as " + m.toString());
      return;
    }
    vh::state(print(*want));
    vh::same(static_cast<unsigned long>(m.id()), want->n, s + ":id", "id of '" + vh::show(s) + "'");
    vh::same(static_cast<int>(m.idType()), want->type, s + ":type", "type of '" + vh::show(s) + "'");
    vh::same(m.toString(), print(*want), s + ":string", "printed form of '" + vh::show(s) + "'");
    std::ostringstream o;
    o << m;
    vh::same(o.str(), print(*want), s + ":stream", "streamed form of '" + vh::show(s) + "'");
    vh::same(static_cast<bool>(m), want->n != 0, s + ":bool", "is '" + vh::show(s) + "' set");
    const MorohashiId again{m.toString()};
    vh::expect(again == m && (again <=> m) == 0, s + ":again", "reading back '" + m.toString() + "' gives another id");
  } catch (const DomainError& e) {
    vh::outcome("refused");
    if (want) vh::fail(s, "refused '" + vh::show(s) + "': " + e.what());
    vh::expect(std::string{e.what()}.find(s.c_str()) != std::string::npos, s + ":what", std::string{"error doesn't name the id: "} + e.what());
  } catch (const std::exception& e) {
    vh::fail(s, "'" + vh::show(s) + "' gave an unexpected exception: " + e.what());
  }
}

void morohashi() {
  const std::string a{"01569P'Hhp +-X"};
  const size_t max{vh::g().thorough ? 6U : 5U};
  for (char f : a + '\0')
    for (char g : a + '\0')
      if (vh::begin(std::string{"words "} + (f ? std::string(1, f) : "") + (g ? std::string(1, g) : "")))
        vh::words(a.size(), 0, max - 2, [&](const auto& w) {
          std::string s;
          if (f) s += f;
          if (g) s += g;
          for (auto i : w) s += a[i];
          one(s);
        });
  // affixes more than once and around longer numbers
  static const std::vector<std::string> pre{"", "H", "HH", "P", "'", "h", " ", "0", "00", "H0", "+", "0x", std::string(1, '\0')},
      post{"", "P", "'", "PP", "''", "P'", "'P", "PPP", "'''", "H", "0", "p", " ", "\"", "’", std::string(1, '\0')};
  for (unsigned block{}; block < 70; ++block)
    if (vh::begin("numbers " + std::to_string(block * 1000)))
      for (unsigned n{block * 1000}; n < (block + 1) * 1000; ++n)
        for (auto& p : pre)
          for (auto& q : post) {
            if (!vh::g().thorough && n % 7 && n > 1000 && n < 65000 && (p.size() > 1 || q.size() > 2)) continue;
            one(p + std::to_string(n) + q);
          }
  if (vh::begin("long"))
    for (const char* n : {"65534", "65535", "65536", "65540", "655350", "655351", "655360", "131071", "131072", "4294967295", "4294967296", "4294967297", "18446744073709551615",
             "18446744073709551616", "18446744073709551617", "99999999999999999999999999", "340282366920938463463374607431768211457"})
      for (size_t zeros{}; zeros < 300; zeros += zeros < 12 ? 1 : 17)
        for (auto& p : pre)
          for (auto& q : post) one(p + std::string(zeros, '0') + n + q);
  if (vh::begin("bytes"))
    for (int c{}; c < 256; ++c)
      for (const char* x : {"", "1", "12", "123"})
        for (const char* y : {"", "4", "P", "''", "PP"}) one(std::string{x} + static_cast<char>(c) + y);
  // order
  const int n{vh::g().thorough ? 300 : 100};
  static const char* suffix[]{"", "P", "PP", "H"};
  const auto make{[&](int i, int t) { return MorohashiId{t == 3 ? "H" + std::to_string(i) : std::to_string(i) + suffix[t]}; }};
  std::vector<int> values{0};
  for (int i{1}; i <= n; ++i) values.push_back(i);
  for (int i : {254, 255, 256, 257, 511, 512, 9999, 10000, 32767, 32768, 49867, 65279, 65280, 65534, 65535}) values.push_back(i);
  for (int i : values)
    if (vh::begin("order " + std::to_string(i)))
      for (int ti{}; ti < (i ? 4 : 1); ++ti) {
        const auto x{make(i, ti)};
        for (int j : values)
          for (int tj{}; tj < (j ? 4 : 1); ++tj) {
            const auto y{make(j, tj)};
            const auto key{x.toString() + "<=>" + y.toString()};
            vh::trace();
            vh::step(6);
            const auto p{std::pair{i, ti}}, q{std::pair{j, tj}};
            vh::outcome(p < q ? "<" : p == q ? "=" : ">");
            vh::expect((x < y) == (p < q) && (x > y) == (p > q) && (x <= y) == (p <= q) && (x >= y) == (p >= q) && (x == y) == (p == q) && (x != y) == (p != q), key, "wrong order");
            vh::expect(((x <=> y) < 0) == (p < q) && ((x <=> y) == 0) == (p == q), key, "wrong three way order");
          }
      }
  if (vh::begin("empty")) {
    const MorohashiId e, s{std::string{}}, z{"0"}, zz{"000"};
    vh::trace(4);
    for (auto& i : {&e, &s, &z, &zz}) {
      vh::expect(!*i && i->toString().empty() && *i == e && i->idType() == Type::Plain, "empty", "empty id");
      vh::expect(*i < MorohashiId{"1"} && *i < MorohashiId{"H1"}, "empty<", "order of the empty id");
    }
  }
}

using S = Strokes::Size;

/// 0: accepted, 1: range error, 2: domain error
template <typename F> std::pair<int, std::string> make(const F& f) {
  try {
    return {0, f()};
  } catch (const RangeError& e) {
    return {1, e.what()};
  } catch (const DomainError& e) {
    return {2, e.what()};
  } catch (const std::exception& e) {
    return {3, e.what()};
  }
}

void strokes() {
  for (int v{}; v < 256; ++v)
    if (vh::begin("strokes " + std::to_string(v))) {
      const auto value{static_cast<S>(v)};
      const auto key{"strokes " + std::to_string(v)};
      const auto check{[&](const Strokes& s, int w, const std::string& k) {
        const auto plain{std::to_string(v)}, full{w ? plain + "/" + std::to_string(w) : plain};
        vh::expect(s.value() == v && s.variant() == w && s.hasVariant() == (w > 0), k + ":values", "values of " + full);
        vh::same(s.toString(), plain, k, "toString()");
        vh::same(s.toString(false), plain, k, "toString(false)");
        vh::same(s.toString(true), full, k, "toString(true)");
        std::ostringstream o;
        o << s;
        vh::same(o.str(), plain, k, "operator<<");
        return full;
      }};
      const auto r{make([&] { return check(Strokes{value}, 0, key); })};
      vh::trace();
      vh::step();
      vh::same(r.first, v >= 1 && v <= 64 ? 0 : 1, key, "accepted/refused, " + r.second);
      if (r.first) vh::expect(r.second.find(std::to_string(v)) != std::string::npos, key + ":what", "error doesn't name the value: " + r.second);
      for (int w{}; w < 256; ++w) {
        const auto k{key + "/" + std::to_string(w)};
        const auto x{make([&] { return check(Strokes{value, static_cast<S>(w)}, w, k); })};
        vh::trace();
        vh::step();
        vh::outcome("strokes" + std::to_string(x.first));
        const bool badV{v < 2 || v > 64}, badW{w < 3 || w > 33};
        vh::same(x.first, badV || badW ? 1 : v == w ? 2 : 0, k, "accepted/refused, " + x.second);
        if (x.first)
          vh::expect(x.second.find("'" + std::to_string(badV ? v : w) + "'") != std::string::npos || x.second.find("'" + std::to_string(badW ? w : v) + "'") != std::string::npos, k + ":what",
              "error doesn't name the value: " + x.second);
        else
          vh::state(x.second);
      }
    }
  // order over all valid objects
  std::vector<std::pair<int, int>> all;
  for (int v{1}; v <= 64; ++v) {
    all.emplace_back(v, 0);
    for (int w{3}; w <= 33; ++w)
      if (v > 1 && v != w) all.emplace_back(v, w);
  }
  const auto get{[](const auto& p) { return p.second ? Strokes{static_cast<S>(p.first), static_cast<S>(p.second)} : Strokes{static_cast<S>(p.first)}; }};
  std::vector<Strokes> objs;
  for (auto& p : all) objs.push_back(get(p));
  for (size_t i{}; i < all.size(); ++i)
    if (vh::begin("order of strokes " + std::to_string(i)))
      for (size_t j{}; j < all.size(); ++j) {
        const auto &x{objs[i]}, &y{objs[j]};
        const auto &p{all[i]}, &q{all[j]};
        vh::trace();
        vh::step();
        vh::expect((x < y) == (p < q) && (x > y) == (p > q) && (x <= y) == (p <= q) && (x >= y) == (p >= q) && (x == y) == (p == q) && (x != y) == (p != q),
            x.toString(true) + "<=>" + y.toString(true), "wrong order");
      }
}

} // namespace

int main(int argc, char** argv) {
  return vh::run(argc, argv, [] {
    morohashi();
    strokes();
  });
}
