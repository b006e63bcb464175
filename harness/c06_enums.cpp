// C06: enum lists, enum maps and bitmasks
#include "vh.h"
#include <kt_utils/Bitmask.h>
#include <kt_utils/EnumList.h>
#include <kt_utils/EnumMap.h>
#include <kt_utils/Exception.h>
#include <limits>
#include <utility>

namespace kanji_tools {
enum class One : Enum::Size { A };
enum class Three : Enum::Size { Red, Green, Blue };
enum class WithNone : Enum::Size { Red, Green, Blue, None };
enum class Solo : Enum::Size { X, None };
enum class Many : Enum::Size {};
enum class Max : Enum::Size { None = 255 };
enum class Flags : uint8_t { A = 1 };
enum class Flags16 : uint16_t { A = 1 };
template <> inline constexpr auto is_enumlist<One>{true};
template <> inline constexpr auto is_enumlist<Three>{true};
template <> inline constexpr auto is_enumlist_with_none<WithNone>{true};
template <> inline constexpr auto is_enumlist_with_none<Solo>{true};
template <> inline constexpr auto is_enumlist<Many>{true};
template <> inline constexpr auto is_bitmask<Flags>{true};
template <> inline constexpr auto is_bitmask<Flags16>{true};
} // namespace kanji_tools

using namespace kanji_tools;

namespace {

enum Res { Ok, Range, Domain, Other };
template <typename F> Res run(const F& f) {
  try {
    f();
    return Ok;
  } catch (const RangeError&) {
    return Range;
  } catch (const DomainError&) {
    return Domain;
  } catch (...) {
    return Other;
  }
}

std::vector<int64_t> offsets() {
  std::vector<int64_t> r;
  for (int64_t i{-1100}; i <= 1100; ++i) r.push_back(i);
  for (int b : {15, 16, 31, 32, 33, 40, 48, 62})
    for (int64_t d{-300}; d <= 300; ++d) {
      r.push_back((int64_t{1} << b) + d);
      r.push_back(-(int64_t{1} << b) + d);
    }
  for (int64_t d{0}; d <= 300; ++d) {
    r.push_back(std::numeric_limits<int64_t>::max() - d);
    r.push_back(std::numeric_limits<int64_t>::min() + 1 + d);
  }
  return r;
}

/// explores the iterator state machine of a container whose i-th value is val(i)
template <typename C, typename V> void iterators(const String& name, C& c, int n, const V& val) {
  using It = decltype(c.begin());
  const auto at{[&](int i) {
    auto it{c.begin()};
    for (int k{}; k < i; ++k) ++it;
    return it;
  }};
  const auto pos{[&](const It& it) { return static_cast<int>(it - c.begin()); }};
  // every state x every operation x every operand
  for (int i{}; i <= n; i += (n > 50 && i > 3 && i < n - 4) ? 7 : 1)
    if (vh::begin(name + " iterator at " + std::to_string(i))) {
      const auto key{[&](const String& op, int64_t x) { return name + ':' + std::to_string(i) + ':' + op + std::to_string(x); }};
      vh::state(name + std::to_string(i));
      const auto expect{[&](const String& op, int64_t x, Res got, Res want, bool sameAfter = true) {
        vh::trace();
        vh::step();
        vh::outcome(op + std::to_string(got));
        if (got != want || !sameAfter)
          vh::fail(key(op, x), op + ' ' + std::to_string(x) + " at " + std::to_string(i) + " of " + std::to_string(n) + (got == want ? " gave the wrong value/position" : " result " + std::to_string(got) + ", expected " + std::to_string(want)));
      }};
      const auto start{at(i)};
      vh::expect(pos(start) == i && c.end() - start == n - i, key("distance", 0), "distance to begin/end is wrong");
      if (i < n) {
        vh::expect(run([&] { (void)*start; }) == Ok && *start == val(i), key("*", 0), "dereference is wrong");
      } else
        expect("*", 0, run([&] { (void)*start; }), Range);
      for (int k{}; k < 4; ++k) {
        auto it{start};
        bool good{true};
        static const char* ops[]{"++x", "x++", "--x", "x--"};
        const bool up{k < 2};
        const auto r{run([&] {
          if (k == 0) good = pos(++it) == i + 1;
          if (k == 1) good = pos(it++) == i;
          if (k == 2) good = pos(--it) == i - 1;
          if (k == 3) good = pos(it--) == i;
        })};
        const bool ok{up ? i < n : i > 0};
        const int after{ok ? (up ? i + 1 : i - 1) : i};
        expect(ops[k], 0, r, ok ? Ok : Range, good && pos(it) == after);
      }
      for (const auto x : offsets()) {
        const bool in{x >= -i && x <= n - i};
        {
          auto it{start};
          const auto r{run([&] { it += x; })};
          expect("+=", x, r, in ? Ok : Range, pos(it) == (in ? i + x : i));
        }
        {
          auto it{start};
          const auto r{run([&] { it -= -x; })};
          expect("-=", -x, r, in ? Ok : Range, pos(it) == (in ? i + x : i));
        }
        bool good{true};
        expect("+", x, run([&] { good = pos(start + x) == i + x; }), in ? Ok : Range, good);
        expect("-", -x, run([&] { good = pos(start - -x) == i + x; }), in ? Ok : Range, good);
        const bool valid{in && i + x < n};
        expect("[]", x, run([&] { good = start[x] == val(static_cast<int>(i + x)); }), valid ? Ok : Range, good);
        vh::expect(pos(start) == i, key("const", x), "a const operation moved the iterator");
      }
      for (int j{}; j <= n; ++j) {
        const auto o{at(j)};
        vh::expect((start == o) == (i == j) && (start != o) == (i != j) && (start < o) == (i < j) && (start <= o) == (i <= j) &&
                       (start > o) == (i > j) && (start >= o) == (i >= j) && start - o == i - j,
            key("compare", j), "comparison or difference is wrong");
        vh::step();
      }
    }
  // range for delivers everything once, in order
  if (vh::begin(name + " loop")) {
    int k{};
    for (auto v : c) {
      vh::expect(k < n && v == val(k), name + ":loop" + std::to_string(k), "loop value is wrong");
      ++k;
    }
    vh::same(k, n, name + ":loop", "number of values");
    vh::same(static_cast<int>(c.size()), n, name + ":size", "size");
    vh::trace();
  }
  // operation histories
  const size_t depth{vh::g().thorough ? 6U : 5U};
  if (n < 10 && vh::begin(name + " histories"))
    vh::words(8, depth, depth, [&](auto& w) {
      auto it{c.begin()};
      int m{};
      vh::trace();
      for (auto op : w) {
        static const int delta[]{1, 1, -1, -1, 2, -2, 256, -255};
        const int d{delta[op]};
        const bool ok{m + d >= 0 && m + d <= n};
        const auto r{run([&] {
          switch (op) {
          case 0: ++it; break;
          case 1: it++; break;
          case 2: --it; break;
          case 3: it--; break;
          default: it += d;
          }
        })};
        if (ok) m += d;
        vh::step();
        vh::state(name + std::to_string(m) + '.' + std::to_string(op));
        if ((r == Ok) != ok || pos(it) != m || (m < n && !(*it == val(m)))) {
          String h;
          for (auto o : w) h += static_cast<char>('0' + o);
          vh::fail(name + ":history:" + h, "iterator history " + h + " ends at " + std::to_string(pos(it)) + ", expected " + std::to_string(m));
          break;
        }
      }
    });
}

template <typename L, typename T> void indexes(const String& name, const L& l, T, int n) {
  if (!vh::begin(name + " indexes")) return;
  const auto one{[&](auto i, const char* type) {
    using I = decltype(i);
    const bool ok{std::cmp_greater_equal(i, 0) && std::cmp_less(i, n)};
    bool good{true};
    const auto r{run([&] { good = to_underlying(l[i]) == static_cast<uint8_t>(i); })};
    vh::trace();
    vh::step();
    if (r != (ok ? Ok : Range) || !good) vh::fail(name + ":[" + std::to_string(i) + "]" + type, "index " + std::to_string(i) + " of type " + type + " result " + std::to_string(r));
    vh::state(name + std::to_string(static_cast<int64_t>(i) & 0xffff));
    static_cast<void>(sizeof(I));
  }};
  for (int i{-128}; i < 128; ++i) one(static_cast<int8_t>(i), "int8_t");
  for (int i{}; i < 256; ++i) one(static_cast<uint8_t>(i), "uint8_t");
  for (int i{-32768}; i < 32768; ++i) one(static_cast<int16_t>(i), "int16_t");
  for (int i{}; i < 65536; ++i) one(static_cast<uint16_t>(i), "uint16_t");
  for (auto i : offsets()) {
    one(i, "int64_t");
    one(static_cast<uint64_t>(i), "uint64_t");
    one(static_cast<int>(i), "int");
    one(static_cast<unsigned>(i), "unsigned");
  }
}

/// names[i] is the name of value i
template <typename T, typename L> void names(const String& label, const L& l, const std::vector<String>& nm, bool none) {
  if (!vh::begin(label + " names")) return;
  for (int i{}; i < 256; ++i) {
    String s;
    const auto r{run([&] { s = l.toString(static_cast<T>(i)); })};
    const auto n{static_cast<int>(nm.size())};
    const bool ok{i < n || (none && i == n)};
    vh::trace();
    vh::step();
    if (r != (ok ? Ok : Range) || (ok && s != (i < n ? nm[static_cast<size_t>(i)] : "None")))
      vh::fail(label + ":toString:" + std::to_string(i), "toString of value " + std::to_string(i) + " is '" + s + "'");
    if (ok) vh::expect(toString(static_cast<T>(i)) == s, label + ":global:" + std::to_string(i), "global toString differs");
    if (ok) {
      std::ostringstream o;
      o << static_cast<T>(i);
      vh::expect(o.str() == s, label + ":stream:" + std::to_string(i), "stream output differs");
    }
  }
  std::vector<String> all{nm};
  const String abc{"RedGrnBluNoAX1n "};
  vh::words(abc.size(), 0, 3, [&](auto& w) {
    String s;
    for (auto i : w) s += abc[i];
    all.push_back(s);
  });
  for (auto x : nm) {
    all.push_back(x + " ");
    all.push_back(" " + x);
    all.push_back(x.substr(1));
    for (auto& ch : x) ch = static_cast<char>(ch ^ 0x20);
    all.push_back(x);
  }
  all.push_back("None");
  all.push_back("none");
  for (auto& s : all) {
    int want{-1};
    for (size_t i{}; i < nm.size(); ++i)
      if (nm[i] == s) want = static_cast<int>(i);
    vh::trace();
    const auto check{[&](const char* f, int w, const std::function<T()>& get) {
      int v{-2};
      const auto r{run([&] { v = to_underlying(get()); })};
      if (r != (w < 0 ? Domain : Ok) || (w >= 0 && v != w)) vh::fail(label + ':' + f + ':' + s, String{f} + "('" + s + "') gave " + std::to_string(v));
      vh::outcome(f + std::to_string(v));
    }};
    check("fromString", want, [&] { return l.fromString(s); });
    if constexpr (requires { l.fromStringAllowNone(s); }) {
      const auto n{static_cast<int>(nm.size())};
      check("fromStringAllowEmpty", s.empty() ? n : want, [&] { return l.fromStringAllowEmpty(s); });
      check("fromStringAllowNone", s == "None" ? n : want, [&] { return l.fromStringAllowNone(s); });
      check("fromStringAllowEmptyAndNone", s.empty() || s == "None" ? n : want, [&] { return l.fromStringAllowEmptyAndNone(s); });
    }
  }
}

template <size_t... I> auto makeMany(std::index_sequence<I...>) {
  return BaseEnumList<Many>::create("n0", ("n" + std::to_string(I + 1))...);
}

template <typename M, typename T> void mapHistories(const String& label, int n) {
  if (!vh::begin(label + " histories")) return;
  const size_t ops{static_cast<size_t>(n) * 2 + 3};
  vh::words(ops, 0, vh::g().thorough ? 5 : 4, [&](auto& w) {
    M m;
    std::vector<int> model(static_cast<size_t>(n), 0);
    vh::trace();
    for (size_t s{}; s < w.size(); ++s) {
      const int o{static_cast<int>(w[s])};
      const auto key{label + ":history"};
      if (o < 2 * n) {
        const auto k{static_cast<size_t>(o / 2)};
        const int v{o % 2 ? 7 : static_cast<int>(s) + 1};
        if (run([&] { m[static_cast<T>(k)] = v; }) != Ok) vh::fail(key, "store refused");
        model[k] = v;
      } else {
        const auto x{o == 2 * n ? n : o == 2 * n + 1 ? n + 1 : 255};
        vh::expect(run([&] { m[static_cast<T>(x)] = 9; }) == Range, key + std::to_string(x), "storing under none or beyond must be refused");
      }
      vh::step();
      const M& c{m};
      for (int i{}; i < 256; i += i > n + 1 && i < 254 && w.size() > 1 ? 254 - i : 1) {
        int v{-1};
        const auto r{run([&] { v = c[static_cast<T>(i)]; })};
        const bool ok{i <= n};
        if (r != (ok ? Ok : Range) || (ok && v != (i < n ? model[static_cast<size_t>(i)] : 0)))
          vh::fail(key + ":read" + std::to_string(i), "map value for key " + std::to_string(i) + " is " + std::to_string(v));
      }
      size_t i{};
      for (auto v : c) {
        if (i >= model.size() || v != model[i]) vh::fail(key + ":loop", "iteration differs from stored values");
        ++i;
      }
      String st{label};
      for (auto v : model) st += std::to_string(v);
      vh::state(st);
    }
  });
}

template <typename F, typename U> void bits(const String& label, U lo, U hi, unsigned stepBy) {
  for (uint32_t x{lo}; x <= hi; x += stepBy) {
    const auto a{static_cast<F>(x)};
    const U ua{static_cast<U>(x)};
    if (to_underlying(~a) != static_cast<U>(~ua) || hasValue(a) != (ua != 0) || !a != (ua == 0)) vh::fail(label + std::to_string(x), "unary bitmask operator is wrong");
    for (uint32_t y{}; y <= std::numeric_limits<U>::max(); y += sizeof(U) == 1 ? 1 : 251) {
      const auto b{static_cast<F>(y)};
      const U ub{static_cast<U>(y)};
      auto c{a}, d{a}, e{a};
      c &= b;
      d |= b;
      e ^= b;
      vh::trace();
      if (to_underlying(a & b) != (ua & ub) || to_underlying(a | b) != (ua | ub) || to_underlying(a ^ b) != (ua ^ ub) || c != (a & b) || d != (a | b) || e != (a ^ b))
        vh::fail(label + std::to_string(x) + ',' + std::to_string(y), "binary bitmask operator is wrong");
    }
    vh::step(8);
    vh::state(label + std::to_string(x));
  }
}

void body() {
  // creating: refused when duplicated, repeated, or naming None; recovers
  if (vh::begin("create")) {
    const auto key{"create"};
    vh::trace();
    vh::expect(!BaseEnumList<Three>::isCreated() && run([] { BaseEnumList<Three>::instance(); }) == Domain, key, "instance before create must be refused");
    vh::expect(run([] { auto x{BaseEnumList<Three>::create("a", "b", "a")}; }) == Domain, key, "duplicate name must be refused");
    vh::expect(run([] { auto x{BaseEnumList<WithNone>::create("a", "None", "b")}; }) == Domain, key, "'None' must be refused as a name");
    vh::expect(run([] { auto x{BaseEnumList<WithNone>::create("None", "a", "b")}; }) == Domain, key, "'None' must be refused as a name");
    vh::expect(run([] { auto x{BaseEnumList<WithNone>::create("a", "b", "None")}; }) == Domain, key, "'None' must be refused as a name");
    vh::expect(!BaseEnumList<Three>::isCreated() && !BaseEnumList<WithNone>::isCreated(), key, "a failed create must leave nothing behind");
    for (int i{}; i < 3; ++i) {
      const auto l{BaseEnumList<Three>::create("x", "y", "z")};
      vh::expect(BaseEnumList<Three>::isCreated() && run([] { auto x{BaseEnumList<Three>::create("p", "q", "r")}; }) == Domain, key, "second create must be refused");
    }
    vh::expect(!BaseEnumList<Three>::isCreated(), key, "destroyed list must be gone");
  }
  const auto one{BaseEnumList<One>::create("A")};
  const auto three{BaseEnumList<Three>::create("Red", "Green", "Blue")};
  const auto withNone{BaseEnumList<WithNone>::create("Red", "Green", "Blue")};
  const auto solo{BaseEnumList<Solo>::create("X")};
  const auto many{makeMany(std::make_index_sequence<129>{})};
  iterators("One", one, 1, [](int i) { return static_cast<One>(i); });
  iterators("Three", three, 3, [](int i) { return static_cast<Three>(i); });
  iterators("WithNone", withNone, 4, [](int i) { return static_cast<WithNone>(i); });
  iterators("Solo", solo, 2, [](int i) { return static_cast<Solo>(i); });
  iterators("Many", many, 130, [](int i) { return static_cast<Many>(i); });
  indexes("One", one, One{}, 1);
  indexes("Three", three, Three{}, 3);
  indexes("WithNone", withNone, WithNone{}, 4);
  indexes("Solo", solo, Solo{}, 2);
  indexes("Many", many, Many{}, 130);
  names<One>("One", one, {"A"}, false);
  names<Three>("Three", three, {"Red", "Green", "Blue"}, false);
  names<WithNone>("WithNone", withNone, {"Red", "Green", "Blue"}, true);
  names<Solo>("Solo", solo, {"X"}, true);
  std::vector<String> nm;
  for (int i{}; i < 130; ++i) nm.push_back("n" + std::to_string(i));
  names<Many>("Many", many, nm, false);
  if (vh::begin("none helpers")) {
    vh::trace();
    for (int i{}; i < 4; ++i) {
      const auto x{static_cast<WithNone>(i)};
      vh::expect(hasValue(x) == (i < 3) && !x == (i == 3) && isNextNone(x) == (i == 2), "none" + std::to_string(i), "hasValue/operator!/isNextNone");
    }
  }
  using M3 = EnumMap<WithNone, int>;
  using M1 = EnumMap<Solo, int>;
  using MM = EnumMap<Max, int>;
  mapHistories<M3, WithNone>("Map3", 3);
  mapHistories<M1, Solo>("Map1", 1);
  M3 m3;
  M1 m1;
  static MM mm;
  for (int i{}; i < 3; ++i) m3[static_cast<WithNone>(i)] = 10 + i;
  m1[Solo::X] = 10;
  for (int i{}; i < 255; ++i) mm[static_cast<Max>(i)] = 10 + i;
  const auto v{[](int i) { return 10 + i; }};
  const M3& c3{m3};
  const M1& c1{m1};
  const MM& cm{mm};
  iterators("Map3", c3, 3, v);
  iterators("Map1", c1, 1, v);
  iterators("Map255", cm, 255, v);
  if (vh::begin("map iterators of different or no collections")) {
    M3 other;
    const auto a{c3.begin()}, b{other.begin()};
    const decltype(M3{}.begin()) d, e;
    vh::trace();
    for (auto* y : {&b, &d}) {
      auto& x{*y};
      vh::expect(run([&] { (void)(a == x); }) == Domain && run([&] { (void)(a != x); }) == Domain && run([&] { (void)(a < x); }) == Domain &&
                     run([&] { (void)(a <= x); }) == Domain && run([&] { (void)(a > x); }) == Domain && run([&] { (void)(a >= x); }) == Domain &&
                     run([&] { (void)(a - x); }) == Domain,
          "mapOther", "comparing iterators of different maps must be refused");
    }
    vh::expect(d == e && run([&] { (void)*d; }) == Domain, "mapUninit", "an uninitialised iterator can't be dereferenced");
  }
  for (int hi{}; hi < 16; ++hi)
    if (vh::begin("bitmask " + std::to_string(hi))) {
      bits<Flags, uint8_t>("b8:", static_cast<uint8_t>(hi * 16), static_cast<uint8_t>(hi * 16 + 15), 1);
      bits<Flags16, uint16_t>("b16:", static_cast<uint16_t>(hi * 4096), static_cast<uint16_t>(hi * 4096 + 4095), 37);
    }
}

} // namespace

int main(int c, char** v) { return vh::run(c, v, body); }
