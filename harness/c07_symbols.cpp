// C07: interned symbols
#include "vh.h"
#include <algorithm>
#include <kt_utils/Exception.h>
#include <kt_utils/Symbol.h>

using namespace kanji_tools;

namespace {

struct X : Symbol<X> {
  using Symbol<X>::Symbol;
  inline static const String Type{"X"};
};
struct Y : Symbol<Y> {
  using Symbol<Y>::Symbol;
  inline static const String Type{"Y"};
};
struct Big : Symbol<Big> {
  using Symbol<Big>::Symbol;
  inline static const String Type{"Big"};
};

struct Long : Symbol<Long> {
  using Symbol<Long>::Symbol;
  inline static const String Type{"Long"};
};

const std::vector<String>& names() {
  static const std::vector<String> n{"", "a", "b", "ab", "A", "\xe3\x81\x82", String("a\0", 2), "0", " "};
  return n;
}

template <typename T> bool isError(const String& n) {
  try {
    const T x{n};
  } catch (const DomainError&) {
    return true;
  }
  return false;
}

/// every observable fact about the kind must follow from the creation history
template <typename T> void verify(const std::vector<T>& made, const std::vector<String>& model, const String& h) {
  std::set<String> known;
  for (auto& n : model)
    if (!n.empty()) known.insert(n);
  vh::expect(T::size() == known.size(), h + ":size", "size() of kind " + T::type() + " is " + std::to_string(T::size()) + ", expected " + std::to_string(known.size()));
  for (auto& n : names()) vh::expect(T::exists(n) == known.contains(n), h + ":exists:" + n, "exists('" + n + "') is wrong");
  const T unset;
  vh::expect(!unset && unset.name().empty() && unset.id() == 0, h + ":unset", "unset symbol is not empty");
  for (size_t i{}; i < made.size(); ++i) {
    const auto& s{made[i]};
    std::ostringstream o;
    o << s;
    vh::expect(s.name() == model[i] && o.str() == model[i], h + ":name" + std::to_string(i), "symbol " + std::to_string(i) + " gives name '" + s.name() + "' instead of '" + model[i] + "'");
    vh::expect(static_cast<bool>(s) == !model[i].empty() && (s == unset) == model[i].empty() && (s != unset) != model[i].empty(), h + ":bool", "set/unset is wrong");
    for (size_t j{}; j < made.size(); ++j) {
      const bool eq{model[i] == model[j]};
      vh::expect((s == made[j]) == eq && (s != made[j]) != eq && (s.id() == made[j].id()) == eq, h + ":eq", "equality of '" + model[i] + "' and '" + model[j] + "' is wrong");
    }
  }
}

std::vector<X> xs;
std::vector<Y> ys;
std::vector<String> mx, my;

/// run one operation in a forked copy of the process (so every history starts
/// from exactly the state its prefix leads to), then explore what follows
void explore(const String& h, size_t depth, size_t nNames) {
  verify(xs, mx, h);
  verify(ys, my, h);
  if (!depth) return;
  for (size_t op{}; op < nNames * 2; ++op) {
    const String next{h + static_cast<char>('a' + op)};
    vh::trace();
    vh::step();
    {
      std::set<String> a{mx.begin(), mx.end()}, b{my.begin(), my.end()};
      String st;
      (op % 2 ? b : a).insert(names()[op / 2]);
      for (auto& n : a) st += n + ',';
      for (auto& n : b) st += ';' + n;
      vh::state(st);
    }
    const auto pid{fork()};
    if (!pid) {
      const auto before{vh::g().fails};
      {
        String name{names()[op / 2]}; // storage that is gone afterwards
        if (op % 2) {
          ys.emplace_back(name);
          my.push_back(name);
        } else {
          xs.emplace_back(name);
          mx.push_back(name);
        }
        std::fill(name.begin(), name.end(), '#');
      }
      if (depth % 2) { // copies are as good as originals
        if (!xs.empty()) {
          xs.push_back(xs.front());
          mx.push_back(mx.front());
        }
      }
      explore(next, depth - 1, nNames);
      _exit(vh::g().fails > before ? 1 : 0);
    }
    int status{};
    waitpid(pid, &status, 0);
    if (status) {
      ++vh::g().fails;
      if (!WIFEXITED(status) || WEXITSTATUS(status) != 1) vh::fail(next + ":crash", "history " + next + " crashed");
    }
  }
}

/// number of histories below a case, counted by the parent process only
void countTree(size_t depth, size_t ops) {
  uint64_t n{}, p{1};
  for (size_t d{1}; d < depth; ++d) n += p *= ops;
  vh::step(ops * n);
  vh::trace(ops * n);
}

void body() {
  // histories: one case for each first operation
  const size_t nNames{vh::g().thorough ? 6U : 5U};
  for (size_t start{}; start < names().size(); ++start)
    for (int kind{}; kind < 2; ++kind)
      if (vh::begin("histories starting with " + names()[start] + (kind ? " (Y)" : " (X)"))) {
        const auto pid{fork()};
        if (!pid) {
          if (kind) {
            ys.emplace_back(names()[start]);
            my.push_back(names()[start]);
          } else {
            xs.emplace_back(names()[start]);
            mx.push_back(names()[start]);
          }
          explore(names()[start] + ':', vh::g().thorough ? 4 : 3, nNames);
          _exit(vh::g().fails ? 1 : 0);
        }
        int status{};
        waitpid(pid, &status, 0);
        if (status) {
          ++vh::g().fails;
          if (!WIFEXITED(status) || WEXITSTATUS(status) != 1) vh::fail(names()[start] + ":crash", "crashed");
        }
        countTree(vh::g().thorough ? 5 : 4, nNames * 2);
        for (size_t i{}; i < nNames; ++i) vh::state("first" + std::to_string(start) + std::to_string(kind) + std::to_string(i));
        vh::outcome(std::to_string(status));
        vh::sample([&] { return "all histories starting with '" + names()[start] + "'"; });
      }
  // all creation orders of 6 names, and of the same names with repetitions
  for (size_t first{}; first < 6; ++first)
    if (vh::begin("orders starting with name " + std::to_string(first))) {
      std::vector<size_t> rest;
      for (size_t i{}; i < 6; ++i)
        if (i != first) rest.push_back(i);
      do {
        vh::trace();
        vh::step(12);
        const auto pid{fork()};
        if (!pid) {
          std::vector<X> made;
          std::vector<String> model;
          String h{std::to_string(first)};
          const auto add{[&](size_t i) {
            made.emplace_back(names()[i + 1]);
            model.push_back(names()[i + 1]);
          }};
          add(first);
          for (auto i : rest) {
            add(i);
            h += std::to_string(i);
            add(first);
          }
          verify(made, model, "order" + h);
          _exit(vh::g().fails ? 1 : 0);
        }
        int status{};
        waitpid(pid, &status, 0);
        if (status) ++vh::g().fails;
        if (status && (!WIFEXITED(status) || WEXITSTATUS(status) != 1)) vh::fail("order:crash", "crashed");
        String st;
        for (auto i : rest) vh::state("order" + (st += std::to_string(i)));
      } while (std::next_permutation(rest.begin(), rest.end()));
    }
  // long names that differ only near one end
  for (size_t len{1}; len < 70000; len = len < 20 ? len + 1 : len * 2 - 1)
    if (vh::begin("long names " + std::to_string(len))) {
      std::vector<Long> made;
      std::vector<String> want;
      for (int kind{}; kind < 4; ++kind)
        for (char c : {'p', 'q', '\0'}) {
          String s(len, 'x');
          if (kind < 2)
            (kind ? s.front() : s.back()) = c;
          else
            s.insert(kind == 2 ? 0 : s.size(), 1, c);
          made.emplace_back(s);
          want.push_back(s);
        }
      for (size_t i{}; i < made.size(); ++i) {
        vh::trace();
        vh::step();
        vh::expect(made[i].name() == want[i] && Long::exists(want[i]), "long:" + std::to_string(len) + ':' + std::to_string(i), "a long name isn't kept");
        for (size_t j{}; j < made.size(); ++j) vh::expect((made[i] == made[j]) == (want[i] == want[j]), "long:" + std::to_string(len) + ":eq" + std::to_string(i) + ':' + std::to_string(j), "long names are confused");
      }
      vh::state("long" + std::to_string(len));
    }
  // growth to the limit and attempts beyond it
  for (int order{}; order < 3; ++order)
    if (vh::begin("growth " + std::to_string(order))) {
      const auto pid{fork()};
      constexpr int N{Big::Max};
      if (!pid) {
        const auto name{[order](int i) { return order == 0 ? std::to_string(i) : order == 1 ? std::to_string(N - i) : std::to_string(static_cast<unsigned>(i) * 40503U % 65537U); }};
        std::vector<Big> made;
        made.reserve(N);
        const auto all{[&](const String& at) {
          std::vector<uint8_t> seen(65536, 0);
          for (size_t i{}; i < made.size(); ++i) {
            const auto n{name(static_cast<int>(i) + 1)};
            const Big again{n};
            if (made[i].name() != n || !(again == made[i]) || !Big::exists(n) || !made[i] || seen[made[i].id()]++)
              return vh::fail("growth" + at + ':' + n, "symbol '" + n + "' of " + std::to_string(made.size()) + " gives name '" + made[i].name() + "' or is not unique");
          }
          vh::expect(Big::size() == made.size(), "growth" + at, "size is wrong");
        }};
        for (int i{1}; i <= N; ++i) {
          const auto n{name(i)};
          if (Big::exists(n)) vh::fail("growthexists:" + n, "name exists before creation");
          try {
            made.emplace_back(n);
          } catch (const std::exception& e) {
            vh::fail("growth" + n, "creating symbol " + std::to_string(i) + " failed: " + e.what());
            break;
          }
          if (!(i & (i - 1)) || i % 8192 == 0 || i > N - 2) all(std::to_string(i));
        }
        for (auto& n : {"x", "y", "70000", "x"})
          vh::expect(isError<Big>(n) && !Big::exists(n) && Big::size() == N, String{"full:"} + n, "a name beyond the maximum was accepted");
        vh::expect(!Big{""} && !Big::exists(""), "full:empty", "unset symbol is wrong when full");
        all("full");
        X x{"other"};
        vh::expect(x.name() == "other" && X::size() == 1, "full:kind", "a full kind affects another one");
        _exit(vh::g().fails ? 1 : 0);
      }
      int status{};
      waitpid(pid, &status, 0);
      if (status) ++vh::g().fails;
      if (status && (!WIFEXITED(status) || WEXITSTATUS(status) != 1)) vh::fail("growth:crash", "crashed");
      vh::step(N + 5);
      vh::trace(25);
      vh::state("growth" + std::to_string(order));
      vh::outcome("growth" + std::to_string(status));
    }
}

} // namespace

int main(int c, char** v) { return vh::run(c, v, body); }
