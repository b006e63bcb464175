// C22: radicals against a model of their file
#include "cmp_kanji.h"
#include <kt_kanji/RadicalData.h>

using ref::Str;
using ref::Strs;

namespace {

Str path() { return vh::g().scratch + "/testRadicals.txt"; }
void write(const Str& t) {
  FILE* f{fopen(path().c_str(), "wb")};
  if (!f || fwrite(t.data(), 1, t.size(), f) != t.size()) abort();
  fclose(f);
}

struct Rad {
  Str name, longName, reading;
  Strs alt;
};

/// everything about one radical
void compare(kt::RadicalRef r, size_t number, const Rad& m, const Str& key) {
  const auto eq{[&](const auto& got, const auto& want, const char* what) {
    vh::step();
    vh::same(got, want, key + ":" + what, "radical " + std::to_string(number) + " " + what);
  }};
  eq(static_cast<size_t>(r.number()), number, "number");
  eq(r.name(), m.name, "name");
  eq(r.longName(), m.longName, "longName");
  eq(r.reading(), m.reading, "reading");
  eq(names(Strs(r.altForms().begin(), r.altForms().end())), names(m.alt), "altForms");
  char b[16];
  snprintf(b, sizeof b, "[%03zu] ", number);
  std::ostringstream o;
  o << r;
  eq(o.str(), b + m.name, "printed");
}

Str found(const kt::RadicalData& d, const Str& name) {
  try {
    return std::to_string(d.find(name).number());
  } catch (const kt::DomainError& e) {
    if (Str{e.what()}.find(name) == Str::npos) return Str{"error "} + e.what();
    return "none";
  } catch (const std::exception& e) {
    return Str{"unexpected "} + e.what();
  }
}
Str found(const kt::RadicalData& d, unsigned n) {
  try {
    return d.find(static_cast<kt::Radical::Number>(n)).name();
  } catch (const kt::DomainError& e) {
    return "none";
  } catch (const std::exception& e) {
    return Str{"unexpected "} + e.what();
  }
}

/// numbers and names, all at once
void lookups(const kt::RadicalData& d, const std::vector<Rad>& m, const Strs& ask, unsigned max, const Str& key) {
  for (unsigned n{}; n <= max; ++n) {
    vh::step();
    const auto got{found(d, n)};
    const auto want{n && n <= m.size() ? m[n - 1].name : Str{"none"}};
    if (got != want) vh::same(got, want, key + ":n" + std::to_string(n), "radical number " + std::to_string(n));
  }
  for (auto& a : ask) {
    vh::step();
    Str want{"none"};
    bool more{};
    for (size_t i{}; i < m.size(); ++i)
      if (m[i].name == a) {
        more = want != "none";
        want = std::to_string(i + 1);
      }
    if (more) continue; // two radicals with one name: left open
    const auto got{found(d, a)};
    if (got != want) vh::same(got, want, key + ":name" + a, "radical '" + a + "'");
  }
}

void shipped() {
  static std::unique_ptr<kt::RadicalData> d;
  static std::vector<Rad> m;
  const auto ready{[&] {
    if (d) return;
    const auto file{vh::g().data + "/radicals.txt"};
    for (auto& r : ref::table(file)) {
      const auto n{ref::split(r["Name"], ' ')};
      m.push_back({n[0], r["LongName"], r["Reading"], {n.begin() + 1, n.end()}});
    }
    d = std::make_unique<kt::RadicalData>();
    d->load(file);
  }};
  if (vh::begin("shipped file")) {
    ready();
    vh::same(m.size(), size_t{214}, "count", "radicals");
    for (size_t i{}; i < m.size(); ++i) {
      vh::trace();
      vh::state(m[i].name);
      const auto key{std::to_string(i + 1)};
      compare(d->find(static_cast<kt::Radical::Number>(i + 1)), i + 1, m[i], key);
      compare(d->find(m[i].name), i + 1, m[i], key);
      for (size_t j{}; j < m.size(); ++j) {
        const auto &x{d->find(m[i].name)}, &y{d->find(m[j].name)};
        vh::expect((x == y) == (i == j) && (x < y) == (i < j), key + "<" + std::to_string(j + 1), "order of radicals " + key + " and " + std::to_string(j + 1));
      }
    }
  }
  for (unsigned b{}; b < 65536; b += 4096)
    if (vh::begin("numbers from " + std::to_string(b))) {
      ready();
      vh::trace();
      for (unsigned n{b}; n < b + 4096; ++n) {
        const auto want{n && n <= m.size() ? m[n - 1].name : Str{"none"}}, got{found(*d, n)};
        vh::step();
        if (got != want) vh::same(got, want, "n" + std::to_string(n), "radical number " + std::to_string(n));
      }
    }
  for (uint32_t b{}; b < 0x32400; b += 0x800)
    if (vh::begin("names from " + std::to_string(b))) {
      ready();
      vh::trace();
      Strs ask;
      for (uint32_t c{std::max(b, 1U)}; c < b + 0x800; ++c)
        if (c < 0xd800 || c > 0xdfff) ask.push_back(ref::enc(c));
      lookups(*d, m, ask, 0, "names");
    }
  if (vh::begin("alternative and long names")) {
    ready();
    Strs ask{"", " ", "\t"};
    for (auto& r : m) {
      for (auto& a : r.alt) ask.push_back(a);
      ask.push_back(r.longName);
      ask.push_back(r.name + r.name);
      ask.push_back(r.name + " ");
      ask.push_back(" " + r.name);
      ask.push_back(r.name + "\ufe00");
      if (!r.alt.empty()) ask.push_back(r.name + " " + r.alt[0]);
    }
    vh::trace();
    lookups(*d, m, ask, 0, "alt");
  }
}

/// radicals of every Kanji
void kanji() {
  static std::unique_ptr<Real> real;
  static std::unique_ptr<ref::Kanji> m;
  for (unsigned b{}; b < 8; ++b)
    if (vh::begin("Kanji of radicals " + std::to_string(b) + " modulo 8")) {
      if (!real) {
        real = std::make_unique<Real>(vh::g().data);
        m = std::make_unique<ref::Kanji>(vh::g().data);
      }
      for (auto& k : m->all)
        if (k.radical % 8 == b) {
          vh::trace();
          vh::step();
          const auto p{real->data->findByName(k.name)};
          if (!vh::expect(static_cast<bool>(p), k.name, k.name + " isn't found")) continue;
          const auto& w{m->rads.at(k.radical - 1)};
          compare(p->radical(), k.radical, {w.name, w.longName, w.reading, w.alt}, k.name);
          vh::expect(p->radical() == real->data->getRadicalByName(w.name), k.name + ":same", "radical of " + k.name + " isn't the one found by name");
          vh::outcome(w.name);
        }
      // every radical in the data, by name through the data
      for (auto& r : m->rads) vh::same(real->data->getRadicalByName(r.name).number(), static_cast<kt::Radical::Number>(r.number), "by name " + r.name, "getRadicalByName");
    }
}

/// small files
void files() {
  const Strs numbers{"1", "001", "2", "3", "0", "", "x", "257", "-1", "1 ", "258", "4"}, nameCells{"一", "人 亻 𠆢", "水", "", " 火", "木  x"};
  const auto run{[&](const std::vector<Strs>& rows) {
    vh::trace();
    Str text{"Number\tName\tLongName\tReading\n"}, key;
    size_t bad{};
    std::vector<Rad> m;
    bool open{};
    for (size_t i{}; i < rows.size(); ++i) {
      const auto& r{rows[i]};
      Str line;
      for (size_t j{}; j < r.size(); ++j) line += (j ? "\t" : "") + r[j];
      text += line + "\n";
      key += line + "|";
      unsigned long n{};
      bool ok{!r[0].empty() && r.size() == 4};
      for (auto c : r[0])
        if (c < '0' || c > '9')
          ok = false;
        else
          n = n * 10 + static_cast<unsigned>(c - '0');
      if ((!ok || n != i + 1) && !bad) bad = i + 1;
      if (r.size() > 1 && !bad) {
        Rad x;
        for (auto& t : ref::split(r[1], ' '))
          if (x.name.empty())
            x.name = t;
          else if (!t.empty())
            x.alt.push_back(t);
        if (x.name.empty() || r[1].find("  ") != Str::npos || r[1][0] == ' ') open = true; // no name / doubled spaces
        x.longName = r[2];
        x.reading = r[3];
        m.push_back(x);
      }
    }
    vh::state(key);
    vh::step(rows.size());
    write(text);
    kt::RadicalData d;
    try {
      d.load(path());
      vh::outcome("ok");
      if (bad) {
        vh::fail(key, "row " + std::to_string(bad) + " wasn't refused");
        return;
      }
      if (open) return;
      if (rows.empty()) return;
      for (size_t i{}; i < m.size(); ++i) compare(d.find(static_cast<kt::Radical::Number>(i + 1)), i + 1, m[i], key);
      lookups(d, m, {"一", "人", "亻", "𠆢", "水", "火", "木", "x", "一部"}, 20, key);
    } catch (const kt::DomainError& e) {
      const Str what{e.what()};
      vh::outcome(what.substr(0, 20));
      if (!bad) {
        if (!open) vh::fail(key, "refused: " + what);
      } else
        vh::expect(what.find("testRadicals.txt") != Str::npos && what.find("row: " + std::to_string(bad)) != Str::npos, key, "error doesn't name file and row " + std::to_string(bad) + ": " + what);
    } catch (const std::exception& e) {
      vh::fail(key, Str{"unexpected exception: "} + e.what());
    }
  }};
  const size_t max{vh::g().thorough ? 4U : 3U};
  for (size_t a{}; a < numbers.size(); ++a)
    for (size_t b{}; b < nameCells.size(); ++b)
      if (vh::begin("file starting with " + numbers[a] + " " + nameCells[b]))
        vh::words(numbers.size() * nameCells.size(), 0, max - 1, [&](const auto& w) {
          std::vector<Strs> rows{{numbers[a], nameCells[b], "long", "read"}};
          for (auto i : w) rows.push_back({numbers[i % numbers.size()], nameCells[i / numbers.size()], "", "r r"});
          // (third row on only with increasing numbers, otherwise the first error is known)
          for (size_t i{1}; i + 1 < rows.size(); ++i)
            if (rows[i][0] != std::to_string(i + 1)) return;
          run(rows);
        });
  if (vh::begin("column counts")) {
    run({});
    run({{"1", "一", "", ""}});
    run({{"1", "一", ""}});
    run({{"1", "一", "", "", "x"}});
    run({{"1"}});
    run({{"1", "一", "", ""}, {"2", "人", ""}});
  }
  // not loaded yet, or only an empty file
  if (vh::begin("before loading"))
    for (int i{}; i < 2; ++i) {
      vh::trace();
      kt::RadicalData d;
      if (i) {
        write("Number\tName\tLongName\tReading\n");
        d.load(path());
      }
      for (unsigned n : {0U, 1U, 214U, 65535U})
        try {
          const auto& r{d.find(static_cast<kt::Radical::Number>(n))};
          vh::fail("before", "found " + r.name());
        } catch (const kt::DomainError&) {
        }
      try {
        const auto& r{d.find(Str{"一"})};
        vh::fail("before", "found " + r.name());
      } catch (const kt::DomainError&) {
      }
    }
  // many alternative forms and long cells
  for (unsigned n{1}; n <= 64; ++n)
    if (vh::begin("forms " + std::to_string(n))) {
      Str cell{"火"}, reading, longName;
      Strs ask{"火", "水"};
      for (unsigned i{1}; i <= n; ++i) {
        cell += " " + ref::enc((i % 2 ? 0x2e80U : 0x20000U) + i);
        ask.push_back(ref::enc((i % 2 ? 0x2e80U : 0x20000U) + i));
        reading += "よみ";
        longName += "name ";
      }
      run({{"1", cell, longName, reading}, {"2", "水", "", reading}});
      run({{"1", "水", longName, ""}, {"2", cell, "", reading}, {"3", "木 " + cell, longName, reading}});
    }
  // sizes to the limits of the number type
  for (unsigned n : {213U, 214U, 215U, 254U, 255U, 256U, 257U, 300U})
    if (vh::begin("file of " + std::to_string(n))) {
      vh::trace();
      Str text{"Number\tName\tLongName\tReading\n"};
      std::vector<Rad> m;
      for (unsigned i{1}; i <= n; ++i) {
        m.push_back({ref::enc(0x4e00 + i), "l" + std::to_string(i), "r", {}});
        text += std::to_string(i) + "\t" + m.back().name + "\t" + m.back().longName + "\tr\n";
      }
      write(text);
      kt::RadicalData d;
      try {
        d.load(path());
        for (unsigned i{1}; i <= n; ++i) compare(d.find(static_cast<kt::Radical::Number>(i)), i, m[i - 1], "size" + std::to_string(n));
      } catch (const kt::DomainError& e) { // more radicals than there are may be refused
        vh::expect(n > 214, "size" + std::to_string(n), Str{"refused: "} + e.what());
      }
    }
}

} // namespace

int main(int argc, char** argv) {
  return vh::run(argc, argv, [] {
    shipped();
    kanji();
    files();
  });
}
