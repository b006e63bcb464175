// C21: order of Kanji, qualified names and information lines
#include "mini.h"
#include <algorithm>


namespace {

Str unicode(const Str& s) {
  Str r;
  for (auto c : ref::dec(s)) {
    char b[16];
    snprintf(b, sizeof b, "%04X", static_cast<unsigned>(c));
    r += (r.empty() ? "" : " ") + Str{b};
  }
  return r;
}

struct Key {
  unsigned rank, strokes, vstrokes, freq;
  Str text; ///< code of the compatibility name as printed
  std::vector<unsigned> code;
};

/// -1 a first, 1 b first, by rank (optionally), strokes, frequency; 0 if these are the same
int compare(const Key& a, const Key& b, bool rank) {
  const auto x{std::tuple{rank ? a.rank : 0, a.strokes, a.vstrokes, a.freq}}, y{std::tuple{rank ? b.rank : 0, b.strokes, b.vstrokes, b.freq}};
  return x < y ? -1 : y < x ? 1 : 0;
}

/// the line for one set of fields
Str info(const ref::K& k, const ref::Kanji& m, unsigned mask) {
  Str r;
  const auto add{[&](const Str& s) { r += (r.empty() ? "" : ", ") + s; }};
  if (mask & 1) add("Rad " + m.rads.at(k.radical - 1).name + "(" + std::to_string(k.radical) + ")");
  if (mask & 2) add("Strokes " + std::to_string(k.strokes));
  if (mask & 4 && !k.pinyin.empty()) add(k.pinyin);
  if (mask & 8 && !k.grade.empty()) add(k.grade);
  if (mask & 16 && !k.level.empty()) add(k.level);
  if (mask & 32 && k.freq) add("Frq " + std::to_string(k.freq));
  if (mask & 64 && k.hasNew) add("New " + k.newName + (k.linkedReadings ? "*" : ""));
  if (mask & 128 && !k.hasNew && !k.oldNames.empty()) {
    Str s;
    for (size_t i{}; i < k.oldNames.size(); ++i) s += (i ? "／" : "") + k.oldNames[i] + (!i && k.linkedReadings ? "*" : "");
    add("Old " + s);
  }
  if (mask & 256 && !k.kyu.empty()) add(k.kyu);
  return r;
}

constexpr const char* Marks{".'\"^~%+@#*"};

Key keyOf(const ref::K& k) {
  Key x{ref::Kanji::rank(k), k.strokes, k.vstrokes, k.freq ? k.freq : 65535U, unicode(k.compat), {}};
  for (auto c : ref::dec(k.compat)) x.code.push_back(static_cast<unsigned>(c));
  return x;
}

#ifdef SMALL // (a process only ever loads one size of frequency list)
// a few Kanji with every combination of roles, and up to eight old or new forms
void body() {
  Mini mini;
  const auto all{roles(true)};
  const auto check{[&](const std::vector<size_t>& w) {
    std::vector<Role> r;
    Str pre{"roles"};
    for (auto i : w) {
      r.push_back(all[i]);
      pre += "." + std::to_string(i);
    }
    mini.write(r, true);
    vh::trace();
    vh::state(pre);
    pre += ":";
    const Real real{mini.dir};
    const ref::Kanji m{mini.dir};
    std::vector<kt::KanjiPtr> p;
    std::vector<Key> key;
    for (auto& k : m.all)
      if (const auto got{real.data->findByName(k.name)}; got) { // (missing ones are reported by C19)
        p.push_back(got);
        key.push_back(keyOf(k));
        const auto one{[&](unsigned mask) {
          vh::step();
          vh::same(got->info(static_cast<kt::Kanji::Info>(mask)), info(k, m, mask), pre + k.name + std::to_string(mask), "information " + std::to_string(mask) + " of " + k.name);
        }};
        for (unsigned b{1}; b < 512; b *= 2) {
          one(b);
          one(511 ^ b);
        }
        one(511);
        vh::same(got->qualifiedName(), k.name + Marks[key.back().rank], pre + "name:" + k.name, "qualified name");
        vh::outcome(k.type + std::to_string(k.oldNames.size()) + std::to_string(k.hasNew));
      }
    for (size_t i{}; i < p.size(); ++i)
      for (size_t j{}; j < p.size(); ++j)
        for (int rank{}; rank < 2; ++rank) {
          const auto c{compare(key[i], key[j], rank)};
          const auto less{[rank](const kt::KanjiPtr& x, const kt::KanjiPtr& y) { return rank ? x->orderByQualifiedName(*y) : x->orderByStrokes(*y); }};
          const bool got{less(p[i], p[j])};
          vh::step();
          const auto where{pre + p[i]->name() + p[j]->name()};
          if (c)
            vh::expect(got == (c < 0), where, p[i]->name() + (got ? " is" : " isn't") + " before " + p[j]->name());
          else if (i != j && key[i].text.size() == key[j].text.size())
            vh::expect(got == (key[i].code < key[j].code), where, p[i]->name() + (got ? " is" : " isn't") + " before " + p[j]->name());
          else
            vh::expect(i == j ? !got : got != less(p[j], p[i]), where, "order of " + p[i]->name() + " and " + p[j]->name() + " isn't defined");
        }
  }};
  for (size_t i{}; i < all.size(); ++i) {
    if (vh::begin("roles " + std::to_string(i))) check({i});
    for (size_t j{}; j < all.size(); ++j)
      if ((vh::g().thorough || (i * 5 + j) % 4 == 0) && vh::begin("roles " + std::to_string(i) + "," + std::to_string(j))) check({i, j});
  }
}
#else
void body() {
  const auto& dir{vh::g().data};
  const ref::Kanji m{dir};
  const Real real{dir};
  const auto& d{*real.data};
  std::vector<kt::KanjiPtr> p;
  std::vector<Key> key;
  for (auto& k : m.all) {
    const auto got{d.findByName(k.name)};
    if (!got) continue; // reported by C19
    p.push_back(got);
    key.push_back(keyOf(k));
  }
  const auto n{p.size()};
  if (n != m.all.size() && vh::begin("all found")) vh::fail("found", "some Kanji aren't found");
  static constexpr size_t Batch{16};
  for (size_t b{}; b < n; b += Batch) {
    const auto e{std::min(n, b + Batch)};
    if (vh::begin("order " + p[b]->name()))
      for (size_t i{b}; i < e; ++i)
        for (int rank{}; rank < 2; ++rank) {
          int byText{}, byCode{};
          for (size_t j{}; j < n; ++j) {
            const auto less{[rank](const kt::KanjiPtr& x, const kt::KanjiPtr& y) { return rank ? x->orderByQualifiedName(*y) : x->orderByStrokes(*y); }};
            const bool ab{less(p[i], p[j])};
            vh::step();
            auto c{compare(key[i], key[j], rank)};
            if (!c && i != j) {
              const int t{key[i].text < key[j].text ? -1 : 1}, k{key[i].code < key[j].code ? -1 : 1};
              // codes of different length: textual or numeric order, but the same one for all
              if (t != k) {
                (ab == (t < 0) ? byText : byCode)++;
                vh::expect(ab != less(p[j], p[i]), "both:" + p[i]->name() + p[j]->name(), "order of " + p[i]->name() + " and " + p[j]->name() + " isn't defined");
                continue;
              }
              c = t;
            }
            if (ab != (c < 0))
              vh::fail((rank ? "qualified:" : "strokes:") + p[i]->name() + p[j]->name(), p[i]->name() + (ab ? " is" : " isn't") + " before " + p[j]->name());
          }
          vh::trace(n);
          vh::state(p[i]->name() + static_cast<char>('0' + rank));
          vh::expect(!byText || !byCode, "mixed:" + p[i]->name(), p[i]->name() + " is ordered by code inconsistently");
          if (rank) {
            vh::outcome(Str{Marks[key[i].rank]});
            vh::same(p[i]->qualifiedName(), p[i]->name() + Marks[key[i].rank], "name:" + p[i]->name(), "qualified name");
          }
          for (size_t j{i ? i - 1 : 0}; j < std::min(n, i + 2); ++j) vh::expect((*p[i] == *p[j]) == (i == j), "same:" + p[i]->name(), "equality of " + p[i]->name() + " and " + p[j]->name());
        }
    if (vh::begin("information " + p[b]->name()))
      for (size_t i{b}; i < e; ++i) {
        const auto& k{*m.find(p[i]->name())};
        for (unsigned mask{}; mask < 512; ++mask) {
          vh::trace();
          vh::step();
          const auto want{info(k, m, mask)}, got{p[i]->info(static_cast<kt::Kanji::Info>(mask))};
          if (got != want) vh::same(got, want, "info:" + k.name + std::to_string(mask), "information " + std::to_string(mask) + " of " + k.name);
          if (mask == 511) {
            vh::same(p[i]->info(), want, "info:" + k.name, "information of " + k.name);
            vh::outcome(want.substr(0, 12));
            vh::sample([&] { return k.name + ": " + want; });
          }
        }
        using enum kt::Kanji::Info;
        vh::same(p[i]->info(All ^ Strokes), info(k, m, 509), "info:^" + k.name, "information without strokes");
        vh::same(p[i]->info(Grade | Level | Freq), info(k, m, 56), "info:|" + k.name, "grade, level and frequency");
      }
  }
  // sorted listings: the same whatever the order before
  for (size_t r{}; r < 8; ++r)
    if (vh::begin("sorted listing from order " + std::to_string(r))) {
      const auto sorted{[&](bool rank, size_t start) {
        kt::KanjiData::List l;
        for (size_t i{}; i < n; ++i) l.push_back(p[(i * 7919 + start * 811) % n]);
        if (start % 2) std::reverse(l.begin(), l.end());
        if (rank)
          std::sort(l.begin(), l.end(), kt::KanjiData::OrderByQualifiedName);
        else
          std::sort(l.begin(), l.end(), kt::KanjiData::OrderByStrokes);
        return names(l);
      }};
      for (bool rank : {false, true}) {
        vh::trace();
        vh::expect(sorted(rank, r) == sorted(rank, r + 1), "sorted" + std::to_string(r), "sorted listing depends on the order before");
      }
    }
}
#endif

} // namespace

int main(int argc, char** argv) { return vh::run(argc, argv, body); }
