// C19: loaded Kanji data against a model of the data files
#include "mini.h"

namespace {

void byName(const kt::KanjiData& d, const ref::Kanji& m, const Str& name, const Str& pre = {}) {
  const auto* want{m.find(name)};
  const auto got{d.findByName(name)};
  vh::trace();
  vh::step();
  vh::same(got ? got->name() : Str{"none"}, want ? want->name : Str{"none"}, pre + "find " + name, "findByName(" + name + ")");
  vh::same(text(d.getType(name)), want ? want->type : Str{}, pre + "type " + name, "getType(" + name + ")");
  const auto* u{m.findUcd(name)};
  const auto* v{d.findUcd(name)};
  vh::same(v ? v->name() : Str{"none"}, u ? u->name : Str{"none"}, pre + "ucd " + name, "findUcd(" + name + ")");
  vh::same(d.getCompatibilityName(name).value_or(""), u && u->name != name ? u->name : Str{}, pre + "compat " + name, "getCompatibilityName(" + name + ")");
  const auto get{[&](const auto& map) {
    const auto i{map.find(name)};
    return i == map.end() ? typename std::decay_t<decltype(map)>::mapped_type{} : i->second;
  }};
  vh::same(unsigned{d.frequency(name)}, get(m.freqIndex), pre + "freq " + name, "frequency(" + name + ")");
  vh::same(text(d.level(name)), get(m.levelOf), pre + "level " + name, "level(" + name + ")");
  vh::same(text(d.kyu(name)), get(m.kyuOf), pre + "kyu " + name, "kyu(" + name + ")");
}

void full() {
  const auto& dir{vh::g().data};
  const ref::Kanji m{dir};
  const Real real{dir};
  const auto& d{*real.data};
  if (vh::begin("lists of the data files")) {
    vh::trace();
    compareLists(d, m);
    vh::same(real.err.str(), Str{}, "err", "errors printed while loading");
    vh::same(real.out.str(), Str{}, "out", "output printed while loading");
    vh::same(d.dataDir().string(), dir, "dir", "dataDir()");
    vh::same(unsigned{d.maxFrequency()}, static_cast<unsigned>(m.freq.size() + 1), "max", "maxFrequency()");
    for (const char* t : {"Jouyou", "Jinmei", "LinkedJinmei", "LinkedOld", "Frequency", "Extra", "Kentei", "Ucd"}) vh::state(Str{t} + names(m.types.at(t)));
  }
  for (size_t i{}; i < m.all.size(); i += 32)
    if (vh::begin("Kanji " + m.all[i].name))
      for (size_t j{i}; j < std::min(m.all.size(), i + 32); ++j) {
        const auto& k{m.all[j]};
        const auto got{d.findByName(k.name)};
        vh::trace();
        vh::state(k.name);
        vh::outcome(k.type + k.grade + k.level + k.kyu);
        if (!vh::expect(static_cast<bool>(got), k.name, k.name + " isn't found")) continue;
        compareKanji(*got, k, m);
        vh::expect(d.findByName(k.compat) == got || (m.find(k.compat) && m.find(k.compat)->name != k.name), k.name + ":compat", k.compat + " doesn't find " + k.name);
        if (k.freq) vh::expect(d.findByFrequency(static_cast<kt::Kanji::Frequency>(k.freq)) == got, k.name + ":byFreq", "not found by frequency");
        if (k.moro.first) {
          const auto& l{d.findByMorohashiId(ref::moroText(k.moro))};
          vh::expect(std::count(l.begin(), l.end(), got) == 1, k.name + ":byMoro", "not found once by Morohashi id");
        }
        for (auto n : k.nelson) {
          const auto& l{d.findByNelsonId(static_cast<kt::Kanji::NelsonId>(n))};
          vh::expect(std::count(l.begin(), l.end(), got) >= 1, k.name + ":byNelson", "not found by Nelson id");
        }
      }
  for (unsigned b{}; b < 0x400; ++b) {
    const bool kanji{(b >= 0x2e && b < 0xa0) || (b >= 0xf9 && b < 0xff) || (b >= 0x200 && b < 0x315)};
    if (!vh::begin("code points " + std::to_string(b * 256))) continue;
    for (uint32_t c{b * 256}; c < (b + 1) * 256; ++c) {
      if (!ref::scalar(c) || !c || (!kanji && (c & 15))) continue;
      const auto s{ref::enc(c)};
      byName(d, m, s);
      const bool used{m.ucd.contains(s)};
      for (uint32_t v{0xfe00}; v < 0xfe10; ++v)
        if (vh::g().thorough || used || (c + v) % 61 == 0) byName(d, m, s + ref::enc(v));
      if (used) {
        byName(d, m, s + s);
        byName(d, m, s + "a");
        byName(d, m, ref::enc(0xfe00) + s);
        byName(d, m, s + ref::enc(0xfe00) + ref::enc(0xfe01));
        byName(d, m, s + ref::enc(0x3099));
        byName(d, m, s.substr(0, s.size() - 1));
      }
    }
  }
  for (unsigned b{}; b < 256; ++b)
    if (vh::begin("numbers " + std::to_string(b * 256)))
      for (unsigned n{b * 256}; n < (b + 1) * 256; ++n) {
        const auto s{std::to_string(n)};
        const auto f{d.findByFrequency(static_cast<kt::Kanji::Frequency>(n))};
        vh::trace(6);
        vh::same(f ? f->name() : Str{}, n && n <= m.freq.size() ? m.find(m.freq[n - 1])->name : Str{}, "freq" + s, "findByFrequency(" + s + ")");
        const auto i{m.byNelson.find(n)};
        vh::same(names(d.findByNelsonId(static_cast<kt::Kanji::NelsonId>(n))), i == m.byNelson.end() ? Str{} : names(i->second), "nelson" + s, "findByNelsonId(" + s + ")");
        for (int t{}; t < 4; ++t) {
          if (!n && t) continue;
          const ref::Moro id{n, t};
          const auto j{m.byMoro.find(id)};
          const auto want{j == m.byMoro.end() ? Str{} : names(j->second)};
          const auto x{ref::moroText(id)};
          vh::step();
          vh::same(names(d.findByMorohashiId(x)), want, "moro" + x, "findByMorohashiId(\"" + x + "\")");
          vh::same(names(d.findByMorohashiId(kt::MorohashiId{x})), want, "moroId" + x, "findByMorohashiId(" + x + ")");
        }
      }
}

void small() {
  Mini mini;
  const auto all{roles(true)};
  vh::count("roles", vh::g().shard ? 0 : all.size());
  const auto one{[&](const std::vector<size_t>& w, bool wide) {
    std::vector<Role> r;
    Str key{wide ? "wide" : "mini"};
    for (auto i : w) {
      r.push_back(all[i]);
      key += "." + std::to_string(i);
    }
    mini.write(r, wide);
    vh::trace();
    vh::state(key);
    try {
      const Real real{mini.dir};
      const ref::Kanji m{mini.dir};
      const auto& d{*real.data};
      vh::same(real.err.str(), Str{}, key + ":err", "errors printed while loading");
      compareLists(d, m, key);
      for (auto& i : m.all) {
        const auto got{d.findByName(i.name)};
        if (vh::expect(static_cast<bool>(got), key + i.name, i.name + " isn't found")) compareKanji(*got, i, m, key);
      }
      for (const auto *p{slots(wide)}, *e{p + 3}; p != e; ++p)
        for (const auto& n : {Str{p->jouyou}, Str{p->jinmei}, Str{p->name}, Str{p->compat}, p->jouyou + ref::enc(0xfe00), p->jouyou + ref::enc(0xfe01), p->name + ref::enc(0xfe00)}) byName(d, m, n, key);
      for (unsigned i{}; i < 6; ++i) {
        const auto f{d.findByFrequency(static_cast<kt::Kanji::Frequency>(i))};
        vh::same(f ? f->name() : Str{}, i && i <= m.freq.size() ? m.find(m.freq[i - 1])->name : Str{}, key + "freq" + std::to_string(i), "findByFrequency");
      }
      for (unsigned i{}; i < 30; ++i) {
        const auto x{m.byNelson.find(i)};
        vh::same(names(d.findByNelsonId(static_cast<kt::Kanji::NelsonId>(i))), x == m.byNelson.end() ? Str{} : names(x->second), key + "nelson", "findByNelsonId");
        for (int t{}; t < 2; ++t) {
          const auto y{m.byMoro.find({i, t})};
          if (i) vh::same(names(d.findByMorohashiId(ref::moroText({i, t}))), y == m.byMoro.end() ? Str{} : names(y->second), key + "moro", "findByMorohashiId");
        }
      }
    } catch (const std::exception& e) {
      vh::fail(key, Str{"loading failed: "} + e.what());
    }
  }};
  const auto check{[&](const std::vector<size_t>& w) {
    one(w, false);
    one(w, true);
  }};
  for (size_t i{}; i < all.size(); ++i) {
    if (vh::begin("small data " + std::to_string(i))) check({i});
    for (size_t j{}; j < all.size(); ++j)
      if (vh::begin("small data " + std::to_string(i) + "," + std::to_string(j))) {
        check({i, j});
        if (vh::g().thorough)
          for (size_t k{j % 5}; k < all.size(); k += 5) check({i, j, k});
      }
  }
}

} // namespace

int main(int argc, char** argv) {
  return vh::run(argc, argv, [] {
#ifdef SMALL // (a process only ever loads one size of frequency list)
    small();
#else
    full();
#endif
  });
}
