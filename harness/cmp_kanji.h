// Compares a loaded KanjiData with the reference model (shared by C19 and C21)
#pragma once
#include "ref_kanji.h"
#include "vh.h"
#include <kt_kanji/OfficialKanji.h>
#include <kt_kanji/TextKanjiData.h>
#include <kt_utils/Exception.h>

namespace kt = kanji_tools;

/// data directory loaded by the real class, with what was printed
struct Real {
  std::ostringstream out, err;
  std::unique_ptr<kt::TextKanjiData> data;
  explicit Real(const std::string& dir, const char* extra = nullptr) {
    const char* argv[]{"", "-data", dir.c_str(), extra};
    data = std::make_unique<kt::TextKanjiData>(kt::Args{extra ? 4 : 3, argv}, out, err);
  }
};

inline std::string names(const kt::KanjiData::List& l) {
  std::string r;
  for (auto& i : l) r += i->name() + " ";
  return r;
}
inline std::string names(const ref::Strs& l) {
  std::string r;
  for (auto& i : l) r += i + " ";
  return r;
}
template <typename T> std::string text(T x) { return kt::hasValue(x) ? kt::toString(x) : std::string{}; }

/// every attribute of one Kanji
inline void compareKanji(const kt::Kanji& k, const ref::K& m, const ref::Kanji& model, const std::string& pre = {}) {
  const auto key{pre + m.name + ":"};
  const auto eq{[&](const auto& got, const auto& want, const char* what) {
    vh::step();
    vh::same(got, want, key + what, m.name + " " + what);
  }};
  eq(k.name(), m.name, "name");
  eq(text(k.type()), m.type, "type");
  eq(k.compatibilityName(), m.compat, "compatibilityName");
  eq(k.variant(), m.variant, "variant");
  eq(k.nonVariantName(), ref::enc(ref::dec(m.name)[0]), "nonVariantName");
  eq(unsigned{k.frequency()}, m.freq, "frequency");
  eq(unsigned{k.frequencyOrMax()}, m.freq ? m.freq : 65535U, "frequencyOrMax");
  eq(unsigned{k.frequencyOrDefault(7777)}, m.freq ? m.freq : 7777U, "frequencyOrDefault");
  eq(text(k.level()), m.level, "level");
  eq(text(k.kyu()), m.kyu, "kyu");
  eq(text(k.grade()), m.grade, "grade");
  eq(k.hasLevel(), !m.level.empty(), "hasLevel");
  eq(k.hasKyu(), !m.kyu.empty(), "hasKyu");
  eq(k.hasGrade(), !m.grade.empty(), "hasGrade");
  eq(text(k.reason()), m.reason, "reason");
  eq(unsigned{k.year()}, m.year, "year");
  eq(k.radical().number(), static_cast<kt::Radical::Number>(m.radical), "radical");
  eq(k.radical().name(), model.rads.at(m.radical - 1).name, "radicalName");
  eq(unsigned{k.strokes().value()}, m.strokes, "strokes");
  eq(unsigned{k.strokes().variant()}, m.vstrokes, "variantStrokes");
  eq(k.meaning(), m.meaning, "meaning");
  eq(k.hasMeaning(), !m.meaning.empty(), "hasMeaning");
  if (m.readings.empty())
    eq(k.reading(), m.reading, "reading");
  else
    vh::expect(ref::accepts(m.readings, k.reading()), key + "reading", m.name + " reading: got '" + k.reading() + "', expected '" + ref::list(m.readings) + "'");
  eq(k.hasReading(), !k.reading().empty(), "hasReading");
  eq(names(k.oldNames()), names(m.oldNames), "oldNames");
  eq(k.newName().has_value(), m.hasNew, "newName?");
  eq(k.newName().value_or(""), m.newName, "newName");
  eq(k.link() ? k.link()->name() : std::string{}, m.link, "link");
  eq(k.linkedReadings(), m.linkedReadings, "linkedReadings");
  eq(k.pinyin().name(), m.pinyin, "pinyin");
  eq(k.morohashiId().toString(), ref::moroText(m.moro), "morohashiId");
  eq(std::vector<unsigned>(k.nelsonIds().begin(), k.nelsonIds().end()) == m.nelson, true, "nelsonIds");
  eq(k.hasNelsonIds(), !m.nelson.empty(), "hasNelsonIds");
  eq(k.extraTypeInfo().value_or(""), m.extra, "extraTypeInfo");
  for (const auto t : kt::AllKanjiTypes) eq(k.is(t), text(t) == m.type, "is");
}

/// all lists per enum value
inline void compareLists(const kt::KanjiData& d, const ref::Kanji& m, const std::string& pre = {}) {
  const auto lists{[&](const auto& all, const auto& got, const auto& want, const char* what) {
    for (const auto i : all) {
      const auto n{kt::toString(i)};
      const auto w{want.find(n)};
      vh::step();
      vh::same(names(got[i]), w == want.end() ? "" : names(w->second), pre + what + n, std::string{what} + " list " + n);
    }
  }};
  lists(kt::AllKanjiTypes, d.types(), m.types, "type ");
  lists(kt::AllKanjiGrades, d.grades(), m.grades, "grade ");
  // entries of list files are Kanji, found under either of their names
  const auto found{[&](const auto& x) {
    std::map<std::string, ref::Strs> r;
    for (auto& i : x)
      for (auto& j : i.second) {
        const auto* k{m.find(j)};
        r[i.first].push_back(k ? k->name : "?" + j);
      }
    return r;
  }};
  lists(kt::AllJlptLevels, d.levels(), found(m.levels), "level ");
  lists(kt::AllKenteiKyus, d.kyus(), found(m.kyus), "kyu ");
  std::vector<ref::Strs> buckets(10);
  for (size_t i{}; i < m.freq.size(); ++i) buckets[std::min<size_t>(i / 250, 9)].push_back(m.find(m.freq[i])->name);
  for (size_t i{}; i < 12; ++i) vh::same(names(d.frequencyList(i)), i < 10 ? names(buckets[i]) : "", pre + "bucket" + std::to_string(i), "frequencyList " + std::to_string(i));
  vh::same(d.nameMap().size(), m.all.size(), pre + "total", "number of Kanji");
  for (auto& i : d.nameMap()) vh::expect(i.second && i.first == i.second->name() && m.names.contains(i.first), pre + "map" + i.first, "name map has " + i.first);
}
