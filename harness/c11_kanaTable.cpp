// C11: the Kana table, its links and the printed chart vs the frozen chart
#include "ref_conv.h"
#include "vh.h"
#include <kt_kana/Kana.h>
#include <kt_kana/KanaConvert.h>
#include <kt_utils/Args.h>

using namespace kanji_tools;

namespace {

ConvertFlags flags(int fl) {
  auto f{ConvertFlags::None};
  if (fl & 1) f |= ConvertFlags::Hepburn;
  if (fl & 2) f |= ConvertFlags::Kunrei;
  if (fl & 4) f |= ConvertFlags::NoProlongMark;
  if (fl & 8) f |= ConvertFlags::RemoveSpaces;
  return f;
}
ref::Flags refFlags(int fl) { return {(fl & 1) != 0, (fl & 2) != 0, (fl & 4) != 0, (fl & 8) != 0}; }

uint32_t code(const std::string& s) { return ref::dec(s)[0]; }
struct Links {
  std::string dakuten, hanDakuten, plain; // Hiragana
};
/// partners by Unicode composition of the first Kana
Links links(const std::string& h) {
  const auto& m{ref::chart().hira};
  Links r;
  const std::string a{h.substr(0, 3)}, rest{h.substr(3)};
  const auto find{[&](const std::string& x) { return !x.empty() && m.contains(x + rest) ? x + rest : std::string{}; }};
  r.dakuten = find(ref::compose(a, 0x3099));
  r.hanDakuten = find(ref::compose(a, 0x309a));
  for (auto& u : ref::chart().units)
    if (const std::string o{u.row->hira}; o.substr(3) == rest && (ref::compose(o.substr(0, 3), 0x3099) == a || ref::compose(o.substr(0, 3), 0x309a) == a)) r.plain = o;
  return r;
}
std::string kata(const std::string& h) { return h.empty() ? h : ref::chart().hira.at(h)->row->kata; }
std::string hiraOf(const Kana* k) { return k ? k->hiragana() : ""; }
std::string str(const Kana::OptString& s) { return s ? *s : ""; }

void entry(const ref::Unit& u) {
  const auto& r{*u.row};
  const std::string h{r.hira}, k{r.kata}, key{h};
  const auto& mh{Kana::getMap(CharType::Hiragana)};
  const auto i{mh.find(h)};
  vh::trace();
  if (!vh::expect(i != mh.end(), key + ":hira", h + " isn't in the Hiragana map")) return;
  const auto& e{*i->second};
  vh::state(h);
  vh::same(e.romaji(), r.roma, key + ":roma", "romaji()");
  vh::same(e.hiragana(), h, key + ":h", "hiragana()");
  vh::same(e.katakana(), k, key + ":k", "katakana()");
  std::vector<std::string> v{r.variants.begin(), r.variants.end()};
  vh::expect(e.romajiVariants() == v, key + ":variants", "Rōmaji variants of " + h + " aren't those of the chart");
  vh::same(e.kunreiVariant(), *r.kunrei && r.kunrei[0] != '(', key + ":kv", "kunreiVariant()");
  const auto lookup{[&](CharType t, const std::string& s) {
    const auto& m{Kana::getMap(t)};
    const auto f{m.find(s)};
    vh::step();
    vh::trace();
    vh::expect(f != m.end() && f->second == &e, key + ":lookup:" + s, "lookup of '" + s + "' doesn't give the entry of " + h);
  }};
  lookup(CharType::Katakana, k);
  lookup(CharType::Romaji, r.roma);
  for (auto& s : v) lookup(CharType::Romaji, s);
  const auto l{links(h)};
  vh::same(hiraOf(e.dakuten()), l.dakuten, key + ":dakuten", "dakuten()");
  vh::same(hiraOf(e.hanDakuten()), l.hanDakuten, key + ":hanDakuten", "hanDakuten()");
  vh::same(hiraOf(e.plain()), l.plain, key + ":plain", "plain()");
  for (auto p : {e.dakuten(), e.hanDakuten(), e.plain()})
    if (p) vh::expect(mh.contains(p->hiragana()) && mh.at(p->hiragana()) == p, key + ":linked", "an entry linked from " + h + " isn't the one in the map");
  if (e.dakuten()) vh::expect(e.dakuten()->plain() == &e, key + ":back", "dakuten()->plain() isn't the entry of " + h);
  if (e.hanDakuten()) vh::expect(e.hanDakuten()->plain() == &e, key + ":hback", "hanDakuten()->plain() isn't the entry of " + h);
  const auto plain{h.substr(0, 3)};
  vh::same(e.isDakuten(), r.type == 'D', key + ":isD", "isDakuten()");
  vh::same(e.isHanDakuten(), r.type == 'H', key + ":isH", "isHanDakuten()");
  vh::same(e.isMonograph(), h.size() == 3, key + ":mono", "isMonograph()");
  vh::same(e.isDigraph(), h.size() == 6, key + ":di", "isDigraph()");
  const bool small{h.size() == 3 && std::string_view{"ぁぃぅぇぉっゃゅょゎゕゖ"}.find(h) != std::string_view::npos};
  vh::same(e.isSmall(), small, key + ":small", "isSmall()");
  if (h.size() == 6) vh::expect(mh.contains(h.substr(3)) && mh.at(h.substr(3))->isSmall() && !mh.at(plain)->isSmall(), key + ":digraph", h + " isn't a large Kana followed by a small one");
  if (small && h != "ゕ" && h != "ゖ") { // small forms directly precede the large ones
    const auto big{ref::enc(code(h) + 1)}, bigK{ref::enc(code(k) + 1)};
    vh::expect(mh.contains(big) && !mh.at(big)->isSmall() && mh.at(big)->katakana() == bigK, key + ":large", "the large version of " + h);
  }
  if (h.size() == 3) vh::same(code(k) - code(h), 0x60U, key + ":offset", "code point offset of Katakana");
  for (int fl{}; fl < 16; ++fl) {
    const auto f{flags(fl)};
    const auto& want{u.romaji(refFlags(fl))};
    const auto fk{key + ":f" + std::to_string(fl)};
    vh::trace();
    vh::step(4);
    vh::outcome(want);
    vh::same(e.getRomaji(f), want, fk, "getRomaji()");
    vh::same(e.get(CharType::Romaji, f), want, fk + ":get", "get(Romaji)");
    vh::same(e.get(CharType::Hiragana, f), h, fk + ":geth", "get(Hiragana)");
    vh::same(e.get(CharType::Katakana, f), k, fk + ":getk", "get(Katakana)");
    if (ref::repeatable(want[0])) vh::same(e.getSokuonRomaji(f), (want[0] == 'c' ? "t" : want.substr(0, 1)) + want, fk + ":sokuon", "getSokuonRomaji()");
    // iteration marks after this Kana
    for (int m{}; m < 2; ++m) {
      const auto& mark{m ? Kana::RepeatAccented : Kana::RepeatPlain};
      auto w{h};
      if (m && !l.dakuten.empty()) w = l.dakuten;
      if (!m && !l.plain.empty()) w = l.plain;
      vh::same(mark.get(CharType::Romaji, f, &e), ref::chart().hira.at(w)->romaji(refFlags(fl)), fk + ":mark" + std::to_string(m), "iteration mark after " + h);
      vh::same(mark.get(CharType::Hiragana, f, &e), m ? "ゞ" : "ゝ", fk + ":markh" + std::to_string(m), "Hiragana iteration mark");
      vh::same(mark.get(CharType::Katakana, f, &e), m ? "ヾ" : "ヽ", fk + ":markk" + std::to_string(m), "Katakana iteration mark");
      vh::same(mark.get(CharType::Romaji, f, nullptr), "", fk + ":marknone", "iteration mark after nothing");
    }
  }
  for (auto& o : ref::chart().units) {
    const auto j{mh.find(o.row->hira)};
    if (j == mh.end()) continue;
    vh::step();
    vh::same(e == *j->second, &o == &u, key + ":eq:" + o.row->hira, "operator==");
    vh::same(e.containsKana(o.row->hira), &o == &u, key + ":ch:" + o.row->hira, "containsKana");
    vh::same(e.containsKana(o.row->kata), &o == &u, key + ":ck:" + o.row->hira, "containsKana");
    vh::same(e.containsKana(o.row->roma), false, key + ":cr:" + o.row->hira, "containsKana");
  }
  vh::same(str(e.dakuten(CharType::Hiragana)), l.dakuten, key + ":dh", "dakuten(Hiragana)");
  vh::same(str(e.dakuten(CharType::Katakana)), kata(l.dakuten), key + ":dk", "dakuten(Katakana)");
  vh::same(str(e.dakuten(CharType::Romaji)), l.dakuten.empty() ? "" : ref::chart().hira.at(l.dakuten)->roma, key + ":dr", "dakuten(Romaji)");
  vh::same(str(e.hanDakuten(CharType::Hiragana)), l.hanDakuten, key + ":hh", "hanDakuten(Hiragana)");
  vh::same(str(e.hanDakuten(CharType::Katakana)), kata(l.hanDakuten), key + ":hk", "hanDakuten(Katakana)");
  vh::same(str(e.hanDakuten(CharType::Romaji)), l.hanDakuten.empty() ? "" : ref::chart().hira.at(l.hanDakuten)->roma, key + ":hr", "hanDakuten(Romaji)");
}

/// string lookups of anything
void lookups(const std::string& s) {
  vh::trace();
  vh::step(7);
  const auto key{"find:" + s};
  const auto& c{ref::chart()};
  const auto in{[&](const auto& m) {
    const auto i{m.find(s)};
    return i == m.end() ? nullptr : i->second;
  }};
  const auto *h{in(c.hira)}, *k{in(c.kata)}, *r{in(c.roma)};
  const auto got{[&](CharType t) {
    const auto& m{Kana::getMap(t)};
    const auto i{m.find(s)};
    return i == m.end() ? std::string{} : i->second->romaji();
  }};
  vh::same(got(CharType::Hiragana), h ? h->roma : "", key + ":h", "Hiragana map");
  vh::same(got(CharType::Katakana), k ? k->roma : "", key + ":k", "Katakana map");
  vh::same(got(CharType::Romaji), r ? r->roma : "", key + ":r", "Rōmaji map");
  const auto* u{h ? h : k};
  const auto l{u ? links(u->row->hira) : Links{}};
  vh::same(str(Kana::findDakuten(s)), k ? kata(l.dakuten) : l.dakuten, key + ":d", "findDakuten");
  vh::same(str(Kana::findHanDakuten(s)), k ? kata(l.hanDakuten) : l.hanDakuten, key + ":hd", "findHanDakuten");
  for (int t{}; t < 3; ++t) {
    const auto ct{t == 0 ? CharType::Hiragana : t == 1 ? CharType::Katakana : CharType::Romaji};
    const std::string p{t == 0 ? "ゝ" : t == 1 ? "ヽ" : "-"}, a{t == 0 ? "ゞ" : t == 1 ? "ヾ" : "-"};
    const auto* m{Kana::findIterationMark(ct, s)};
    const Kana::IterationMark* want{t == 2 ? nullptr : s == p ? &Kana::RepeatPlain : s == a ? &Kana::RepeatAccented : nullptr};
    vh::expect(m == want, key + ":mark" + std::to_string(t), "findIterationMark('" + s + "')");
    vh::same(Kana::RepeatPlain.matches(ct, s), want == &Kana::RepeatPlain, key + ":mp" + std::to_string(t), "RepeatPlain.matches");
    vh::same(Kana::RepeatAccented.matches(ct, s), want == &Kana::RepeatAccented, key + ":ma" + std::to_string(t), "RepeatAccented.matches");
  }
}

std::vector<std::string> cells(const std::string& line) { // '| a | b |'
  std::vector<std::string> r;
  std::string c;
  for (size_t i{1}; i < line.size(); ++i)
    if (line[i] == '|') {
      const auto b{c.find_first_not_of(' ')}, e{c.find_last_not_of(' ')};
      c = b == std::string::npos ? "" : c.substr(b, e - b + 1);
      if (c.size() > 4 && c.starts_with("**") && c.ends_with("**")) c = c.substr(2, c.size() - 4);
      r.push_back(c);
      c.clear();
    } else
      c += line[i];
  return r;
}

void chart(bool markdown) {
  std::ostringstream out;
  const char* argv[]{"kanaConvert", markdown ? "-m" : "-p"};
  std::istringstream in;
  KanaConvert{Args{2, argv}, out, &in};
  std::vector<std::vector<std::string>> got, want;
  std::string line, totals;
  bool foot{};
  for (std::istringstream s{out.str()}; std::getline(s, line);) {
    if (line.starts_with("| ") && !line.starts_with("| --")) got.push_back(cells(line));
    if (line.find("Totals:") != std::string::npos) foot = true;
    if (foot) totals += line + '\n';
  }
  const std::string key{markdown ? "chart:m" : "chart:p"};
  const auto uni{[](const std::string& s) {
    char b[8];
    snprintf(b, sizeof b, "%04X", code(s));
    return std::string{b};
  }};
  want.push_back({"No.", "Type", "Roma", "Hira", "Kata", "HUni", "KUni", "Hepb", "Kunr", "Roma Variants"});
  size_t n{};
  std::map<char, int> mono, di;
  int variants{}, smalls{};
  for (auto& r : ref::kanaRows()) {
    std::string v;
    for (auto x : r.variants) v += (v.empty() ? "" : ", ") + std::string{x};
    variants += static_cast<int>(r.variants.size());
    const std::string h{r.hira}, k{r.kata};
    const bool m{h.size() == 3};
    if (m && r.roma[0] == 'l')
      ++smalls;
    else
      ++(m ? mono : di)[r.type];
    want.push_back({std::to_string(++n), std::string(1, r.type), r.roma, h, k, m ? uni(h) : "", m ? uni(k) : "", r.hepburn, r.kunrei, v});
  }
  const auto none{[&](const char* r, const std::string& h, const std::string& k) { want.push_back({std::to_string(++n), "N", r, h, k, h.empty() ? "" : uni(h), uni(k), "", "", ""}); }};
  none("/", "", "・");
  none("", "", "ー");
  none("", "ゝ", "ヽ");
  none("", "ゞ", "ヾ");
  vh::same(got.size(), want.size(), key + ":rows", "rows of the chart");
  for (size_t i{}; i < std::min(got.size(), want.size()); ++i) {
    vh::trace();
    vh::step(10);
    const auto join{[](const auto& l) {
      std::string r;
      for (auto& x : l) r += x + '|';
      return r;
    }};
    vh::same(join(got[i]), join(want[i]), key + ":" + std::to_string(i), "chart row");
  }
  // totals
  const auto sum{[](const std::map<char, int>& m) {
    int t{};
    for (auto& x : m) t += x.second;
    return t;
  }};
  const auto num{[](int x) { return std::to_string(x); }};
  const auto has{[&](const std::string& s) { vh::expect(totals.find(s) != std::string::npos, key + ":total:" + s, "totals don't show '" + s + "': " + totals); }};
  const int nm{sum(mono) + smalls}, nd{sum(di)};
  has(num(nm) + " (Plain=" + num(mono['P']) + ", Dakuten=" + num(mono['D']) + ", HanDakuten=" + num(mono['H']) + ", Small=" + num(smalls) + ")");
  has(num(nd) + " (Plain=" + num(di['P']) + ", Dakuten=" + num(di['D']) + ", HanDakuten=" + num(di['H']) + ")");
  has(num(nm + nd) + " (Monographs=" + num(nm) + ", Digraphs=" + num(nd) + "), Rōmaji Variants=" + num(variants));
  has(num(nm + nd + 4) + " (P=" + num(mono['P'] + di['P'] + smalls) + ", D=" + num(mono['D'] + di['D']) + ", H=" + num(mono['H'] + di['H']) + ", N=4)");
}

void body() {
  const auto& c{ref::chart()};
  for (auto& u : c.units)
    if (vh::begin(std::string{"entry "} + u.row->hira)) entry(u);
  if (vh::begin("sizes and globals")) {
    vh::trace();
    vh::same(Kana::getMap(CharType::Hiragana).size(), c.hira.size(), "size:h", "entries of the Hiragana map");
    vh::same(Kana::getMap(CharType::Katakana).size(), c.kata.size(), "size:k", "entries of the Katakana map");
    vh::same(Kana::getMap(CharType::Romaji).size(), c.roma.size(), "size:r", "entries of the Rōmaji map");
    for (auto t : {CharType::Hiragana, CharType::Katakana, CharType::Romaji})
      for (auto& [s, k] : Kana::getMap(t)) {
        const auto i{Kana::getMap(CharType::Hiragana).find(k->hiragana())};
        vh::expect(i != Kana::getMap(CharType::Hiragana).end() && i->second == k, "canon:" + s, "entries of the maps for '" + s + "' differ");
        vh::expect(t == CharType::Hiragana ? k->hiragana() == s : t == CharType::Katakana ? k->katakana() == s : k->romaji() == s || std::find(k->romajiVariants().begin(), k->romajiVariants().end(), s) != k->romajiVariants().end(), "key:" + s, "key '" + s + "' isn't a spelling of its entry");
      }
    vh::same(Kana::SmallTsu.hiragana(), "っ", "smalltsu", "SmallTsu");
    vh::same(Kana::N.hiragana(), "ん", "n", "N");
    vh::expect(&Kana::SmallTsu == Kana::getMap(CharType::Romaji).at("ltu"), "smalltsu:map", "SmallTsu isn't the entry of the map");
    vh::expect(&Kana::N == Kana::getMap(CharType::Romaji).at("n"), "n:map", "N isn't the entry of the map");
    vh::same(Kana::RepeatPlain.hiragana() + Kana::RepeatPlain.katakana() + Kana::RepeatAccented.hiragana() + Kana::RepeatAccented.katakana(), "ゝヽゞヾ", "marks", "iteration marks");
    vh::same(Kana::ProlongMark, "ー", "prolong", "ProlongMark");
  }
  // every code point of the Kana blocks (and around), alone and in pairs
  for (uint32_t a{0x3030}; a < 0x3110; ++a)
    if (vh::begin("lookups starting with " + ref::enc(a))) {
      lookups(ref::enc(a));
      for (uint32_t b{0x3030}; b < 0x3110; ++b) lookups(ref::enc(a) + ref::enc(b));
      vh::sample([&] { return "lookups of " + ref::enc(a) + "ぁ"; });
    }
  if (vh::begin("lookups of letters")) {
    lookups("");
    vh::words(26, 1, vh::g().thorough ? 4 : 3, [](auto& w) {
      std::string s;
      for (auto i : w) s += static_cast<char>('a' + i);
      lookups(s);
    });
  }
  for (bool m : {true, false})
    if (vh::begin(m ? "Markdown chart" : "terminal chart")) chart(m);
}

} // namespace

int main(int c, char** v) { return vh::run(c, v, body); }
