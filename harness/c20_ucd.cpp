// C20: the Unicode data file is loaded faithfully or refused
#include "ref_kanji.h"
#include "vh.h"
#include <algorithm>
#include <kt_kanji/UcdData.h>
#include <kt_utils/Exception.h>

namespace kt = kanji_tools;
using ref::Str;
using ref::Strs;

namespace {

const Strs Cols{"Code", "Name", "Block", "Version", "Radical", "Strokes", "VStrokes", "Pinyin", "MorohashiId", "NelsonIds", "Sources",
    "JSource", "Joyo", "Jinmei", "LinkCodes", "LinkNames", "LinkType", "Meaning", "On", "Kun", "Japanese"};
enum { Code, Name, Block, Version, Radical, Strokes, VStrokes, Pinyin, Moro, Nelson, Sources, JSource, Joyo, Jinmei, LinkCodes, LinkNames, LinkType, Meaning, On, Kun, Japanese, N };

const Strs LinkTypes{"Compatibility*", "Definition*", "Jinmei*", "Semantic*", "Simplified*", "Traditional*", "Compatibility", "Definition", "Jinmei", "Simplified", "Traditional"};

using Row = Strs;

bool number(const Str& s, unsigned long long max, unsigned long long& v) {
  v = 0;
  if (s.empty()) return false;
  for (auto c : s) {
    if (c < '0' || c > '9') return false;
    v = v * 10 + static_cast<unsigned>(c - '0');
    if (v > 1000000) v = 1000000;
  }
  return v <= max;
}
bool hex(const Str& s, uint32_t& v) {
  v = 0;
  if (s.size() < 4 || s.size() > 5) return false;
  for (auto c : s) {
    const auto p{Str{"0123456789ABCDEF"}.find(c)};
    if (p == Str::npos) return false;
    v = v * 16 + static_cast<uint32_t>(p);
  }
  return true;
}
/// Kanji blocks (UnicodeBlock.h): common and rare
bool kanji(const Str& s) {
  if (s.empty()) return false;
  const auto u{ref::dec(s)};
  if (u.size() != 1 || ref::enc(u[0]) != s) return false;
  static const uint32_t b[][2]{{0x3400, 0x4dbf}, {0x4e00, 0x9fff}, {0xf900, 0xfaff}, {0x20000, 0x2a6df}, {0x2e80, 0x2eff}, {0x2a700, 0x2ebef}, {0x2f800, 0x2fa1f}, {0x30000, 0x3134f}};
  for (auto& i : b)
    if (u[0] >= i[0] && u[0] <= i[1]) return true;
  return false;
}
bool flag(const Str& s, bool& v) {
  v = s == "Y" || s == "T";
  return s.empty() || v || s == "N" || s == "F";
}
bool morohashi(Str s) {
  if (s.empty()) return true;
  const auto ends{[&](const char* x) { return s.size() >= strlen(x) && s.substr(s.size() - strlen(x)) == x; }};
  bool plain{};
  if (ends("PP") || ends("''"))
    s.resize(s.size() - 2);
  else if (ends("P") || ends("'"))
    s.resize(s.size() - 1);
  else if (s[0] == 'H')
    s.erase(0, 1);
  else
    plain = true;
  unsigned long long v;
  return number(s, 65535, v) && (plain || v);
}

struct Loaded {
  std::map<Str, Row> rows;
  std::map<Str, Str> jinmei; // standard name to Jinmei variant
};
enum class V { Ok, Bad, Open };

/// is this row acceptable after the ones loaded (which it is then added to)
V load(const Row& r, Loaded& l) {
  if (r[On].empty() && r[Kun].empty() && r[Moro].empty() && r[JSource].empty()) return V::Bad;
  unsigned long long rad, strokes, vs;
  uint32_t code;
  bool joyo, jinmei;
  if (r[Name].size() > 4 || !kanji(r[Name]) || !hex(r[Code], code) || ref::enc(code) != r[Name]) return V::Bad;
  if (!number(r[Radical], 214, rad) || !rad) return V::Bad;
  if (!flag(r[Joyo], joyo) || !flag(r[Jinmei], jinmei) || (joyo && jinmei)) return V::Bad;
  if (joyo && r[Meaning].empty()) return V::Bad;
  if (!number(r[Strokes], 64, strokes) || !strokes) return V::Bad;
  if (!r[VStrokes].empty() && (strokes < 2 || !number(r[VStrokes], 33, vs) || vs < 3 || vs == strokes)) return V::Bad;
  if (!morohashi(r[Moro])) return V::Bad;
  for (size_t i{}; i < r[Sources].size(); ++i)
    if (Str{"GHJKTV"}.find(r[Sources][i]) == Str::npos || r[Sources].find(r[Sources][i]) != i) return V::Bad;
  if (!r[LinkType].empty() && std::find(LinkTypes.begin(), LinkTypes.end(), r[LinkType]) == LinkTypes.end()) return V::Bad;
  if (r[LinkNames].empty() != r[LinkType].empty() || (r[LinkNames].empty() && !r[LinkCodes].empty())) return V::Bad;
  bool open{};
  Strs names;
  if (!r[LinkNames].empty()) {
    if (joyo) return V::Bad;
    names = ref::split(r[LinkNames], ',');
    const auto codes{ref::split(r[LinkCodes], ',')};
    // a separator at the end and surplus codes aren't specified
    if (names.back().empty()) {
      open = true;
      names.pop_back();
    }
    if (codes.size() > names.size()) open = true;
    for (size_t i{}; i < names.size(); ++i)
      if (i >= codes.size() || !hex(codes[i], code) || !kanji(names[i]) || ref::enc(code) != names[i]) return V::Bad;
    if (jinmei)
      for (size_t i{}; i < names.size(); ++i)
        if (l.jinmei.contains(names[i]) || std::find(names.begin(), names.begin() + static_cast<long>(i), names[i]) != names.begin() + static_cast<long>(i)) return V::Bad;
  }
  if (l.rows.contains(r[Name])) return V::Bad;
  if (open) return V::Open;
  if (jinmei)
    for (auto& n : names) l.jinmei[n] = r[Name];
  l.rows[r[Name]] = r;
  return V::Ok;
}

Str join(const Strs& s) {
  Str r;
  for (size_t i{}; i < s.size(); ++i) r += (i ? "\t" : "") + s[i];
  return r;
}

Str path() { return vh::g().scratch + "/testUcd.txt"; }
/// writes rows with the columns rotated by `rot`
void write(const std::vector<Row>& rows, size_t rot) {
  const auto line{[rot](const Row& r) {
    Strs x;
    for (size_t i{}; i < N; ++i) x.push_back(r[(i + rot) % N]);
    return join(x) + "\n";
  }};
  Str t{line(Cols)};
  for (auto& r : rows) t += line(r);
  FILE* f{fopen(path().c_str(), "wb")};
  if (!f || fwrite(t.data(), 1, t.size(), f) != t.size()) abort();
  fclose(f);
}

/// everything that can be asked about an entry
void compare(const kt::UcdData& d, const Row& r, const Str& key) {
  const auto* u{d.find(r[Name])};
  if (!vh::expect(u, key + ":find", r[Name] + " isn't found")) return;
  const auto eq{[&](const auto& got, const auto& want, const char* what) {
    vh::step();
    vh::same(got, want, key + ":" + what, r[Name] + " " + what);
  }};
  const auto uni{[](const Str& s) {
    char b[16];
    snprintf(b, sizeof b, "[%04X] ", static_cast<unsigned>(ref::dec(s)[0]));
    return b + s;
  }};
  const auto num{[](const Str& s) { return s.empty() ? 0UL : std::stoul(s); }};
  eq(u->name(), r[Name], "name");
  eq(static_cast<uint32_t>(u->code()), static_cast<uint32_t>(ref::dec(r[Name])[0]), "code");
  eq(u->codeAndName(), uni(r[Name]), "codeAndName");
  eq(u->entry().name(), r[Name], "entry");
  eq(u->block().name(), r[Block], "block");
  eq(u->version().name(), r[Version], "version");
  eq(static_cast<unsigned long>(u->radical()), num(r[Radical]), "radical");
  eq(static_cast<unsigned long>(u->strokes().value()), num(r[Strokes]), "strokes");
  eq(static_cast<unsigned long>(u->strokes().variant()), num(r[VStrokes]), "vstrokes");
  eq(u->strokes().hasVariant(), !r[VStrokes].empty(), "hasVariant");
  eq(u->pinyin().name(), r[Pinyin], "pinyin");
  eq(u->morohashiId().toString(), ref::moroText(ref::moro(r[Moro])), "morohashi");
  eq(u->nelsonIds(), r[Nelson], "nelson");
  auto src{r[Sources]};
  std::sort(src.begin(), src.end());
  eq(u->sources(), src, "sources");
  eq(u->jSource(), r[JSource], "jsource");
  bool b{};
  flag(r[Joyo], b);
  eq(u->joyo(), b, "joyo");
  flag(r[Jinmei], b);
  eq(u->jinmei(), b, "jinmei");
  const auto links{r[LinkNames].empty() ? Strs{} : ref::split(r[LinkNames], ',')};
  Str text, got, want;
  for (auto& l : links) {
    text += (text.empty() ? "" : ", ") + uni(l);
    want += l + std::to_string(ref::dec(l)[0]) + ' ';
  }
  for (auto& l : u->links()) got += l.name() + std::to_string(static_cast<uint32_t>(l.code())) + ' ';
  eq(got, want, "links");
  eq(u->linkCodeAndNames(), text, "linkCodeAndNames");
  eq(u->hasLinks(), !links.empty(), "hasLinks");
  const bool trad{r[LinkType] == "Traditional" || r[LinkType] == "Traditional*"};
  eq(u->hasTraditionalLinks(), trad, "hasTraditionalLinks");
  eq(u->hasNonTraditionalLinks(), !links.empty() && !trad, "hasNonTraditionalLinks");
  eq(u->linkedReadings(), !r[LinkType].empty() && r[LinkType].back() == '*', "linkedReadings");
  eq(kt::hasValue(u->linkType()) ? kt::toString(u->linkType()) : Str{}, r[LinkType], "linkType");
  eq(u->meaning(), r[Meaning], "meaning");
  eq(kt::UcdData::getMeaning(u), r[Meaning], "getMeaning");
  eq(u->onReading(), r[On], "on");
  eq(u->kunReading(), r[Kun], "kun");
  ref::UcdRow m;
  m.on = r[On];
  m.kun = r[Kun];
  const auto kana{ref::Kanji::ucdReading(m)};
  const auto k{d.getReadingsAsKana(u)};
  vh::expect(ref::accepts(kana, k), key + ":kana", r[Name] + " readings '" + k + "', expected '" + ref::list(kana) + "'");
}

/// lookups: names, and standard names with selectors
void lookups(const kt::UcdData& d, const Loaded& l, const Strs& names, const Str& key) {
  for (auto& n : names) {
    vh::step(4);
    const auto* u{d.find(n)};
    vh::same(u ? u->name() : Str{}, l.rows.contains(n) ? n : Str{}, key + ":find" + n, "find " + n);
    for (const char* vs : {"\ufe00", "\ufe01", "\ufe0f"}) {
      const auto j{l.jinmei.find(n)};
      const auto* v{d.find(n + vs)};
      vh::same(v ? v->name() : Str{}, j == l.jinmei.end() || !l.rows.contains(j->second) ? Str{} : j->second, key + ":variant" + n + vs, "find " + n + vs);
    }
  }
}

/// loads a file and compares everything
void file(const std::vector<Row>& rows, const Strs& ask, size_t rot = 0) {
  vh::trace();
  vh::step(rows.size());
  Str key;
  for (auto& r : rows) key += join(r) + "|";
  vh::state(key);
  Loaded want;
  size_t bad{};
  bool open{};
  for (size_t i{}; i < rows.size() && !bad && !open; ++i) {
    const auto v{load(rows[i], want)};
    if (v == V::Bad) bad = i + 1;
    open = v == V::Open;
  }
  write(rows, rot);
  kt::UcdData d;
  try {
    d.load(path());
    vh::outcome("ok");
    if (open) return;
    if (bad) {
      vh::fail(key, "row " + std::to_string(bad) + " wasn't refused");
      return;
    }
    vh::same(d.map().size(), want.rows.size(), key + ":size", "entries");
    for (auto& r : want.rows) compare(d, r.second, key);
    lookups(d, want, ask, key);
  } catch (const kt::DomainError& e) {
    const Str what{e.what()};
    vh::outcome(what.substr(0, 20));
    if (open) return;
    vh::sample([&] { return what; });
    if (!bad)
      vh::fail(key, "refused: " + what);
    else
      vh::expect(what.find("testUcd.txt") != Str::npos && what.find("row: " + std::to_string(bad)) != Str::npos, key, "error doesn't name file and row " + std::to_string(bad) + ": " + what);
  } catch (const std::exception& e) {
    vh::fail(key, Str{"unexpected exception: "} + e.what());
  }
}

/// values to try in each column
const std::vector<Strs>& catalog() {
  static const std::vector<Strs> c{
      /* Code */ {"4E01", "04E01", "4E02", "4e01", "4E0", "24E01", "", "4E01 ", "0x4E01", "FA31", "20000"},
      /* Name */ {"丁", "\ufa31", "𠀀", "", "あ", "A", "丁丁", "丁\ufe00", "\xe4\xb8", "、", "⺀", "𠀀\ufe00"},
      /* Block */ {"CJK", "", "CJK_Ext_B"},
      /* Version */ {"1.1", "", "15.1"},
      /* Radical */ {"1", "214", "001", "0", "215", "", "x", "-1", "1 ", "65537", "257"},
      /* Strokes */ {"2", "1", "64", "0", "65", "", "x", "256", "258", "33", "4"},
      /* VStrokes */ {"", "4", "33", "2", "34", "0", "x", "259", "3"},
      /* Pinyin */ {"yī", "", "lǜ"},
      /* Moro */ {"2", "", "H2", "2P", "2''", "65535", "65536", "x", "0", "0P", "H", "00"},
      /* Nelson */ {"", "1", "1,2"},
      /* Sources */ {"", "G", "GHJKTV", "VTKJHG", "GG", "X", "GHJKTVG", "g", "JKJ"},
      /* JSource */ {"", "J0-306C"},
      /* Joyo */ {"", "Y", "N", "T", "F", "y", "1"},
      /* Jinmei */ {"", "Y", "N", "T", "Z"},
      /* LinkCodes */ {"", "4E03", "4E03,4E07", "4E07", "4E03,", "4e03", ",4E03", "4E03,4E07,4E08", "4E03,4E03", "X"},
      /* LinkNames */ {"", "七", "七,万", "万", "七,", "あ", ",七", "七,七", "七 万", ","},
      /* LinkType */ {"", "Jinmei*", "Compatibility*", "Definition*", "Semantic*", "Simplified*", "Traditional*", "Compatibility", "Definition", "Jinmei", "Simplified", "Traditional", "jinmei", "Semantic", "None"},
      /* Meaning */ {"", "one; two"},
      /* On */ {"", "ICHI", "ICHI ITSU"},
      /* Kun */ {"", "HITOTSU", "HITO.TSU KEN'I"},
      /* Japanese */ {"", "x"}};
  return c;
}

const std::vector<Row>& bases() {
  static const std::vector<Row> b{
      // nothing optional, Jōyō, Jinmei with link, other with links, everything optional
      {"4E01", "丁", "CJK", "1.1", "1", "2", "", "", "", "", "", "J0", "", "", "", "", "", "", "", "", ""},
      {"4E01", "丁", "CJK", "1.1", "1", "2", "", "dīng", "2", "2,3", "GHJKTV", "J0-437A", "Y", "", "", "", "", "male adult", "TEI CHOU", "HINOTO", ""},
      {"4E01", "丁", "CJK", "1.1", "1", "2", "", "", "H2", "", "J", "", "", "Y", "4E03", "七", "Jinmei*", "", "TEI", "", ""},
      {"4E01", "丁", "CJK", "1.1", "1", "2", "4", "", "", "", "GT", "", "", "", "4E03,4E07", "七,万", "Traditional*", "old", "", "HINOTO", "y"},
      {"4E01", "丁", "CJK", "1.1", "1", "2", "", "", "3PP", "", "", "", "N", "F", "4E07", "万", "Simplified", "", "", "", ""}};
  return b;
}

void corruptions() {
  const auto& c{catalog()};
  const Strs ask{"丁", "七", "万", "\ufa31", "𠀀", "亜"};
  for (size_t b{}; b < bases().size(); ++b)
    for (size_t i{}; i < N; ++i)
      if (vh::begin("base " + std::to_string(b) + " column " + Cols[i]))
        for (auto& x : c[i]) {
          auto r{bases()[b]};
          r[i] = x;
          file({r}, ask, i);
          for (size_t j{i + 1}; j < N; ++j)
            for (auto& y : c[j]) {
              auto s{r};
              s[j] = y;
              file({s}, ask, i + j);
            }
        }
  if (!vh::g().thorough) return;
  for (size_t b{}; b < bases().size(); ++b)
    for (size_t i{}; i < N; ++i)
      for (size_t j{i + 1}; j < N; ++j)
        if (vh::begin("base " + std::to_string(b) + " columns " + Cols[i] + " " + Cols[j]))
          for (auto& x : c[i])
            for (auto& y : c[j])
              for (size_t k{j + 1}; k < N; ++k)
                for (auto& z : c[k]) {
                  auto s{bases()[b]};
                  s[i] = x;
                  s[j] = y;
                  s[k] = z;
                  file({s}, ask, i + j + k);
                }
}

/// cells with many values
void manyValues() {
  static const Strs Words{"A", "KAN", "TSU", "SHI", "N'I", "JA", "O", "GAKU", "HYO", "ZU"};
  for (size_t n{1}; n < 80; ++n)
    if (vh::begin("values " + std::to_string(n))) {
      Str names, codes, words, ids;
      Strs ask{"丁"};
      for (size_t i{}; i < n; ++i) {
        const auto c{static_cast<uint32_t>((i % 3 ? 0x4e10 : 0x20000) + i)};
        char h[16];
        snprintf(h, sizeof h, "%04X", static_cast<unsigned>(c));
        const Str sep{i ? "," : ""};
        codes += sep + h;
        names += sep + ref::enc(c);
        words += (i ? " " : "") + Words[(i * 7 + n) % Words.size()];
        ids += sep + std::to_string(5 * i + 1);
        ask.push_back(ref::enc(c));
      }
      for (size_t b{}; b < bases().size(); ++b)
        for (const char* type : {"Jinmei*", "Traditional*", "Simplified"})
          for (const char* jinmei : {"", "Y"}) {
            auto r{bases()[b]};
            r[Joyo] = "";
            r[Jinmei] = jinmei;
            r[LinkType] = type;
            r[LinkCodes] = codes;
            r[LinkNames] = names;
            file({r}, ask);
            auto s{r};
            s[LinkCodes] = codes.substr(0, codes.rfind(',') == Str::npos ? 0 : codes.rfind(','));
            file({s}, ask); // one code less
            s = r;
            s[LinkCodes] = codes.substr(0, codes.size() - 1) + (codes.back() == '0' ? "1" : "0");
            file({s}, ask); // last code wrong
          }
      for (auto col : {On, Kun, Meaning, Nelson, Pinyin, Block, JSource})
        for (auto other : {On, Kun}) {
          auto r{bases()[1]};
          r[col] = col == Nelson ? ids : words;
          if (other != col) r[other] = words;
          file({r}, {"丁"});
        }
      if (n > 1) { // two entries, the same link last
        auto r{bases()[2]}, s{bases()[2]};
        r[LinkCodes] = codes;
        r[LinkNames] = names;
        s[Code] = "4E02";
        s[Name] = "丂";
        s[LinkCodes] = codes.substr(codes.rfind(',') + 1);
        s[LinkNames] = names.substr(names.rfind(',') + 1);
        file({r, s}, ask);
        s[LinkType] = "Simplified*";
        s[Jinmei] = "";
        file({s, r}, ask);
      }
    }
}

/// the link columns together
void linkFields() {
  const auto& c{catalog()};
  for (auto& t : c[LinkType])
    for (const char* j : {"", "Y"})
      if (vh::begin("links " + t + " jinmei " + j))
        for (auto& codes : c[LinkCodes])
          for (auto& names : c[LinkNames])
            for (const char* joyo : {"", "Y"}) {
              auto r{bases()[1]};
              r[Joyo] = joyo;
              r[Jinmei] = j;
              r[LinkCodes] = codes;
              r[LinkNames] = names;
              r[LinkType] = t;
              file({r}, {"丁", "七", "万"});
            }
}

/// every single character as name and as link
void characters() {
  static constexpr uint32_t Step{256};
  for (uint32_t b{}; b < 0x32400; b += Step) {
    if (!vh::begin("names from " + std::to_string(b))) continue;
    for (uint32_t c{b}; c < b + Step; ++c) {
      if (c >= 0xd800 && c <= 0xdfff) continue;
      if (c == 9 || c == 10 || c == 0) continue;
      // sample of the interior of the big blocks in quick
      if (!vh::g().thorough && c % 32 > 1 && c % 256 < 250 && (c < 0x2e00 || c > 0x3500) && (c < 0xf800)) continue;
      char h[16];
      snprintf(h, sizeof h, "%04X", c);
      auto r{bases()[0]};
      r[Code] = h;
      r[Name] = ref::enc(c);
      file({r}, {r[Name]});
      if (r[Name] == "," || r[Name] == "丁") continue;
      r = bases()[2];
      r[LinkCodes] = h;
      r[LinkNames] = ref::enc(c);
      file({r}, {r[LinkNames]});
    }
  }
}

/// several rows
void sequences() {
  std::vector<Row> rows;
  const auto add{[&](const char* code, const char* name, const char* joyo, const char* jinmei, const char* codes, const char* names, const char* type) {
    Row r{bases()[1]};
    r[Code] = code;
    r[Name] = name;
    r[Joyo] = joyo;
    r[Jinmei] = jinmei;
    r[LinkCodes] = codes;
    r[LinkNames] = names;
    r[LinkType] = type;
    rows.push_back(r);
  }};
  add("4E01", "丁", "Y", "", "", "", "");
  add("4E03", "七", "", "", "", "", "");
  add("4E07", "万", "", "Y", "4E01", "丁", "Jinmei*");
  add("4E08", "丈", "", "Y", "4E01", "丁", "Jinmei");
  add("4E09", "三", "", "Y", "4E01,4E03", "丁,七", "Compatibility*");
  add("4E0A", "上", "", "", "4E01", "丁", "Traditional");
  add("4E0B", "下", "", "", "4E01,4E03", "丁,七", "Jinmei*");
  add("4E03", "七", "", "Y", "4E07", "万", "Simplified*");
  add("4E01", "丁", "", "", "", "", "");
  add("4E0D", "不", "", "Y", "4E03,4E03", "七,七", "Jinmei*");
  add("4E00", "一", "Y", "Y", "", "", "");
  add("4E0E", "与", "", "Y", "4E0E", "与", "Definition");
  const Strs ask{"丁", "七", "万", "丈", "三", "上", "下", "不", "与", "一", "\ufe00", "あ", ""};
  const size_t max{vh::g().thorough ? 5U : 4U};
  for (size_t a{}; a < rows.size(); ++a)
    for (size_t b{}; b < rows.size(); ++b)
      if (vh::begin("rows " + std::to_string(a) + "," + std::to_string(b)))
        vh::words(rows.size(), 0, max - 2, [&](const auto& w) {
          std::vector<Row> l{rows[a], rows[b]};
          for (auto i : w) l.push_back(rows[i]);
          file(l, ask);
        });
  // number of rows before the bad one
  for (size_t n{}; n < 40; ++n)
    if (vh::begin("bad row after " + std::to_string(n))) {
      std::vector<Row> l;
      for (size_t i{}; i < n; ++i) {
        auto r{bases()[1]};
        char h[16];
        snprintf(h, sizeof h, "%04X", static_cast<unsigned>(0x5000 + i));
        r[Code] = h;
        r[Name] = ref::enc(static_cast<uint32_t>(0x5000 + i));
        l.push_back(r);
      }
      file(l, {"丁"});
      for (auto& bad : {std::pair{int{Strokes}, "0"}, {int{Name}, "x"}, {int{LinkNames}, "七"}, {int{Jinmei}, "Y"}, {int{Moro}, "x"}, {int{Code}, "4E0"}}) {
        auto r{bases()[1]};
        r[static_cast<size_t>(bad.first)] = bad.second;
        l.push_back(r);
        file(l, {"丁"});
        l.pop_back();
      }
    }
}

/// the complete table
void complete() {
  static const size_t Batch{400};
  std::vector<Row> rows;
  for (auto& l : ref::lines(vh::g().data + "/ucd.txt")) rows.push_back(ref::split(l, '\t'));
  rows.erase(rows.begin());
  static std::unique_ptr<kt::UcdData> d;
  static Loaded want;
  const auto ready{[&] {
    if (d) return;
    d = std::make_unique<kt::UcdData>();
    d->load(vh::g().data + "/ucd.txt");
    for (auto& r : rows)
      if (load(r, want) != V::Ok) vh::fail("file", "unexpected row " + join(r));
    vh::same(d->map().size(), want.rows.size(), "file:size", "entries");
  }};
  for (size_t b{}; b < rows.size(); b += Batch)
    if (vh::begin("table from " + std::to_string(b))) {
      ready();
      Strs ask;
      for (size_t i{b}; i < std::min(b + Batch, rows.size()); ++i) {
        vh::trace();
        vh::state(rows[i][Name]);
        compare(*d, rows[i], rows[i][Name]);
        ask.push_back(rows[i][Name]);
      }
      lookups(*d, want, ask, "table");
    }
  for (uint32_t b{0x2e00}; b < 0x32400; b += 0x400)
    if (vh::begin("characters from " + std::to_string(b))) {
      ready();
      Strs ask;
      for (uint32_t c{b}; c < b + 0x400; ++c)
        if (c < 0xd800 || c > 0xdfff) ask.push_back(ref::enc(c));
      vh::trace(ask.size());
      lookups(*d, want, ask, "characters");
    }
  if (vh::begin("none")) {
    ready();
    vh::trace();
    vh::same(d->getReadingsAsKana(nullptr), Str{}, "none:kana", "readings of nothing");
    vh::same(kt::UcdData::getMeaning(nullptr), Str{}, "none:meaning", "meaning of nothing");
    for (const char* n : {"", " ", "A", "丁丁", "丁七", "丁\ufe00\ufe00", "\ufe00", "\ufe00丁", "丁 ", "\xe4\xb8", "か\u3099"}) vh::expect(!d->find(n), Str{"none:"} + n, Str{"found '"} + n + "'");
  }
}

} // namespace

int main(int argc, char** argv) {
  return vh::run(argc, argv, [] {
    complete();
    corruptions();
    linkFields();
    manyValues();
    sequences();
    characters();
  });
}
