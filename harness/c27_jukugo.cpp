// C27: Jukugo (compounds) against a model of their files
#include "cmp_kanji.h"
#include "ref_char.h"
#include <filesystem>
#include <kt_quiz/JukugoData.h>

namespace fs = std::filesystem;
using ref::Str;
using ref::Strs;

namespace {

const char* Files[]{"g1", "g2", "g3", "g4", "g5", "g6", "other"};
const char* Grades[]{"G1", "G2", "G3", "G4", "G5", "G6", "S"};

bool kanjiCode(uint32_t c) {
  return (c >= 0x2e80 && c <= 0x2eff) || (c >= 0x4e00 && c <= 0x9fff) || (c >= 0x3400 && c <= 0x4dbf) || (c >= 0xf900 && c <= 0xfaff) || (c >= 0x20000 && c <= 0x2a6df) || (c >= 0x2a700 && c <= 0x2ebef) || (c >= 0x2f800 && c <= 0x2fa1f) || (c >= 0x30000 && c <= 0x3134f);
}

struct Entry {
  Str name, reading;
  int file;
};
struct Model {
  std::vector<Entry> all;
  std::map<Str, std::vector<size_t>> byKanji;
  int badFile{-1};
  size_t badLine{};
  bool open{}; ///< something the statement doesn't cover
};

/// Kanji of a name, with their selectors
Strs kanjiOf(const Str& name) {
  Strs r;
  const auto c{ref::dec(name)};
  for (size_t i{}; i < c.size(); ++i)
    if (kanjiCode(c[i])) {
      auto s{ref::enc(c[i])};
      if (i + 1 < c.size() && ref::selector(c[i + 1])) s += ref::enc(c[++i]);
      r.push_back(s);
    }
  return r;
}
bool hiragana(const Str& s) {
  // the whole block (unassigned code points and voice marks are left open by the documentation)
  for (auto c : ref::dec(s))
    if (!(c >= 0x3040 && c <= 0x309f) && c != 0x30fc) return false;
  return true;
}

struct Texts {
  Str t[7];
};

Model load(const Texts& x) {
  Model m;
  std::map<std::pair<Str, Str>, int> seen;
  for (int f{}; f < 7; ++f) {
    Strs l{ref::split(x.t[f], '\n')};
    if (l.back().empty()) l.pop_back();
    for (size_t n{}; n < l.size(); ++n) {
      const auto refuse{[&] {
        m.badFile = f;
        m.badLine = n + 1;
      }};
      Strs entries;
      if (f < 6)
        entries.push_back(l[n]);
      else {
        const auto i{l[n].find("...")};
        if (i == Str::npos || i + 3 == l[n].size() || l[n][i + 3] != ' ') return refuse(), m;
        entries = ref::split(l[n].substr(i + 4), ' ');
        if (entries.back().empty()) entries.pop_back();
      }
      for (auto& e : entries) {
        const auto a{e.find('(')}, b{e.find(')')};
        if (a == Str::npos || b == Str::npos || b + 1 != e.size() || (f < 6 && (a < 2 || e[a - 1] != ' '))) return refuse(), m;
        const auto name{e.substr(0, f < 6 ? a - 1 : a)}, reading{e.substr(a + 1, b - a - 1)};
        if (name.find(' ') != Str::npos || reading.empty() || reading.find('(') != Str::npos) m.open = true;
        if (const auto i{seen.find({name, reading})}; i != seen.end()) {
          if (i->second != f) return refuse(), m;
          continue;
        }
        const auto k{kanjiOf(name)};
        if (k.size() < 2 || !hiragana(reading)) return refuse(), m;
        seen[{name, reading}] = f;
        for (auto& c : std::set<Str>(k.begin(), k.end())) m.byKanji[c].push_back(m.all.size());
        m.all.push_back({name, reading, f});
      }
    }
  }
  return m;
}

Str text(const Entry& e) { return e.name + "(" + e.reading + ")" + Grades[e.file] + " "; }
Str listed(const kt::JukugoData& d, const Str& k) {
  Str r;
  for (auto& i : d.find(k)) {
    std::ostringstream o;
    o << i->grade();
    r += i->name() + "(" + i->reading() + ")" + o.str() + " ";
    vh::expect(i->nameAndReading() == i->name() + "（" + i->reading() + "）", "nameAndReading " + i->name(), "nameAndReading() is " + i->nameAndReading());
  }
  return r;
}

void lookup(const kt::JukugoData& d, const Model& m, const Str& k, const Str& key) {
  Str want;
  if (const auto i{m.byKanji.find(k)}; i != m.byKanji.end())
    for (auto j : i->second) want += text(m.all[j]);
  const auto got{listed(d, k)};
  vh::step();
  if (got != want) vh::same(got, want, key + ":" + k, "compounds of " + k);
}

struct World {
  Real real{vh::g().data};
  kt::KanjiDataPtr data{std::move(real.data)};
};
World& world() {
  static World w;
  return w;
}

void shipped() {
  static std::unique_ptr<kt::JukugoData> d;
  static Model m;
  const auto ready{[&] {
    if (d) return;
    Texts t;
    for (int f{}; f < 7; ++f) {
      std::ifstream i{vh::g().data + "/jukugo/" + Files[f] + ".txt"};
      std::stringstream s;
      s << i.rdbuf();
      t.t[f] = s.str();
    }
    m = load(t);
    d = std::make_unique<kt::JukugoData>(world().data);
  }};
  if (vh::begin("shipped files")) {
    ready();
    vh::same(m.badLine, size_t{}, "bad", "line the model refuses");
    vh::same(m.open, false, "open", "shipped entries not covered");
    vh::same(world().real.err.str(), Str{}, "err", "errors printed");
    for (auto& e : m.all) {
      vh::state(text(e));
      vh::trace();
      const auto k{kanjiOf(e.name)};
      for (auto& c : std::set<Str>(k.begin(), k.end())) {
        size_t n{};
        for (auto& j : d->find(c)) n += j->name() == e.name && j->reading() == e.reading;
        vh::step();
        if (n != 1) vh::same(n, size_t{1}, c + " " + text(e), "times " + text(e) + "is listed under " + c);
      }
    }
    // the same object under each of its Kanji
    for (auto& [k, l] : m.byKanji) {
      vh::outcome(std::to_string(l.size()));
      const auto& got{d->find(k)};
      for (auto& j : got)
        for (auto& c : kanjiOf(j->name())) {
          const auto& o{d->find(c)};
          if (std::find(o.begin(), o.end(), j) == o.end()) vh::fail(k + c, j->name() + " of " + k + " isn't under " + c);
        }
    }
  }
  for (uint32_t b{}; b < 0x32400; b += 0x400)
    if (vh::begin("characters from " + std::to_string(b))) {
      ready();
      vh::trace();
      for (uint32_t c{std::max(b, 1U)}; c < b + 0x400; ++c)
        if (ref::scalar(c)) lookup(*d, m, ref::enc(c), "shipped");
    }
  if (vh::begin("other words")) {
    ready();
    vh::trace();
    lookup(*d, m, "", "shipped");
    for (auto& e : m.all) {
      lookup(*d, m, e.name, "shipped");
      lookup(*d, m, e.reading, "shipped");
      lookup(*d, m, e.name.substr(0, 2), "shipped");
      lookup(*d, m, kanjiOf(e.name)[0] + "\ufe00", "shipped");
    }
  }
}

Str dir() { return vh::g().scratch + "/jukugo"; }

/// a set of small files
void run(const Texts& t) {
  static bool made{fs::create_directories(dir())};
  (void)made;
  static Texts last;
  static bool first{true};
  Str key;
  for (int f{}; f < 7; ++f) {
    if (first || t.t[f] != last.t[f]) {
      FILE* o{fopen((dir() + "/" + Files[f] + ".txt").c_str(), "wb")};
      if (!o || fwrite(t.t[f].data(), 1, t.t[f].size(), o) != t.t[f].size()) abort();
      fclose(o);
      last.t[f] = t.t[f];
    }
    key += (f ? "|" : "") + t.t[f];
  }
  first = false;
  const auto m{load(t)};
  if (m.open) return;
  vh::trace();
  vh::step();
  vh::state(key);
  vh::sample([&] { return key; });
  const fs::path p{dir()};
  try {
    const kt::JukugoData d{world().data, &p};
    vh::outcome("ok");
    if (m.badLine) {
      vh::fail(key, "line " + std::to_string(m.badLine) + " of " + Files[m.badFile] + ".txt not refused");
      return;
    }
    std::set<Str> ask;
    for (auto& i : m.byKanji) ask.insert(i.first);
    for (auto& e : m.all) {
      for (auto c : ref::dec(e.name)) ask.insert(ref::enc(c));
      ask.insert(e.name);
    }
    for (auto& i : ask) lookup(d, m, i, key);
    lookup(d, m, "字", key);
  } catch (const kt::DomainError& e) {
    const Str what{e.what()};
    vh::outcome(what.substr(0, 30));
    if (!m.badLine)
      vh::fail(key, "refused: " + what);
    else
      vh::expect(what.find("line: " + std::to_string(m.badLine) + ",") != Str::npos && what.find(Str{Files[m.badFile]} + ".txt") != Str::npos, key, "error doesn't name line " + std::to_string(m.badLine) + " and file: " + what);
  } catch (const std::exception& e) {
    vh::fail(key, Str{"unexpected exception: "} + e.what());
  }
}

void files() {
  const auto th{vh::g().thorough};
  // every short text in a grade file and in the other one
  const Strs tok{"一", "二", "(", ")", " ", "い", "\n", "a", "ア", "ー"}, tokO{"... ", "一", "二", "(", ")", " ", "い", "\n", "..."};
  for (size_t a{}; a < tok.size(); ++a)
    for (size_t b{}; b < tok.size(); ++b)
      if (vh::begin("grade file text starting " + tok[a] + tok[b]))
        vh::words(tok.size(), 0, th ? 4 : 3, [&](const auto& w) {
          Texts t;
          t.t[0] = tok[a] + tok[b];
          for (auto i : w) t.t[0] += tok[i];
          run(t);
          Texts u; // after what makes a name
          u.t[2] = "一二" + t.t[0];
          run(u);
        });
  for (size_t a{}; a < tokO.size(); ++a)
    for (size_t b{}; b < tokO.size(); ++b)
      if (vh::begin("other file text starting " + tokO[a] + tokO[b]))
        vh::words(tokO.size(), 0, th ? 4 : 3, [&](const auto& w) {
          Texts t, u;
          t.t[6] = tokO[a] + tokO[b];
          for (auto i : w) t.t[6] += tokO[i];
          run(t);
          u.t[6] = "一 ... 一二" + t.t[6];
          run(u);
        });
  // all names and readings
  const Strs names{"一二", "一一", "一二一", "二一", "一", "一あ", "一あ一", "一々", "一一一二", "日\u3099本", "侮\ufe00一", "侮侮\ufe00", "\ufa30侮", "侮侮\ufe00侮", "\U00020b9f一", "ab", "一a二", "", "〇一", "一〇二", "一\xff二", "が一か\u3099二", "㐀一", "\U0002a700\U00030000", "\uf900\ufad9", "〆一", "一ヶ二", "ー一二"},
      readings{"い", "いー", "ー", "イ", "いa", "か\u3099", "が", "はな\u309a", "い い", "いﾞ", "一", "ゟ", "ゝゞ", "ゔ", "っ", "い・", "〜", "い\u3000", "\u3097", "\u30fd", "ゖ", "ぁ"};
  for (auto& n : names)
    if (vh::begin("name " + n))
      for (auto& r : readings)
        for (int f{}; f < 7; ++f)
          for (auto& pre : {Str{}, Str{"三四 (さ)\n"}})
            for (auto& post : {Str{}, Str{"\n"}, Str{"\n二三 (に)"}, Str{"\n\n"}}) {
              Texts t;
              if (f < 6)
                t.t[f] = pre + n + " (" + r + ")" + post;
              else if (pre.empty())
                t.t[f] = "字 ... " + n + "(" + r + ")" + (post.size() > 2 ? " 二三(に)\n" : post);
              else
                t.t[f] = "三 ... 三四(さ) " + n + "(" + r + ")" + (post.size() > 2 ? " 二三(に)" : post);
              run(t);
            }
  // what separates the compounds of other.txt
  for (auto a : {"", "一", "一 ", ".", " ", "一 .", "一 .. "})
    for (auto b : {"...", "....", ".....", "......", "... ...", ".... ", "... .", "...  ", "...\t", "... \t", "...\r", "...　"})
      if (vh::begin(Str{"separator '"} + a + b + "'"))
        for (auto c : {"", " ", "一二(い)", " 一二(い)", " 一二(い) ", "  一二(い)", " 一二(い)  二三(に)", " 一二(い) ... 二三(に)", " ...", "... 一二(い)"})
          for (auto e : {"", "\n", "\n三 ... 三四(さ)\n"}) {
            Texts t;
            t.t[6] = Str{a} + b + c + e;
            run(t);
          }
  // long names and readings
  for (size_t len{1}; len <= 300; len += len < 100 ? 1 : 23)
    if (vh::begin("names and readings of " + std::to_string(len)))
      for (int f : {0, 3, 6})
        for (auto fill : {"い", "ー", "一", "a", "侮︀", "゙"})
          for (auto end : {"", "い", "ー", "ア", "二", "a", "一二"}) {
            Str s;
            for (size_t i{}; i < len; ++i) s += fill;
            const auto put{[&](const Str& n, const Str& r) {
              Texts t;
              t.t[f] = f < 6 ? n + " (" + r + ")\n" : "一 ... " + n + "(" + r + ") 二三(に)\n";
              run(t);
            }};
            put("一二", s + end);
            put(s + end, "い");
            put(end + s, "い" + s);
          }
  // many compounds of one Kanji
  for (size_t n : {10U, 100U, 255U, 256U, 257U, 300U, 600U, 1500U})
    for (int f : {0, 5, 6})
      if (vh::begin(std::to_string(n) + " compounds in " + Files[f])) {
        Texts t;
        for (size_t i{}; i < n; ++i) {
          const auto name{"一" + ref::enc(static_cast<uint32_t>(0x5000 + i))}, reading{"い" + ref::enc(static_cast<uint32_t>(0x3041 + i % 80))};
          if (f < 6)
            t.t[f] += name + " (" + reading + ")\n";
          else
            t.t[f] += (i % 300 == 0 ? (i ? Str{"\n一 ..."} : Str{"一 ..."}) : Str{}) + " " + name + "(" + reading + ")";
        }
        run(t);
        // and the same ones again, with another
        t.t[f] += f < 6 ? "" : "\n";
        t.t[f] += t.t[f] + (f < 6 ? "一二 (い)\n" : "二 ... 一二(い)\n");
        run(t);
        // one of them in another file
        t.t[f == 5 ? 6 : 5] = f == 5 ? "一 ... 一" + ref::enc(static_cast<uint32_t>(0x5000 + n - 1)) + "(い" + ref::enc(static_cast<uint32_t>(0x3041 + (n - 1) % 80)) + ")" : "一" + ref::enc(static_cast<uint32_t>(0x5000 + n - 1)) + " (い" + ref::enc(static_cast<uint32_t>(0x3041 + (n - 1) % 80)) + ")";
        run(t);
      }
  // the same compounds in several places
  const Strs pool{"一二(い)", "一二(に)", "二一(い)", "一一(い)", "一二三(い)", "三二三二(み)"};
  const size_t max{th ? 5U : 4U};
  for (size_t a{}; a < pool.size(); ++a)
    for (int f0{}; f0 < 7; ++f0)
      if (vh::begin("files with " + pool[a] + " in " + Files[f0]))
        vh::words(pool.size() * 3, 0, max - 1, [&](const auto& w) {
          // files 0, 3 and 6 (and f0 for the first)
          Texts t;
          const auto put{[&](size_t i, int f) {
            auto s{pool[i]};
            if (f < 6)
              t.t[f] += s.insert(s.find('('), " ") + "\n";
            else
              t.t[f] += t.t[f].empty() ? "字 ... " + s : (t.t[f].size() % 2 ? " " : "\n字 ... ") + s;
          }};
          put(a, f0);
          for (auto i : w) put(i % pool.size(), static_cast<int>(i / pool.size()) * 3);
          run(t);
        });
  // the same letters divided differently between name and reading
  const Strs split{"一二(いい)", "一二い(い)", "一二(い)", "一二いい(い)", "一二い(いい)", "二一(いい)", "い一二(い)", "一い二(い)"};
  for (size_t a{}; a < split.size(); ++a)
    for (int f0{}; f0 < 7; f0 += 3)
      if (vh::begin("letters of " + split[a] + " in " + Files[f0]))
        vh::words(split.size() * 3, 0, th ? 3U : 2U, [&](const auto& w) {
          Texts t;
          const auto put{[&](size_t i, int f) {
            auto s{split[i]};
            if (f < 6)
              t.t[f] += s.insert(s.find('('), " ") + "\n";
            else
              t.t[f] += (t.t[f].empty() ? "字 ... " : " ") + s;
          }};
          put(a, f0);
          for (auto i : w) put(i % split.size(), static_cast<int>(i / split.size()) * 3);
          run(t);
        });
  // each character as part of a name and of a reading
  for (uint32_t b{}; b < 0x32400; b += 0x100)
    if (vh::begin("entries with characters from " + std::to_string(b)))
      for (uint32_t c{std::max(b, 1U)}; c < b + 0x100; ++c) {
        if (!ref::scalar(c) || c == '\n' || c == '(' || c == ')' || c == ' ' || c == '.') continue;
        const bool near{(c >= 0x3000 && c < 0x3200) || (c >= 0xf900 && c < 0x10000) || c < 0x80 || (c & 0xff) < 3 || (c & 0xff) > 0xfd};
        if (!near && !th && c % 16) continue;
        Texts t;
        if (!ref::selector(c) && !ref::mark(c)) {
          t.t[1] = "一" + ref::enc(c) + " (い)\n";
          run(t);
          t.t[1] = "一" + ref::enc(c) + ref::enc(0xfe00) + " (い)\n";
          if (kanjiCode(c)) run(t);
          t.t[1] = "一二 (い" + ref::enc(c) + ")\n";
          run(t);
        }
      }
  // a missing file
  for (int f{}; f < 7; ++f)
    if (vh::begin(Str{"without "} + Files[f])) {
      run({});
      vh::trace();
      const auto file{dir() + "/" + Files[f] + ".txt"};
      fs::remove(file);
      const fs::path p{dir()};
      try {
        const kt::JukugoData d{world().data, &p};
        vh::fail(file, "missing file accepted");
      } catch (const kt::DomainError& e) {
        vh::expect(Str{e.what()}.find(Files[f]) != Str::npos, file, Str{"error doesn't name the file: "} + e.what());
      }
      std::ofstream{file};
    }
}

void classes() {
  const Strs n{"", "一", "a", "一二", "一あ二", "一a", "あ", "一一", "侮\ufe00", "侮\ufe00一", "二\u3099一"}, r{"", "い", "いー", "イ", "a", "一", "か\u3099", "ー"};
  if (vh::begin("Jukugo objects"))
    for (auto& a : n)
      for (auto& b : r)
        for (int g{}; g < 7; ++g) {
          vh::trace();
          vh::step();
          const bool ok{kanjiOf(a).size() > 1 && hiragana(b)};
          const auto key{"object " + a + "," + b};
          const auto grade{static_cast<kt::KanjiGrades>(g)};
          try {
            const kt::Jukugo j{a, b, grade};
            vh::expect(ok, key, "not refused");
            vh::expect(j.name() == a && j.reading() == b && j.grade() == grade && j.nameAndReading() == a + "（" + b + "）", key, "attributes");
          } catch (const kt::DomainError& e) {
            vh::expect(!ok && Str{e.what()}.find(a) != Str::npos, key, Str{"refused: "} + e.what());
          }
        }
}

} // namespace

int main(int argc, char** argv) {
  return vh::run(argc, argv, [] {
    shipped();
    classes();
    files();
  });
}
