// C18: Kanji list files against a loader model
#include "ref_utf8.h"
#include "vh.h"
#include <algorithm>
#include <kt_kanji/ListFile.h>
#include <kt_utils/Exception.h>
#include <memory>

using namespace kanji_tools;

namespace {

enum Kind { One, Multi, Level, Kyu };
const char* name[]{"one", "multi", "level", "kyu"};

void write(const String& path, const String& s) {
  FILE* f{fopen(path.c_str(), "wb")};
  if (!f || fwrite(s.data(), 1, s.size(), f) != s.size()) abort();
  fclose(f);
}

bool has(const String& s, const String& x) { return s.find(x) != String::npos; }

/// exactly one well-formed non-Ascii character
bool entry(const String& s) {
  if (s.empty() || static_cast<unsigned char>(s[0]) < 0x80 || has(s, String(1, '\0'))) return false;
  const auto q{ref::one(s, 0)};
  return q.err == ref::Err::None && q.used == s.size();
}

struct Model {
  std::vector<String> list;
  bool bad{};
  size_t line{};  ///< 0 if no line is to be named
  String entry;   ///< to be named (if not empty)
  std::vector<String> dups;
};

/// names seen by earlier files, per kind of file
struct Seen {
  std::set<String> plain, level, kyu;
  std::set<String>& get(Kind k) { return k == Level ? level : k == Kyu ? kyu : plain; }
};

Model load(const String& text, Kind kind, Seen& seen) {
  Model m;
  std::set<String> mine;
  auto& all{seen.get(kind)};
  size_t num{};
  std::istringstream in{text};
  for (String line; std::getline(in, line);) {
    ++num;
    std::vector<String> tokens;
    for (size_t i{}; i < line.size();) {
      const auto e{std::min(line.find(' ', i), line.size())};
      tokens.push_back(line.substr(i, e - i));
      i = e + 1;
    }
    for (auto& t : tokens) {
      m.line = num;
      m.bad = true;
      if (kind == One && t != line) return m; // more than one on the line
      m.entry = t;
      if (!entry(t)) return m;
      if (mine.contains(t)) return m;
      if (kind == Level || kind == Kyu) {
        if (!all.insert(t).second)
          m.dups.push_back(t);
        else
          mine.insert(t), m.list.push_back(t);
      } else {
        if (!all.insert(t).second) return m;
        mine.insert(t);
        m.list.push_back(t);
      }
      m.bad = false;
      m.line = 0;
      m.entry.clear();
    }
  }
  m.bad = !m.dups.empty();
  return m;
}

std::unique_ptr<ListFile> open(const String& p, Kind k) {
  switch (k) {
  case One: return std::make_unique<ListFile>(p);
  case Multi: return std::make_unique<ListFile>(p, ListFile::FileType::MultiplePerLine);
  case Level: return std::make_unique<LevelListFile>(p, JlptLevels::N3);
  default: return std::make_unique<KyuListFile>(p, KenteiKyus::KJ1);
  }
}

const std::vector<String> Probe{"字", "漢", "か", "𠀀", "々", "a", " ", "", "字漢", "\xe5", "字 漢"};

/// loads a file and compares; false if it was refused
bool check(const String& path, const String& text, Kind kind, Seen& seen, const String& key) {
  const auto want{load(text, kind, seen)};
  vh::trace();
  vh::step(text.size());
  try {
    const auto f{open(path, kind)};
    if (want.bad) {
      vh::fail(key, "not refused (line " + std::to_string(want.line) + ", entry '" + vh::show(want.entry) + "')");
      return true;
    }
    vh::outcome("ok" + std::to_string(want.list.size()));
    String all;
    for (auto& i : want.list) all += i;
    vh::state(all);
    vh::expect(f->list() == want.list, key + ":list", "got " + vh::show(f->toString()) + ", expected " + vh::show(all));
    vh::same(f->toString(), all, key + ":string", "toString()");
    vh::same(f->size(), want.list.size(), key + ":size", "size()");
    for (auto& p : Probe) {
      const auto i{std::find(want.list.begin(), want.list.end(), p)};
      const auto index{i == want.list.end() ? 0U : static_cast<unsigned>(i - want.list.begin() + 1)};
      vh::same(static_cast<unsigned>(f->getIndex(p)), index, key + ":index " + p, "getIndex(" + vh::show(p) + ")");
      vh::same(f->exists(p), index > 0, key + ":exists " + p, "exists(" + vh::show(p) + ")");
    }
    vh::expect(f->level() == (kind == Level ? JlptLevels::N3 : JlptLevels::None) && f->kyu() == (kind == Kyu ? KenteiKyus::KJ1 : KenteiKyus::None), key + ":type", "level()/kyu()");
    const auto stem{path.substr(path.rfind('/') + 1)};
    auto n{stem.substr(0, stem.rfind('.'))};
    if (n[0] >= 'a' && n[0] <= 'z') n[0] = static_cast<char>(n[0] - 32);
    vh::same(f->name(), kind == Level ? "N3" : kind == Kyu ? "KJ1" : n, key + ":name", "name()");
    return true;
  } catch (const DomainError& e) {
    const String m{e.what()};
    if (!want.bad) {
      vh::fail(key, "refused: " + m);
      return false;
    }
    vh::outcome(m.substr(0, 12));
    vh::expect(has(m, "file: " + path), key + ":file", "error doesn't name the file: " + m);
    if (want.line) vh::expect(has(m, "line: " + std::to_string(want.line) + ","), key + ":line", "error doesn't name line " + std::to_string(want.line) + ": " + m);
    if (!want.entry.empty()) vh::expect(has(m, want.entry), key + ":entry", "error doesn't name '" + want.entry + "': " + m);
    if (!want.line && want.entry.empty()) {
      vh::expect(has(m, " " + std::to_string(want.dups.size()) + " "), key + ":dups", "error doesn't count the duplicates: " + m);
      String all;
      for (auto& d : want.dups) all += " " + d;
      vh::expect(has(m, all), key + ":duplist", "error doesn't list the duplicates: " + m);
    }
  } catch (const std::exception& e) {
    vh::fail(key, String{"unexpected exception: "} + e.what());
  }
  return false;
}

String text(const std::vector<String>& a, const std::vector<size_t>& w) {
  String s;
  for (auto i : w) s += a[i];
  return s;
}

void single() {
  const std::vector<String> a{"字", "漢", "𠀀", "か", "a", " ", "\n", "\xe5"};
  const size_t max{vh::g().thorough ? 6U : 5U};
  const auto path{vh::g().scratch + "/list.txt"};
  const auto run{[&](const String& t) {
    write(path, t);
    for (auto k : {One, Multi, Level, Kyu}) {
      ListFile::clearUniqueCheckData();
      Seen s;
      check(path, t, k, s, String{name[k]} + ":" + t);
    }
  }};
  for (size_t f{}; f < a.size(); ++f)
    for (size_t g{}; g < a.size(); ++g)
      if (vh::begin("files " + a[f] + a[g])) vh::words(a.size(), 0, max - 2, [&](const auto& w) { run(a[f] + a[g] + text(a, w)); });
  if (vh::begin("short files")) {
    run("");
    for (auto& i : a) run(i);
    for (int c{1}; c < 256; ++c) { // (text has no NULs)
      const String b(1, static_cast<char>(c));
      for (const char* p : {"", "字", "字\n", "字 "})
        for (const char* q : {"", "漢", "\n漢", " 漢"}) run(p + b + q);
    }
    for (const char* t : {"字\r\n漢\r\n", "\t字", "字\ufe00", "か\u3099", "\ufe00", "\ufeff字", "字　漢", "々\n〆\n🙂", "\xf4\x90\x80\x80", "\xed\xa0\x80", "\xc0\xaf", "é"}) run(t);
  }
  // every single Unicode character of the Kanji related planes is an entry
  for (unsigned b{}; b < 0x300; ++b)
    if (vh::begin("block " + std::to_string(b))) {
      String t;
      for (unsigned c{b * 256}; c < (b + 1) * 256; ++c)
        if (c > 0x7f && ref::scalar(c)) t += ref::enc(c) + ((c & 15) == 15 ? "\n" : " ");
      write(path, t);
      for (auto k : {Multi, Level, Kyu}) {
        ListFile::clearUniqueCheckData();
        Seen s;
        check(path, t, k, s, String{name[k]} + ":block " + std::to_string(b));
      }
    }
}

void pairs() {
  const std::vector<String> a{"字", "漢", " ", "\n"};
  const size_t max{vh::g().thorough ? 5U : 4U};
  const auto p1{vh::g().scratch + "/first.txt"}, p2{vh::g().scratch + "/second.txt"}, p3{vh::g().scratch + "/third"};
  std::vector<String> all;
  vh::words(a.size(), 1, max, [&](const auto& w) {
    const auto t{text(a, w)};
    if (t.front() != ' ' && !has(t, "  ") && !has(t, "\n ") && (t.size() < 6 || t.back() != '\n')) all.push_back(t);
  });
  for (size_t i{}; i < all.size(); ++i)
    if (vh::begin("first file " + all[i])) {
      write(p1, all[i]);
      for (auto& t2 : all) {
        write(p2, t2);
        for (auto k1 : {One, Multi, Level, Kyu})
          for (auto k2 : {One, Multi, Level, Kyu}) {
            ListFile::clearUniqueCheckData();
            Seen s;
            const auto key{String{name[k1]} + ":" + all[i] + "|" + name[k2] + ":" + t2};
            check(p1, all[i], k1, s, key + "#1");
            const auto ok{check(p2, t2, k2, s, key + "#2")};
            if (t2.size() > 4) continue;
            // a third file of the first kind
            write(p3 + ".txt", "漢");
            check(p3 + ".txt", "漢", k1, s, key + "#3");
            if (!ok) continue;
            ListFile::clearUniqueCheckData();
            Seen none;
            check(p2, t2, k2, none, key + "#4");
          }
      }
    }
}

/// result of f: value or "!" if refused with a DomainError
template <typename F> String result(const F& f) {
  try {
    return f();
  } catch (const DomainError& e) {
    return String{"!"} + e.what();
  } catch (const std::exception& e) {
    return String{"?"} + e.what();
  }
}

void paths() {
  const auto& d{vh::g().scratch};
  if (!vh::begin("paths")) return;
  write(d + "/plain", "字\n");
  write(d + "/both", "漢\n");
  write(d + "/both.txt", "字\n");
  write(d + "/only.txt", "か\n");
  write(d + "/dot.dat", "か\n");
  write(d + "/dot.dat.txt", "か\n");
  mkdir((d + "/sub").c_str(), 0755);
  mkdir((d + "/sub2").c_str(), 0755);
  write(d + "/sub2.txt", "字\n");
  struct T {
    const char *name, *file, *list;
  };
  for (const auto& t : {T{"plain", "plain", "字"}, T{"both", "both", "漢"}, T{"both.txt", "both.txt", "字"}, T{"only", "only.txt", "か"}, T{"only.txt", "only.txt", "か"},
           T{"dot.dat", "dot.dat", "か"}, T{"sub2", "sub2.txt", "字"}, T{"sub", nullptr, nullptr}, T{"missing", nullptr, nullptr}, T{"missing.txt", nullptr, nullptr},
           T{"only.dat", nullptr, nullptr}, T{"plain.txt", nullptr, nullptr}}) {
    const String key{String{"path "} + t.name};
    vh::trace(2);
    const auto g{result([&] { return ListFile::getFile(d, t.name).string(); })};
    if (t.file)
      vh::same(g, d + "/" + t.file, key, "getFile");
    else
      vh::expect(g[0] == '!' && (has(g, String{"'"} + t.name) || has(g, String{t.name} + " must be")), key, "getFile gave " + g);
    const auto l{result([&] {
      ListFile::clearUniqueCheckData();
      return ListFile{d + "/" + t.name}.toString();
    })};
    if (t.list)
      vh::same(l, String{t.list}, key + ":list", "contents");
    else
      vh::expect(l[0] == '!' && has(l, t.name), key + ":list", "ListFile gave " + l);
  }
  for (auto& x : {String{d + "/plain"}, String{d + "/none"}}) {
    vh::trace();
    const auto g{result([&] { return ListFile::getFile(x, "only").string(); })};
    vh::expect(g[0] == '!' && has(g, x), "dir " + x, "getFile in something else than a directory gave " + g);
  }
}

void limits() {
  const auto path{vh::g().scratch + "/big.txt"};
  std::vector<String> e;
  for (uint32_t c{0x80}; e.size() < 65540; ++c)
    if (ref::scalar(c)) e.push_back(ref::enc(c));
  for (size_t n : {1U, 255U, 256U, 257U, 32767U, 32768U, 65533U, 65534U, 65535U, 65536U, 65537U})
    for (auto k : {One, Multi, Level, Kyu})
      if (vh::begin("size " + std::to_string(n) + name[k])) {
        String t;
        for (size_t i{}; i < n; ++i) t += e[i] + (k == One || i % 7 == 0 ? '\n' : ' ');
        write(path, t);
        ListFile::clearUniqueCheckData();
        const auto key{"size " + std::to_string(n) + name[k]};
        vh::trace();
        vh::step(n);
        const auto r{result([&]() -> String {
          const auto f{open(path, k)};
          for (size_t i{}; i < e.size(); ++i)
            if (f->getIndex(e[i]) != (i < n ? i + 1 : 0)) return "index of entry " + std::to_string(i) + " is " + std::to_string(f->getIndex(e[i]));
          if (f->list() != std::vector<String>{e.begin(), e.begin() + static_cast<long>(n)}) return "other list";
          return {};
        })};
        if (n <= 65534)
          vh::same(r, String{}, key, "result");
        else
          vh::expect(r[0] == '!' && has(r, "65534") && has(r, path), key, "result " + r);
      }
}

/// many entries again, in one or several files, at any position, on lines of any length
void repeats() {
  const auto p1{vh::g().scratch + "/rep1.txt"}, p2{vh::g().scratch + "/rep2.txt"};
  const auto make{[](uint32_t from, size_t n, size_t perLine) {
    String t;
    for (size_t i{}; i < n; ++i) t += ref::enc(static_cast<uint32_t>(from + i)) + ((i + 1) % perLine && i + 1 < n ? " " : "\n");
    return t;
  }};
  for (size_t n : {2U, 9U, 10U, 11U, 12U, 13U, 16U, 17U, 33U, 65U, 101U, 129U, 257U, 1025U, 5001U})
    for (size_t perLine : {1U, 7U, 300U, 100000U})
      if (vh::begin("repeats " + std::to_string(n) + "/" + std::to_string(perLine)))
        for (auto k : {One, Multi, Level, Kyu}) {
          if (k == One && perLine > 1) continue;
          for (size_t again : {size_t{}, size_t{1}, n / 2, n - 1, n, n + 3}) { // number of entries that are in both files
            ListFile::clearUniqueCheckData();
            Seen s;
            const auto key{String{name[k]} + " " + std::to_string(n) + "/" + std::to_string(perLine) + " again " + std::to_string(again)};
            const auto t1{make(0x4e00, n, perLine)}, t2{make(static_cast<uint32_t>(0x4e00 + n - std::min(n, again)), n + 4, perLine)};
            write(p1, t1);
            check(p1, t1, k, s, key + "#1");
            write(p2, t2);
            check(p2, t2, k, s, key + "#2");
            // (the check data is cleared however much there is)
            ListFile::clearUniqueCheckData();
            Seen none;
            check(p2, t2, k, none, key + "#3");
          }
          // the same entry a second time, or something else, at the end
          for (const auto& x : {ref::enc(0x4e00), ref::enc(static_cast<uint32_t>(0x4e00 + n - 1)), String{"x"}, String{"\xe5"}, ref::enc(0x20000)}) {
            ListFile::clearUniqueCheckData();
            Seen s;
            const auto t{make(0x4e00, n, perLine) + x};
            write(p1, t);
            check(p1, t, k, s, String{name[k]} + " " + std::to_string(n) + "/" + std::to_string(perLine) + " then " + x);
          }
        }
}

void print() {
  if (!vh::begin("print")) return;
  const std::vector<std::vector<String>> lists{{}, {"字"}, {"字", "漢"}, {"漢", "字", "漢"}, {"", "a"}, std::vector<String>(13, "字"), std::vector<String>(300, "漢字"), std::vector<String>(5000, "𠀀")};
  for (auto& l : lists)
    for (const char* type : {"", "x", "duplicates"})
      for (const char* group : {"", "N5", "Group A"}) {
        std::ostringstream o;
        ListFile::print(o, l, type, group);
        String w;
        if (!l.empty()) {
          w = ">>> Found " + std::to_string(l.size()) + " " + type + (*group ? String{" in "} + group : "") + ":";
          for (auto& i : l) w += " " + i;
          w += "\n";
        }
        vh::trace();
        vh::same(o.str(), w, String{"print "} + std::to_string(l.size()) + type + group, "print");
      }
}

} // namespace

int main(int argc, char** argv) {
  return vh::run(argc, argv, [] {
    single();
    pairs();
    paths();
    limits();
    repeats();
    print();
  });
}
