// C05: column files are read exactly as written or rejected naming the culprit
#include "vh.h"
#include <algorithm>
#include <kt_utils/ColumnFile.h>
#include <kt_utils/Exception.h>
#include <set>

using namespace kanji_tools;
using Column = ColumnFile::Column;

namespace {

using Row = std::vector<String>;

String path() { return vh::g().scratch + "/file.txt"; }

void write(const String& s, const String& p = path()) {
  FILE* f{fopen(p.c_str(), "wb")};
  if (!f || fwrite(s.data(), 1, s.size(), f) != s.size()) abort();
  fclose(f);
}

const Column& col(size_t i) {
  static const std::vector<Column> c{Column{"One"}, Column{"Two"}, Column{"Three"}};
  return c[i];
}

/// calls f: returns "" or the message of a DomainError ("!" + what otherwise)
template <typename F> String thrown(const F& f) {
  try {
    f();
  } catch (const DomainError& e) {
    return e.what();
  } catch (const std::exception& e) {
    return String{"!"} + e.what();
  }
  return {};
}

String join(const Row& r, char d) {
  String s;
  for (size_t i{}; i < r.size(); ++i) s += (i ? String(1, d) : String{}) + r[i];
  return s;
}

bool has(const String& s, const String& x) { return s.find(x) != String::npos; }

/// what a line of text means for n columns
struct Line {
  Row cells;
  enum { Ok, Few, Many, Open } kind;
};
Line parse(const String& text, size_t n, char d) {
  Line l{{}, Line::Ok};
  String c;
  for (auto ch : text)
    if (ch == d) {
      l.cells.push_back(c);
      c.clear();
    } else
      c += ch;
  l.cells.push_back(c);
  // a single delimiter after a complete row is tolerated (either way)
  if (l.cells.size() == n + 1 && l.cells.back().empty())
    l.kind = Line::Open;
  else if (l.cells.size() != n)
    l.kind = l.cells.size() < n ? Line::Few : Line::Many;
  return l;
}

/// reads the whole file and compares with its meaning
void readAll(const std::vector<size_t>& req, const std::vector<size_t>& hdr, const std::vector<String>& lines, char d, bool finalNewline) {
  Row names;
  for (auto h : hdr) names.push_back(col(h).name());
  String text{join(names, d)}, key{"read:"};
  for (auto& l : lines) text += '\n' + l;
  if (finalNewline) text += '\n';
  for (auto r : req) key += static_cast<char>('0' + r);
  key += ':' + text;
  write(text);
  ColumnFile::Columns cols;
  for (auto r : req) cols.push_back(col(r));
  vh::trace();
  const auto e{thrown([&] {
    ColumnFile f{path(), cols, d};
    size_t row{};
    if (f.columns() != req.size() || f.currentRow() != 0 || f.fileName() != "file.txt") vh::fail(key, "columns/currentRow/fileName wrong after opening");
    if (!has(thrown([&] { f.get(col(req[0])); }), "file.txt")) vh::fail(key, "get before the first row must be refused");
    for (auto& l : lines) {
      if (&l == &lines.back() && l.empty() && !finalNewline) break; // no such row
      ++row;
      const auto want{parse(l, hdr.size(), d)};
      bool more{};
      const auto err{thrown([&] { more = f.nextRow(); })};
      vh::step();
      vh::state(std::to_string(want.cells.size()) + '/' + std::to_string(row) + '/' + std::to_string(hdr.size()) + err);
      vh::outcome(err.substr(0, 20) + std::to_string(more));
      if (want.kind == Line::Few || want.kind == Line::Many || (want.kind == Line::Open && !err.empty())) {
        const auto word{want.kind == Line::Few ? "not enough columns" : "too many columns"};
        if (!has(err, word) || !has(err, "file.txt") || !has(err, "row: " + std::to_string(row)))
          vh::fail(key, "row " + std::to_string(row) + ": expected error '" + word + "' naming file and row, got '" + err + "'");
        continue;
      }
      if (!err.empty() || !more) {
        vh::fail(key, "row " + std::to_string(row) + " not delivered: " + err);
        return;
      }
      if (f.currentRow() != row) vh::fail(key, "currentRow is " + std::to_string(f.currentRow()));
      for (size_t i{}; i < hdr.size(); ++i) {
        String v;
        const auto e2{thrown([&] { v = f.get(col(hdr[i])); })};
        if (!e2.empty() || v != want.cells[i])
          vh::fail(key, "row " + std::to_string(row) + " column " + names[i] + " is '" + v + "' " + e2 + ", the file has '" + want.cells[i] + "'");
        else if (f.isEmpty(col(hdr[i])) != v.empty())
          vh::fail(key, "isEmpty is wrong");
      }
    }
    if (f.nextRow()) vh::fail(key, "more rows delivered than the file has");
    if (f.currentRow() != row) vh::fail(key, "currentRow changed at the end of the file");
  })};
  if (!e.empty()) vh::fail(key, "unexpected error: " + e);
  vh::sample([&] { return text; });
}

void headers() {
  const std::vector<String> tok{"One", "Two", "Three", "", "one", "Extra"};
  const std::vector<std::vector<size_t>> reqs{{0}, {0, 1}, {1, 0}, {0, 1, 2}, {2, 0, 1}, {0, 0}, {1, 0, 1}};
  for (auto& req : reqs) {
    String rs;
    for (auto r : req) rs += static_cast<char>('0' + r);
    if (vh::begin("headers for request " + rs))
      vh::words(tok.size(), 0, 4, [&](auto& w) {
        Row r;
        for (auto i : w) r.push_back(tok[i]);
        const auto text{join(r, '\t')};
        if (!r.empty() && r.back().empty()) return; // trailing delimiter is tolerated
        const std::set<size_t> rq{req.begin(), req.end()};
        write(w.empty() ? "" : text + "\n");
        std::set<String> valid;
        std::set<String> want, seen;
        for (auto q : rq) want.insert(col(q).name());
        if (w.empty()) valid.insert("missing header row");
        if (rq.size() != req.size()) valid.insert("duplicate column");
        size_t missing{want.size()};
        if (!w.empty()) {
          for (auto& h : r) {
            if (!seen.insert(h).second) valid.insert("duplicate header '" + h + "'");
            if (!want.contains(h)) valid.insert("unrecognized header '" + h + "'");
          }
          for (auto& x : want)
            if (seen.contains(x)) --missing;
          if (missing) valid.insert("not found");
        }
        ColumnFile::Columns cols;
        for (auto q : req) cols.push_back(col(q));
        const auto e{thrown([&] { ColumnFile f{path(), cols}; })};
        vh::trace();
        vh::step();
        vh::state(rs + text);
        vh::outcome(e.substr(0, 18));
        const auto key{"header:" + rs + ':' + text};
        if (valid.empty()) {
          if (!e.empty()) vh::fail(key, "good header refused: " + e);
        } else if (!has(e, "file.txt") || std::none_of(valid.begin(), valid.end(), [&](auto& v) { return has(e, v); }))
          vh::fail(key, "bad header: got '" + e + "', expected '" + *valid.begin() + "' naming the file");
      });
  }
  if (vh::begin("file system errors")) {
    vh::trace();
    const ColumnFile::Columns c{col(0)};
    vh::expect(has(thrown([&] { ColumnFile f{vh::g().scratch + "/none.txt", c}; }), "none.txt"), "missing", "missing file must be refused by name");
    mkdir((vh::g().scratch + "/dir.txt").c_str(), 0755);
    vh::expect(has(thrown([&] { ColumnFile f{vh::g().scratch + "/dir.txt", c}; }), "dir.txt"), "dir", "directory must be refused");
    write("One\nx\n");
    vh::expect(has(thrown([&] { ColumnFile f{path(), {}}; }), "file.txt"), "nocol", "no columns must be refused");
  }
}

void rows() {
  const std::vector<String> cell{"", "x", "漢字"};
  std::vector<String> lines; // every line of 0..4 cells
  vh::words(3, 1, 4, [&](auto& w) {
    Row r;
    for (auto i : w) r.push_back(cell[i]);
    lines.push_back(join(r, '\t'));
  });
  std::vector<size_t> p{0, 1, 2};
  do {
    std::vector<size_t> h{0, 1, 2};
    do {
      String d{"one row: order "};
      for (auto i : p) d += static_cast<char>('0' + i);
      for (auto i : h) d += static_cast<char>('0' + i);
      if (vh::begin(d))
        for (auto& l : lines)
          for (bool nl : {true, false}) readAll(p, h, {l}, '\t', nl);
    } while (std::next_permutation(h.begin(), h.end()));
  } while (std::next_permutation(p.begin(), p.end()));
  const std::vector<std::vector<size_t>> hdrs{{0}, {1, 0}, {2, 0, 1}};
  const std::vector<std::vector<size_t>> reqs{{0}, {0, 1}, {0, 1, 2}};
  for (size_t n{}; n < 3; ++n)
    for (size_t a{}; a < lines.size(); ++a)
      if (vh::begin("rows after '" + lines[a] + "' for " + std::to_string(n + 1) + " columns"))
        for (auto& b : lines) {
          readAll(reqs[n], hdrs[n], {lines[a], b}, '\t', (a + b.size()) & 1);
          if (vh::g().thorough) {
            for (size_t k{}; k < lines.size(); k += 3) readAll(reqs[n], hdrs[n], {lines[a], b, lines[k]}, '\t', true);
            auto x{lines[a]}, y{b};
            std::replace(x.begin(), x.end(), '\t', '|');
            std::replace(y.begin(), y.end(), '\t', '|');
            readAll(reqs[n], hdrs[n], {x, y}, '|', true);
            readAll(reqs[n], hdrs[n], {lines[a], y}, '|', true); // tabs are content now
          }
        }
  if (vh::begin("other delimiters"))
    for (char d : {'|', ',', ' ', '\x01'})
      for (auto l : lines) {
        readAll({0, 1}, {1, 0}, {l}, d, true);
        std::replace(l.begin(), l.end(), '\t', d);
        readAll({0, 1}, {1, 0}, {l}, d, true);
      }
}

/// every interleaving of reading two files that share columns
void interleave() {
  const std::vector<std::vector<size_t>> orders{{0, 1, 2}, {2, 1, 0}, {1, 2, 0}, {1, 0}, {0, 2}};
  for (size_t a{}; a < orders.size(); ++a)
    for (size_t b{}; b < orders.size(); ++b)
      if (vh::begin("interleaved files " + std::to_string(a) + ' ' + std::to_string(b)))
        vh::words(2, 0, 6, [&](auto& w) {
          const auto make{[&](size_t o, const String& tag) {
            Row n;
            for (auto i : orders[o]) n.push_back(col(i).name());
            String t{join(n, '\t')};
            for (int r{1}; r < 4; ++r) {
              Row c;
              for (auto i : orders[o]) c.push_back(tag + std::to_string(r) + std::to_string(i));
              t += '\n' + join(c, '\t');
            }
            return t + '\n';
          }};
          const String fa{vh::g().scratch + "/a.txt"}, fb{vh::g().scratch + "/b.txt"};
          write(make(a, "a"), fa);
          write(make(b, "b"), fb);
          const auto cols{[&](size_t o) {
            ColumnFile::Columns c;
            for (size_t i{}; i < 3; ++i)
              if (std::count(orders[o].begin(), orders[o].end(), i)) c.push_back(col(i));
            return c;
          }};
          ColumnFile x{fa, cols(a)};
          const Column late{"Late" + std::to_string(w.size())};
          ColumnFile y{fb, cols(b)};
          int row[2]{};
          const String key{"inter:" + std::to_string(a) + std::to_string(b)};
          vh::trace();
          for (auto s : w) {
            auto& f{s ? y : x};
            const bool more{f.nextRow()};
            vh::expect(more == (row[s] < 3), key, "wrong number of rows");
            if (more) ++row[s];
            for (int k{}; k < 2; ++k) {
              auto& g{k ? y : x};
              const auto o{k ? b : a};
              for (size_t i{}; i < 3; ++i) {
                String v;
                const auto e{thrown([&] { v = g.get(col(i)); })};
                const bool ok{row[k] && std::count(orders[o].begin(), orders[o].end(), i)};
                const auto want{ok ? (k ? "b" : "a") + std::to_string(row[k]) + std::to_string(i) : String{}};
                if (v != want || e.empty() != ok || (!ok && !has(e, k ? "b.txt" : "a.txt")))
                  vh::fail(key, "column " + col(i).name() + " of file " + (k ? "b" : "a") + " row " + std::to_string(row[k]) + " is '" + v + "' " + e + ", expected '" + want + "'");
              }
              vh::expect(!thrown([&] { g.get(late); }).empty(), key, "a column of no file must be refused");
            }
            vh::step();
            vh::state(key + std::to_string(row[0]) + std::to_string(row[1]));
          }
        });
}

// --- cells ---

/// puts all strings in one file and calls f for each row
template <typename F> void cells(const std::vector<String>& v, const F& f) {
  String t{"One\n"};
  for (auto& s : v) t += s + '\n';
  write(t);
  ColumnFile file{path(), {col(0)}};
  size_t row{};
  for (auto& s : v) {
    if (!file.nextRow()) return vh::fail("cells", "row missing");
    ++row;
    vh::step();
    vh::trace();
    f(file, s, row);
  }
}

void number(const ColumnFile& f, const String& s, size_t row) {
  const bool digits{!s.empty() && std::all_of(s.begin(), s.end(), [](char c) { return c >= '0' && c <= '9'; })};
  // value, saturated
  const unsigned __int128 lim{static_cast<unsigned __int128>(1) << 70};
  unsigned __int128 n{};
  for (char c : s)
    if (digits && n < lim) n = n * 10 + static_cast<unsigned>(c - '0');
  const auto check{[&](const String& what, uint64_t max, const std::function<std::optional<uint64_t>()>& get, bool opt) {
    std::optional<uint64_t> v;
    const auto e{thrown([&] { v = get(); })};
    const auto key{"num:" + what + ':' + s};
    vh::outcome(what + e.substr(0, 10));
    if (opt && s.empty())
      vh::expect(e.empty() && !v, key, what + " of an empty cell must be none, got error '" + e + "'");
    else if (digits && n <= max)
      vh::expect(e.empty() && v && *v == static_cast<uint64_t>(n), key, what + "('" + s + "') is " + (v ? std::to_string(*v) : "none") + ' ' + e);
    else
      vh::expect(!e.empty() && has(e, "file.txt") && has(e, "row: " + std::to_string(row)) && has(e, "'One'") && has(e, "'" + s + "'"), key,
          what + "('" + s + "') must be refused naming file, row, column and value; got " + (v ? std::to_string(*v) : "none") + " '" + e + "'");
  }};
  auto& c{col(0)};
  check("getU64", UINT64_MAX, [&] { return f.getU64(c); }, false);
  check("getOptU64", UINT64_MAX, [&] { return f.getOptU64(c); }, true);
  check("getU64 max 199", 199, [&] { return f.getU64(c, 199); }, false);
  check("getOptU64 max 1", 1, [&] { return f.getOptU64(c, 1); }, true);
  check("getU8", 255, [&] { return f.getU8(c); }, false);
  check("getOptU8", 255, [&] { return f.getOptU8(c); }, true);
  check("getU16", 65535, [&] { return f.getU16(c); }, false);
  check("getOptU16", 65535, [&] { return f.getOptU16(c); }, true);
  check("getUInt<32>", UINT32_MAX, [&] { return f.getUInt<uint32_t>(c); }, false);
  vh::state("num" + s);
}

void cellChecks() {
  const String digits{"01259a-+ x.fe"};
  for (size_t a{}; a < digits.size(); ++a)
    if (vh::begin(String{"numbers starting '"} + digits[a] + '\'')) {
      std::vector<String> v;
      vh::words(digits.size(), 0, vh::g().thorough ? 4 : 3, [&](auto& w) {
        String s(1, digits[a]);
        for (auto i : w) s += digits[i];
        v.push_back(s);
      });
      cells(v, number);
    }
  if (vh::begin("numbers at the limits")) {
    std::vector<String> v{"", "000000000000000000000000000001", "0255", "1e3", "0x10", "٣", "１", "12\x01", "\xff", "9999999999999999999999999"};
    for (int b : {1, 7, 8, 15, 16, 31, 32, 63, 64})
      for (int d : {-2, -1, 0, 1, 2}) {
        auto n{(static_cast<unsigned __int128>(1) << b) + static_cast<unsigned __int128>(d)};
        String s;
        for (; n; n /= 10) s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(n % 10)));
        for (auto& p : {"", "0", "-", " ", "+"}) v.push_back(p + s);
        v.push_back(s + " ");
        v.push_back(s + "x");
      }
    for (int i{}; i < 70000; i += i > 300 && i < 65400 ? 37 : 1) v.push_back(std::to_string(i));
    cells(v, number);
  }
  if (vh::begin("flags")) {
    std::vector<String> v{""};
    for (int a{1}; a < 256; ++a)
      if (a != '\n' && a != '\t') {
        v.push_back(String(1, static_cast<char>(a)));
        for (char b : {'Y', 'T', 'N', 'F', ' ', 'y', '\0'})
          if (b) {
            v.push_back({static_cast<char>(a), b});
            v.push_back({b, static_cast<char>(a)});
          }
      }
    cells(v, [](const ColumnFile& f, const String& s, size_t row) {
      bool r{};
      const auto e{thrown([&] { r = f.getBool(col(0)); })};
      const bool t{s == "Y" || s == "T"}, n{s == "N" || s == "F" || s.empty()};
      vh::outcome("bool" + e.substr(0, 5) + std::to_string(r));
      if (t || n)
        vh::expect(e.empty() && r == t, "bool:" + vh::hex(s), "getBool('" + s + "') is " + std::to_string(r) + ' ' + e);
      else
        vh::expect(has(e, "row: " + std::to_string(row)) && has(e, "file.txt") && has(e, "'" + s + "'"), "bool:" + vh::hex(s), "getBool('" + s + "') must be refused");
    });
  }
  const String hex{"0129AF:@Gaf- x"};
  for (size_t a{}; a < hex.size(); ++a)
    if (vh::begin(String{"code points starting '"} + hex[a] + '\'')) {
      std::vector<String> v;
      vh::words(hex.size(), 0, vh::g().thorough ? 4 : 3, [&](auto& w) {
        String s(1, hex[a]);
        for (auto i : w) s += hex[i];
        v.push_back(s);
        if (w.size() == 3) {
          v.push_back(s + 'B');
          v.push_back(s + "BC");
          v.push_back('8' + s);
        }
      });
      cells(v, [](const ColumnFile& f, const String& s, size_t row) {
        Code r{};
        const auto e{thrown([&] { r = f.getChar32(col(0)); })};
        Code r2{};
        const auto e2{thrown([&] { r2 = f.getChar32(col(0), s); })};
        bool ok{s.size() == 4 || s.size() == 5};
        uint32_t n{};
        for (char c : s) {
          const auto p{String{"0123456789ABCDEF"}.find(c)};
          ok = ok && p != String::npos;
          n = n * 16 + static_cast<uint32_t>(p);
        }
        vh::outcome("code" + e.substr(0, 40));
        if (ok)
          vh::expect(e.empty() && r == n && e2.empty() && r2 == n, "code:" + s, "getChar32('" + s + "') is " + toHex(r) + ' ' + e);
        else
          vh::expect(has(e, "row: " + std::to_string(row)) && has(e, "file.txt") && has(e, "'" + s + "'") && !e2.empty(), "code:" + s, "getChar32('" + s + "') must be refused");
      });
    }
}

// --- many rows and many columns ---

void scale() {
  for (const size_t cols : {1U, 2U, 3U, 40U, 130U, 300U})
    if (vh::begin("many rows of " + std::to_string(cols) + " columns")) {
      const size_t n{cols > 100 ? 300U : 2100U};
      static std::vector<std::unique_ptr<ColumnFile::Column>> many;
      while (many.size() < cols) many.push_back(std::make_unique<ColumnFile::Column>("Scale" + std::to_string(many.size())));
      const auto cell{[&](size_t r, size_t c) { return (r + c * 3) % 4 == 0 || (c + 1 == cols && r % 3) ? String{} : 'r' + std::to_string(r) + 'c' + std::to_string(c); }};
      const auto at{[&](size_t c) { return (c * 7 + 1) % cols; }}; // header order (7 doesn't divide any size)
      String t;
      for (size_t c{}; c < cols; ++c) t += (c ? "\t" : "") + many[at(c)]->name();
      t += '\n';
      for (size_t r{1}; r <= n; ++r) {
        for (size_t c{}; c < cols; ++c) t += (c ? "\t" : "") + cell(r, at(c));
        t += '\n';
      }
      write(t);
      ColumnFile::Columns wanted;
      for (size_t c{}; c < cols; ++c) wanted.push_back(*many[c]);
      ColumnFile f{path(), wanted};
      size_t r{};
      for (; f.nextRow(); ++r) {
        vh::trace();
        vh::step(cols);
        if (r >= n || f.currentRow() != r + 1) {
          vh::fail("scale:" + std::to_string(cols) + ":row", "row " + std::to_string(r + 1) + " isn't the current one");
          break;
        }
        for (size_t c{}; c < cols; ++c)
          if (f.get(*many[c]) != cell(r + 1, c) || f.isEmpty(*many[c]) != cell(r + 1, c).empty()) {
            vh::fail("scale:" + std::to_string(cols) + ':' + std::to_string(r + 1) + ':' + std::to_string(c), "cell is '" + f.get(*many[c]) + "' instead of '" + cell(r + 1, c) + '\'');
            break;
          }
      }
      vh::expect(r == n, "scale:" + std::to_string(cols), std::to_string(r) + " rows read instead of " + std::to_string(n));
      for (size_t a{}; a < cols; ++a)
        for (size_t b{}; b < cols; ++b)
          if ((*many[a] == *many[b]) != (a == b)) vh::fail("scale:eq" + std::to_string(a) + ':' + std::to_string(b), "columns compare wrongly");
      for (size_t a{}; a < cols; ++a) {
        const ColumnFile::Column again{many[a]->name()};
        if (!(again == *many[a]) || again.number() != many[a]->number()) vh::fail("scale:again" + std::to_string(a), "a column of the same name is another one");
      }
      vh::state("scale" + std::to_string(cols));
    }
}

void body() {
  headers();
  scale();
  rows();
  interleave();
  cellChecks();
}

} // namespace

int main(int c, char** v) { return vh::run(c, v, body); }
