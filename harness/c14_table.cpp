// C14: tables
#include "ref_size.h"
#include "vh.h"
#include <iomanip>
#include <kt_kana/Table.h>

using namespace kanji_tools;

namespace {

using Row = Table::Row;

struct Model {
  Row title;
  bool count{};
  std::vector<Row> rows;
  std::vector<bool> sections;
  void add(Row r, bool s) {
    if (count) r.insert(r.begin(), std::to_string(rows.size() + 1));
    rows.push_back(r);
    sections.push_back(s);
  }
  [[nodiscard]] String print() const {
    std::vector<size_t> w;
    const auto widen{[&](const Row& r) {
      if (w.size() < r.size()) w.resize(r.size());
      for (size_t i{}; i < r.size(); ++i) w[i] = std::max(w[i], ref::width(r[i]));
    }};
    widen(title);
    for (auto& r : rows) widen(r);
    if (w.empty()) return "";
    String border, out;
    for (auto i : w) border += "+" + String(i + 2, '-');
    border += "+\n";
    const auto line{[&](const Row& r) {
      for (size_t i{}; i < w.size(); ++i) {
        const auto c{i < r.size() ? r[i] : ""};
        out += "| " + c + String(w[i] - ref::width(c) + 1, ' ');
      }
      out += "|\n";
    }};
    out = border;
    if (!title.empty()) line(title);
    for (size_t i{}; i < rows.size(); ++i) {
      if (sections[i]) out += border;
      line(rows[i]);
    }
    return out + border;
  }
  [[nodiscard]] String markdown() const {
    size_t n{title.size()};
    for (auto& r : rows) n = std::max(n, r.size());
    if (!n) return "";
    String out;
    const auto line{[&](const Row& r, bool bold) {
      for (size_t i{}; i < n; ++i) {
        String c;
        if (i < r.size())
          for (auto x : r[i]) c += x == '|' ? String{"\\|"} : String(1, x);
        if (bold && !c.empty()) c = "**" + c + "**";
        out += "| " + c + " ";
      }
      out += "|\n";
    }};
    line(title, false);
    line(Row(n, "---"), false);
    for (size_t i{}; i < rows.size(); ++i) line(rows[i], sections[i]);
    return out;
  }
};

void compare(const Table& t, const Model& m, const String& key) {
  for (int i{}; i < 3; ++i) {
    std::ostringstream o;
    if (i == 1) o << std::right << std::setfill('*'); // settings of the stream don't matter
    i < 2 ? t.print(o) : t.printMarkdown(o);
    vh::trace();
    vh::step(m.rows.size() + 1);
    vh::outcome(o.str().substr(0, 40));
    const auto want{i < 2 ? m.print() : m.markdown()};
    if (o.str() != want) vh::fail(key + (i < 2 ? ":print" : ":markdown"), "got\n" + o.str() + "expected\n" + want);
  }
}

String id(const Row& r) {
  String s{"["};
  for (auto& c : r) s += c + ";";
  return s + "]";
}

void body() {
  const bool deep{vh::g().thorough};
  const std::vector<String> cells{"", "a", "bb", "日", "か\u3099", "逸\ufe01", "x|y", "ｱ", "é", "|", "日本語", "**", "\\", "a\\|b", "\\|"};
  const std::vector<Row> titles{{}, {"t"}, {"", ""}, {"日本", "x|"}, {"a", "b", "c"}};
  // rows of every length
  std::vector<Row> rows{{}};
  for (auto& a : cells) {
    rows.push_back({a});
    for (auto& b : {"", "a", "日", "x|y", "か\u3099"}) rows.push_back({a, b});
  }
  rows.push_back({"", "", ""});
  rows.push_back({"a", "", "日"});
  rows.push_back({"1", "2", "3", "4", "5"});
  rows.push_back({"", "", "", "x"});
  // every table of one or two rows
  for (auto& title : titles)
    for (bool count : {false, true})
      for (size_t a{}; a < rows.size(); ++a) {
        if (!vh::begin("title " + id(title) + (count ? " counted" : "") + " first row " + id(rows[a]))) continue;
        for (bool s : {false, true}) {
          Model one{title, count, {}, {}};
          one.add(rows[a], s);
          const auto key{id(title) + std::to_string(count) + id(rows[a]) + std::to_string(s)};
          {
            Table t{title, count};
            compare(t, {title, count, {}, {}}, id(title) + "none");
            t.add(rows[a], s);
            compare(t, one, key);
            compare(t, one, key + ":again");
          }
          vh::state(key);
          for (auto& b : rows)
            for (bool s2 : {false, true}) {
              Table t{title, count};
              auto m{one};
              t.add(rows[a], s);
              t.add(b, s2);
              m.add(b, s2);
              compare(t, m, key + id(b) + std::to_string(s2));
            }
        }
        vh::sample([&] { return id(title) + id(rows[a]); });
      }
  // histories of additions with a comparison after each
  const std::vector<Row> few{{}, {"a"}, {"日本", ""}, {"", "か\u3099", "x|y"}};
  const size_t depth{deep ? 5U : 4U};
  vh::words(few.size() * 2, depth, depth, [&](auto& w) {
    String key;
    for (auto i : w) key += std::to_string(i);
    if (!vh::begin("history " + key)) return;
    for (auto& title : titles)
      for (bool count : {false, true}) {
        Table t{title, count};
        Model m{title, count, {}, {}};
        for (auto i : w) {
          t.add(few[i / 2], i % 2);
          m.add(few[i / 2], i % 2);
          compare(t, m, id(title) + std::to_string(count) + key);
        }
        vh::state(id(title) + key);
      }
  });
  // many rows and columns
  for (size_t n : {9U, 10U, 99U, 101U, 256U, 257U, 1001U, 3000U, 10001U, 70000U})
    if (vh::begin("rows " + std::to_string(n)))
      for (bool count : {false, true}) {
        Table t{{"N", "字"}, count};
        Model m{{"N", "字"}, count, {}, {}};
        for (size_t i{}; i < n; ++i) {
          Row r;
          for (size_t j{}; j < (i * 7) % 12; ++j) r.push_back(cells[(i + j) % cells.size()]);
          t.add(r, i % 5 == 0);
          m.add(r, i % 5 == 0);
        }
        compare(t, m, "rows" + std::to_string(n));
      }
  for (size_t n : {63U, 64U, 127U, 255U, 256U, 257U, 999U, 1001U, 70000U})
    if (vh::begin("wide cells " + std::to_string(n)))
      for (auto c : {"a", "日", "か\u3099", "|"}) {
        String s;
        for (size_t i{}; i < n; ++i) s += c;
        for (size_t at{}; at < 3; ++at)
          for (bool title : {false, true}) {
            Row r{"x", "字", "yy"};
            const auto plain{r};
            r[at] = s;
            Table t{title ? r : plain};
            Model m{title ? r : plain, false, {}, {}};
            for (auto& row : {plain, title ? plain : r, plain}) {
              t.add(row, true);
              m.add(row, true);
            }
            compare(t, m, "wide" + std::to_string(n) + c + std::to_string(at) + std::to_string(title));
          }
      }
}

} // namespace

int main(int c, char** v) { return vh::run(c, v, body); }
