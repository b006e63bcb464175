// C23: list quiz sessions against a session automaton
#include "quiz.h"

namespace {

struct Config {
  const char* listName;
  const kt::KanjiData::List* list;
  bool quiz, toReading;
  unsigned count;
  int order; ///< 0 from beginning, 1 from end, 2 random
  unsigned start;
  bool show;
  kt::Kanji::Info fields{kt::Kanji::Info::All};

  Str id() const {
    return Str{listName} + (quiz ? " quiz " : " review ") + (toReading ? "k" : "r") + std::to_string(count) + " order " + std::to_string(order) + " from " + std::to_string(start) + (show ? " meanings" : "") +
           (fields == kt::Kanji::Info::All ? "" : " fields");
  }
};

/// inputs: C right, W first wrong, V last wrong, other characters literally
/// (E is an empty line, X isn't a choice, T is too long)
struct Game {
  const Config& c;
  const Str& word;
  const Str key;
  size_t at{};
  // model
  kt::KanjiData::List order, rest;
  unsigned q{};
  bool show;
  unsigned right{};
  Strs mistakes;
  bool over{}, asked{}, newDisplay{true};
  Str pending;
  kt::KanjiPtr now;
  Strs offered; ///< choices of the current question
  size_t rightAt{};

  Game(const Config& cfg, const Str& w, const Str& k) : c{cfg}, word{w}, key{k}, order(*cfg.list), show{cfg.show} {
    if (c.order == 1) std::reverse(order.begin(), order.end());
    rest = order;
    q = c.start ? c.start - 1 : 0;
  }
  bool random() const { return c.order == 2; }

  void bad(const Str& what) {
    vh::fail(key, "after " + word.substr(0, at) + " (question " + std::to_string(q + 1) + "): " + what);
    over = true;
  }

  Str header(const kt::Kanji& k) const {
    Str r{(c.quiz ? "\nQuestion " : "\n") + std::to_string(q + 1) + "/" + std::to_string(order.size()) + ":  "};
    if (c.toReading) {
      r += k.name();
      if (const auto i{k.info(c.fields)}; !i.empty()) r += "  " + i;
      if (!c.quiz) {
        r += ", " + kt::toString(k.type());
        if (const auto x{k.extraTypeInfo()}; x) r += " (" + *x + ")";
      }
    } else
      r += "Reading:  " + k.reading();
    if (show && k.hasMeaning()) r += (c.quiz ? " : " : "\n    Meaning: ") + k.meaning();
    return r + "\n";
  }

  Str ask() const {
    Choices x{{'-', show ? "hide meanings" : "show meanings"}, {'.', q + 1 == order.size() ? "finish" : c.quiz ? "skip" : "next"}, {'/', "quit"}};
    if (!c.quiz && q) x[','] = "prev";
    if (c.quiz)
      for (unsigned i{1}; i <= c.count; ++i) x[static_cast<char>('0' + i)];
    return prompt(c.quiz ? c.toReading ? "  Select correct reading" : "  Select correct kanji" : "  Select", x);
  }

  static const Str& review(const kt::KanjiPtr& k) {
    static std::map<Str, Str> cache;
    auto& r{cache[k->name()]};
    if (r.empty()) r = printed([&](const auto& l) { l.printReviewDetails(*k); });
    return r;
  }
  static const Str& legend(kt::Kanji::Info f) {
    static std::map<int, Str> cache;
    auto& r{cache[static_cast<int>(f)]};
    if (r.empty()) r = printed([&](const auto& l) { l.printLegend(f); });
    return r;
  }

  /// text of the opening lines
  bool opening(Str& s) {
    asked = true;
    const Str begin{Str{"Starting "} + (c.quiz ? "quiz" : "review") + " for " + std::to_string(order.size()) + " kanji\n>>>\n"};
    const auto i{s.find(begin)};
    if (i == Str::npos) return bad("no '" + begin + "' in '" + s + "'"), false;
    s.erase(0, i + begin.size());
    if (c.toReading) {
      if (!s.starts_with(legend(c.fields))) return bad("no legend in '" + s + "'"), false;
      s.erase(0, legend(c.fields).size());
    }
    return true;
  }

  std::optional<Str> next(const Str& chunk) {
    vh::step();
    if (over) {
      if (at <= word.size()) bad("asks again: '" + chunk + "'");
      ++at;
      return {};
    }
    auto s{chunk};
    if (!asked && !opening(s)) return {};
    if (!s.starts_with(pending)) return bad("got '" + s + "', expected '" + pending + "' first"), std::nullopt;
    s.erase(0, pending.size());
    pending.clear();
    if (newDisplay) {
      if (q >= order.size()) return bad("asks after the last question: " + s), std::nullopt;
      if (!now) {
        if (!random())
          now = order[q];
        else
          for (size_t i{}; i < rest.size(); ++i)
            if (s.starts_with(header(*rest[i]))) {
              now = rest[i];
              rest.erase(rest.begin() + static_cast<long>(i));
              break;
            }
        if (!now) return bad("none of the remaining Kanji: '" + s + "'"), std::nullopt;
      }
      const auto h{header(*now)};
      if (!s.starts_with(h)) return bad("got '" + s + "', expected '" + h + "'"), std::nullopt;
      s.erase(0, h.size());
      if (c.quiz) {
        Strs l;
        for (unsigned i{1}; i <= c.count; ++i) {
          const auto pre{"    " + std::to_string(i) + ".  "};
          const auto e{s.find('\n')};
          if (!s.starts_with(pre) || e == Str::npos) return bad("no choice " + std::to_string(i) + " in '" + s + "'"), std::nullopt;
          l.push_back(s.substr(pre.size(), e - pre.size()));
          s.erase(0, e + 1);
        }
        if (!offered.empty() && offered != l) return bad("choices changed"), std::nullopt;
        if (offered.empty()) {
          offered = l;
          const auto& want{c.toReading ? now->reading() : now->name()};
          std::set<Str> readings;
          size_t n{};
          for (size_t i{}; i < l.size(); ++i) {
            if (l[i] == want) {
              rightAt = i;
              ++n;
            }
            kt::KanjiPtr from;
            for (auto& k : order)
              if ((c.toReading ? k->reading() : k->name()) == l[i]) from = k;
            if (!from) return bad("choice '" + l[i] + "' isn't from the list"), std::nullopt;
            if (!readings.insert(from->reading()).second) return bad("reading '" + from->reading() + "' offered twice"), std::nullopt;
          }
          if (n != 1) return bad(std::to_string(n) + " right choices for " + now->name()), std::nullopt;
          vh::outcome(key.substr(0, 12) + std::to_string(rightAt));
        }
      } else {
        const auto& d{review(now)};
        if (!s.starts_with(d)) return bad("got '" + s + "', expected '" + d + "'"), std::nullopt;
        s.erase(0, d.size());
      }
    }
    if (s != ask()) return bad("prompt is '" + s + "', expected '" + ask() + "'"), std::nullopt;
    newDisplay = false;
    vh::state(c.id() + std::to_string(q) + (show ? "+" : "-") + std::to_string(right) + names(mistakes));
    // answer
    if (at == word.size()) {
      over = true;
      ++at;
      return {};
    }
    const auto a{word[at++]};
    Str line(1, a);
    if (a == 'E') line = "";
    if (a == 'T') line = "1.";
    if (a == 'C' || a == 'W' || a == 'V') {
      if (!c.quiz)
        line = "1";
      else {
        auto i{rightAt};
        if (a == 'W') i = rightAt ? 0 : 1;
        if (a == 'V') i = rightAt + 1 == c.count ? c.count - 2 : c.count - 1;
        line = std::to_string(i + 1);
      }
    }
    if (a == 'X') line = c.count < 9 ? std::to_string(c.count + 1) : "0";
    const auto done{[&] {
      ++q;
      now = {};
      offered.clear();
      newDisplay = true;
      if (q == order.size()) over = true;
    }};
    if (line == "-") {
      show = !show;
      newDisplay = true;
    } else if (line == "/")
      over = true;
    else if (line == ".")
      done();
    else if (line == "," && !c.quiz && q) {
      --q;
      now = {};
      newDisplay = true;
    } else if (c.quiz && line.size() == 1 && line[0] >= '1' && line[0] < static_cast<char>('1' + c.count)) {
      if (line[0] == static_cast<char>('1' + rightAt)) {
        ++right;
        pending = "  Correct! (" + std::to_string(right) + "/" + std::to_string(q + 1) + ")\n";
      } else {
        mistakes.push_back(now->name());
        pending = "  Incorrect (correct answer is " + std::to_string(rightAt + 1) + ")\n";
      }
      done();
    }
    return line;
  }

  void finish(const Str& s) {
    if (!asked) return bad("nothing was asked: '" + s + "'");
    if (!over) return bad("ended early");
    const auto want{pending + (c.quiz ? score(right, q, mistakes) : "")};
    if (s != want) bad("ends with '" + s + "', expected '" + want + "'");
  }
};

const char* orderArg(const Config& c) {
  static const char* a[2][3]{{"-r1", "-r-1", "-r0"}, {"-t1", "-t-1", "-t0"}};
  return a[c.quiz][c.order];
}

void run(const kt::QuizLauncher& l, const Config& c) {
  const kt::ListQuiz q{l, static_cast<uint16_t>(c.start), c.show, *c.list, c.fields, static_cast<uint16_t>(c.count), c.toReading ? kt::ListQuiz::QuizStyle::KanjiToReading : kt::ListQuiz::QuizStyle::ReadingToKanji};
}

void play(const Config& c, const Str& word, const std::vector<unsigned>& draws = {}) {
  Str key{c.id() + " " + word};
  for (auto i : draws) key += "," + std::to_string(i);
  vhrng::reset(draws);
  vh::trace();
  vh::note(key);
  Game g{c, word, key};
  Session s{{orderArg(c)}, [&](const Str& x) { return g.next(x); }};
  try {
    run(*s.launcher, c);
    g.finish(world().real.out.str());
  } catch (const std::exception& e) {
    g.bad(Str{"exception "} + e.what());
  }
  vh::sample([&] { return key; });
}

/// has to be refused
void refused(const Config& c) {
  vh::trace();
  vh::step();
  Session s{{orderArg(c)}, [](const Str&) { return std::nullopt; }};
  try {
    run(*s.launcher, c);
    vh::fail(c.id(), "not refused");
  } catch (const kt::DomainError&) {
    vh::outcome("refused");
  } catch (const std::exception& e) {
    vh::fail(c.id(), Str{"unexpected exception "} + e.what());
  }
}

struct Lists {
  kt::KanjiData::List l4, dup, l2, l1, l9, l12, l30, l300, same;
  kt::KanjiPtr noReading;
  Lists() {
    std::map<Str, kt::KanjiData::List> byReading;
    kt::KanjiData::List plain;
    std::set<Str> used;
    const auto& d{*world().data};
    for (auto t : {kt::KanjiTypes::Jouyou, kt::KanjiTypes::Jinmei, kt::KanjiTypes::Kentei})
      for (auto& k : d.types()[t]) {
        if (!k->hasReading()) {
          noReading = k;
          continue;
        }
        byReading[k->reading()].push_back(k);
      }
    for (auto& k : d.types()[kt::KanjiTypes::Ucd])
      if (!k->hasReading()) noReading = k;
    const auto take{[&](auto f) {
      for (auto& i : byReading)
        for (auto& k : i.second)
          if (!used.contains(i.first) && f(*k)) {
            used.insert(i.first);
            return k;
          }
      abort();
    }};
    const auto meaning{[](auto& k) { return k.hasMeaning() && k.is(kt::KanjiTypes::Jouyou); }};
    l4 = {take(meaning), take([](auto& k) { return !k.hasMeaning(); }), take([](auto& k) { return k.is(kt::KanjiTypes::Jinmei) && k.extraTypeInfo(); }), take(meaning)};
    for (auto& i : byReading)
      if (i.second.size() >= 2 && !used.contains(i.first)) {
        dup = {i.second[0], l4[0], i.second[1], l4[1]};
        same = {i.second[0], i.second[1]};
        break;
      }
    l2 = {l4[0], l4[1]};
    l1 = {l4[2]};
    l9 = l4;
    while (l9.size() < 9) l9.push_back(take(meaning));
    l12 = l9;
    while (l12.size() < 12) l12.push_back(take(meaning));
    l30 = l12;
    while (l30.size() < 30) l30.push_back(take(meaning));
    l300 = l30;
    while (l300.size() < 300) l300.push_back(take([](auto&) { return true; }));
  }
};
const Lists& lists() {
  static const Lists l;
  return l;
}

/// all words of a length over the letters
void words(const Str& letters, size_t len, const Config& c, const std::vector<unsigned>& draws = {}) {
  vh::words(letters.size(), 0, len, [&](const auto& w) {
    Str s;
    for (auto i : w) s += letters[i];
    // nothing is read after the end
    if (const auto e{s.find('/')}; e != Str::npos && e + 1 < s.size()) return;
    play(c, s, draws);
  });
}

void body() {
  const bool th{vh::g().thorough};
  const auto info{kt::Kanji::Info::All ^ kt::Kanji::Info::Grade};
  // sessions of every word
  struct L {
    const char* name;
    const kt::KanjiData::List Lists::*list;
    std::vector<unsigned> counts;
  };
  const std::vector<L> all{{"four", &Lists::l4, {2, 4}}, {"shared reading", &Lists::dup, {2, 3}}, {"two", &Lists::l2, {2}}, {"nine", &Lists::l9, {9, 3}}};
  for (auto& l : all)
    for (auto count : l.counts)
      for (int style{}; style < 2; ++style)
        for (int order{}; order < 3; ++order)
          for (unsigned start{}; start < 4; ++start)
            for (int show{}; show < 2; ++show) {
              if (style && order == 2 && Str{l.name} == "shared reading") continue; // can't tell which is asked
              if (vh::begin(Str{"quiz "} + l.name + " count " + std::to_string(count) + " style " + std::to_string(style) + " order " + std::to_string(order) + " start " + std::to_string(start) + " show " + std::to_string(show))) {
                const Config c{l.name, &(lists().*l.list), true, !style, count, order, start, show > 0, (count + start) % 2 ? info : kt::Kanji::Info::All};
                if (start > c.list->size()) {
                  refused(c);
                  continue;
                }
                const bool main{!start && !show && order < 2};
                words(main ? "CWV.-/EXT," : "CW.-/E", (main ? 4 : 5) + th, c);
              }
            }
  // reviews
  for (auto& l : {L{"four", &Lists::l4, {1}}, L{"shared reading", &Lists::dup, {1}}, L{"one", &Lists::l1, {1}}, L{"two", &Lists::l2, {1}}})
    for (int order{}; order < 2; ++order)
      for (unsigned start{}; start < 4; ++start)
        for (int show{}; show < 2; ++show)
          for (size_t first{}; first < 6; ++first)
            if (vh::begin(Str{"review "} + l.name + " order " + std::to_string(order) + " start " + std::to_string(start) + " show " + std::to_string(show) + " first " + std::to_string(first))) {
              const Config c{l.name, &(lists().*l.list), false, true, 1, order, start, show > 0, start % 2 ? info : kt::Kanji::Info::All};
              if (start > c.list->size()) {
                if (!first) refused(c);
                continue;
              }
              const Str letters{".,-/CE"};
              vh::words(6, 0, 5 + th, [&](const auto& w) {
                Str s{letters[first]};
                for (auto i : w) s += letters[i];
                if (const auto e{s.find('/')}; e != Str::npos && e + 1 < s.size()) return;
                play(c, s);
              });
              if (!first) play(c, "");
            }
  // every outcome of the random draws
  for (auto& l : {L{"four", &Lists::l4, {2, 3, 4}}, L{"shared reading", &Lists::dup, {2, 3}}, L{"two", &Lists::l2, {2}}})
    for (auto count : l.counts)
      for (int order{}; order < 3; order += 2)
        for (int style{}; style < 2; ++style)
          for (unsigned d{}; d < vhrng::Grid; ++d) {
            if (style && order == 2 && Str{l.name} == "shared reading") continue;
            if (vh::begin(Str{"draws "} + l.name + " count " + std::to_string(count) + " order " + std::to_string(order) + " style " + std::to_string(style) + " first " + std::to_string(d))) {
              const Config c{l.name, &(lists().*l.list), true, !style, count, order, 0, false};
              vh::words(vhrng::Grid, 3, th ? 5 : 3, [&](const auto& w) {
                std::vector<unsigned> draws{d};
                for (auto i : w) draws.push_back(static_cast<unsigned>(i));
                if (w.size() < 5)
                  for (auto s : {"CCCC", "WCV-C", "VVVV"}) play(c, s, draws);
                else
                  play(c, "C-WCV", draws);
              });
            }
          }
  // long lists, sessions of one kind of answer with one other at every place
  for (int style{}; style < 2; ++style)
    for (unsigned count{2}; count <= 9; ++count)
      if (vh::begin("twelve with " + std::to_string(count) + " style " + std::to_string(style)))
        for (int order{}; order < 3; ++order)
          for (auto a : {'C', 'W', 'V', '.'})
            for (auto b : {'C', 'W', 'V', '.', '-', '/', 'E', 'X'})
              for (size_t i{}; i <= 12; ++i)
                for (size_t j{i}; j <= 12; j += 3) {
                  const Config c{"twelve", &lists().l12, true, !style, count, order, 0, false};
                  Str w(14, a);
                  w[i] = b;
                  w[j] = b;
                  play(c, w);
                }
  // longer lists
  struct Long {
    const char* name;
    const kt::KanjiData::List Lists::*list;
    size_t every;
  };
  for (auto& l : {Long{"thirty", &Lists::l30, 1}, Long{"three hundred", &Lists::l300, th ? 1U : 9U}})
    for (int order{}; order < 3; ++order) {
      for (size_t part{}; part < 8; ++part)
        if (order < 2 && vh::begin(Str{"long review "} + l.name + " order " + std::to_string(order) + " part " + std::to_string(part))) {
          const Config c{l.name, &(lists().*l.list), false, true, 1, order, 0, false};
          const auto n{c.list->size()};
          for (size_t i{part}; i < n; i += 8)
            if (l.every == 1 || i % l.every == 0 || i > n - 4 || (i > 250 && i < 260)) {
              for (auto back : {",", ",,,", ",.,.,-,"}) play(c, Str(i, '.') + back + "/");
              play(c, Str(i, '.') + Str(i, ',') + ",./");
              play(c, Str(i, '.') + "," + Str(n - i + 1, '.'));
              const Config from{l.name, c.list, false, true, 1, order, static_cast<unsigned>(i + 1), true};
              play(from, ",,../");
              play(from, Str(n - i, '.'));
            }
        }
      for (unsigned count : {2U, 4U, 9U})
        for (int style{}; style < 2; ++style)
          if (vh::begin(Str{"long quiz "} + l.name + " order " + std::to_string(order) + " count " + std::to_string(count) + " style " + std::to_string(style))) {
            const auto n{(lists().*l.list).size()};
            for (unsigned start : {0U, 1U, 2U, 10U, static_cast<unsigned>(n) - 20, static_cast<unsigned>(n) - 1, static_cast<unsigned>(n)}) {
              const Config c{l.name, &(lists().*l.list), true, !style, count, order, start, false};
              for (auto w : {"C", "W", "V", ".", "CW", "W.", "CCV-", "WWWC.E"}) {
                Str s;
                while (s.size() < n * 2) s += w;
                play(c, s);
              }
              for (size_t i{}; i < n; i += l.every * 3) {
                play(c, Str(i, 'W') + "/");
                play(c, Str(i, 'C') + "W/");
                play(c, Str(i, 'C') + "W" + Str(n, 'C'));
              }
            }
            const Config c{l.name, &(lists().*l.list), true, !style, count, order, static_cast<unsigned>(n) + 1, false};
            refused(c);
          }
    }
  // what can't be a quiz
  if (vh::begin("refused")) {
    auto none{lists().l4};
    none.push_back(lists().noReading);
    for (int quiz{}; quiz < 2; ++quiz)
      for (int style{}; style < 2; ++style)
        for (int order{}; order < 3; ++order) {
          refused({"with one without reading", &none, quiz > 0, !style, 2, order, 0, false});
          for (unsigned start : {5U, 6U, 100U, 65535U}) refused({"four", &lists().l4, quiz > 0, !style, 2, order, start, false});
        }
    // fewer different readings than choices
    for (int style{}; style < 2; ++style)
      for (int order{}; order < 3; ++order) {
        for (unsigned n : {5U, 9U}) refused({"four", &lists().l4, true, !style, n, order, 0, false});
        refused({"shared reading", &lists().dup, true, !style, 4, order, 0, false});
        refused({"one", &lists().l1, true, !style, 2, order, 0, false});
        refused({"same", &lists().same, true, !style, 2, order, 0, false});
      }
  }
}

} // namespace

int main(int argc, char** argv) { return vh::run(argc, argv, body); }
