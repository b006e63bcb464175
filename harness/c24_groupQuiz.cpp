// C24: group quiz sessions against a session automaton
#include "quiz.h"
#include "ref_size.h"

namespace {

using Members = kt::KanjiData::List;
using Groups = kt::GroupData::List;
using MT = kt::GroupQuiz::MemberType;

using ref::width;

struct Config {
  Str name;
  const Groups* groups;
  bool quiz;
  int order; ///< 0 from beginning, 1 from end, 2 random
  unsigned start;
  bool show;
  MT type{MT::All};
  char bucket{}; ///< for pattern groups

  bool pattern() const { return (**groups->begin()).type() == kt::GroupType::Pattern; }
  Str id() const { return name + (quiz ? " quiz" : " review") + " order " + std::to_string(order) + " from " + std::to_string(start) + (show ? " meanings" : "") + " type " + std::to_string(static_cast<int>(type)) + (bucket ? Str{" bucket "} + bucket : Str{}); }
};

bool included(const kt::Kanji& k, MT t) { return k.hasReading() && (t == MT::All || k.is(kt::KanjiTypes::Jouyou) || (t >= MT::JLPT && k.hasLevel()) || (t >= MT::Frequency && k.frequency())); }
Members included(const kt::Group& g, MT t) {
  Members r;
  for (auto& k : g.members())
    if (included(*k, t)) r.push_back(k);
  return r;
}

const Strs Boundaries{"\uff1a\u30ab", "\uff1a\u30b5", "\uff1a\u30bf", "\uff1a\u30cf", "\uff1a\u30e4"};

/// groups asked in order of the file
Groups asked(const Config& c) {
  Groups r;
  size_t row{};
  for (auto& g : *c.groups) {
    if (c.bucket && row < Boundaries.size() && g->name().find(Boundaries[row]) != Str::npos) ++row;
    if ((!c.bucket || row == static_cast<size_t>(c.bucket - '1')) && included(*g, c.type).size() > 1) r.push_back(g);
  }
  return r;
}

char letter(size_t i) { return static_cast<char>(i < 26 ? 'a' + i : 'A' + (i - 26)); }

/// inputs: R a right reading, W a wrong one, U one that's in use, E an empty
/// line, others literally (when choosing what to edit: R first, W last)
struct Game {
  const Config& c;
  const Str& word;
  const Str key;
  size_t at{};
  Groups order, rest;
  unsigned q{};
  bool show;
  unsigned right{};
  Strs mistakes;
  bool over{}, began{}, newDisplay{true}, aborted{}, bucketAsked{};
  Str pending;
  kt::GroupPtr now;
  Members questions, readings;
  std::vector<char> answers;
  std::set<char> available;
  enum Phase { Main, Which, New } phase{Main};
  size_t entry{};

  Game(const Config& cfg, const Str& w, const Str& k) : c{cfg}, word{w}, key{k}, order{asked(cfg)}, show{cfg.show} {
    if (c.order == 1) std::reverse(order.begin(), order.end());
    rest = order;
    q = c.start ? c.start - 1 : 0;
  }

  std::nullopt_t bad(const Str& what) {
    vh::fail(key, "after " + word.substr(0, at) + " (question " + std::to_string(q + 1) + "): " + what);
    over = true;
    return std::nullopt;
  }

  Str header(const kt::Group& g) const {
    Str r{(c.quiz ? "\nQuestion " : "\n") + std::to_string(q + 1) + "/" + std::to_string(order.size()) + ":  ["};
    if (g.patternType() == kt::Group::PatternType::Peer) r += "Peers " + g.members()[0]->name();
    const auto n{included(g, c.type).size()}, all{g.members().size()};
    return r + g.name() + "], " + (n == all ? std::to_string(n) : "showing " + std::to_string(n) + " out of " + std::to_string(all)) + " members\n";
  }

  /// left part of a line; more than one if the Kanji is in several other groups
  Strs left(size_t i, const kt::Kanji& k) const {
    const auto num{std::to_string(i + 1)};
    static std::map<Str, Str> plain;
    if (c.quiz)
      if (const auto j{plain.find(k.name())}; j != plain.end()) return {Str(4 - num.size(), ' ') + num + ":  " + j->second};
    auto s{k.qualifiedName()};
    Str p;
    if (k.pinyin()) p = "  (" + k.pinyin().name() + ")";
    while (width(p) < 12) p += ' ';
    s += p;
    Strs r;
    const auto add{[&](const Str& x) {
      auto l{s + x};
      while (width(l) < 22) l += ' ';
      if (c.quiz) plain[k.name()] = l;
      r.push_back(Str(4 - num.size(), ' ') + num + ":  " + l);
    }};
    if (!c.quiz) {
      const auto& g{*world().groups};
      if (c.pattern()) {
        const auto m{g.meaningMap().equal_range(k.name())};
        for (auto j{m.first}; j != m.second; ++j) add("m:" + std::to_string(j->second->number()));
      } else if (const auto j{g.patternMap().find(k.name())}; j != g.patternMap().end())
        add("p:" + std::to_string(j->second->number()));
    }
    if (r.empty()) add("");
    return r;
  }
  Str rightPart(size_t i, const kt::Kanji& k) const {
    const auto l{c.quiz ? letter(i) : ' '};
    Str a{"    "};
    for (size_t j{}; j < answers.size(); ++j)
      if (answers[j] == l) a = (j < 9 ? " " : "") + std::to_string(j + 1) + "->";
    Str r{a + l + ":  " + k.reading()};
    if (show && k.hasMeaning()) r += " : " + k.meaning();
    return r + "\n";
  }

  bool opening(Str& s) {
    began = true;
    const Str begin{Str{"Starting "} + (c.quiz ? "quiz" : "review") + " for " + std::to_string(order.size()) + " " + (c.pattern() ? "Pattern" : "Meaning") + " groups\n"};
    const auto i{s.find(begin)};
    if (i == Str::npos) return bad("no '" + begin + "' in '" + s + "'"), false;
    s.erase(0, i + begin.size());
    if (c.type > MT::Jouyou) {
      if (!s.starts_with(">>>")) return bad("no legend"), false;
      s.erase(0, s.find('\n') + 1);
    }
    return true;
  }

  /// the lines of the group
  bool display(Str& s) {
    const auto cut{[&](const Str& x) {
      if (!s.starts_with(x)) return false;
      s.erase(0, x.size());
      return true;
    }};
    if (!now) {
      if (c.order != 2)
        now = order[q];
      else
        for (size_t i{}; i < rest.size() && !now; ++i)
          if (s.starts_with(header(*rest[i]))) {
            now = rest[i];
            rest.erase(rest.begin() + static_cast<long>(i));
          }
      if (!now) return bad("none of the remaining groups: '" + s + "'"), false;
      answers.clear();
      available.clear();
      questions = readings = included(*now, c.type);
      if (c.quiz)
        for (size_t i{}; i < questions.size(); ++i) available.insert(letter(i));
      if (!cut(header(*now))) return bad("got '" + s + "', expected '" + header(*now) + "'"), false;
      auto ks{questions}, rs{readings};
      for (size_t i{}; i < questions.size(); ++i) {
        // find whose name and whose reading it is
        const auto pick{[&](Members& l, const auto& text) {
          for (auto j{l.begin()}; j != l.end(); ++j) {
            for (auto& t : text(**j))
              if (cut(t)) {
                auto r{*j};
                l.erase(j);
                return r;
              }
            if (!c.quiz) break; // given order
          }
          return kt::KanjiPtr{};
        }};
        questions[i] = pick(ks, [&](auto& k) { return left(i, k); });
        if (!questions[i]) return bad("member " + std::to_string(i + 1) + " isn't one of the group: '" + s + "'"), false;
        readings[i] = pick(rs, [&](auto& k) { return Strs{rightPart(i, k)}; });
        if (!readings[i]) return bad("reading " + std::to_string(i + 1) + " isn't one of the group: '" + s + "'"), false;
      }
    } else {
      if (!cut(header(*now))) return bad("got '" + s + "', expected '" + header(*now) + "'"), false;
      for (size_t i{}; i < questions.size(); ++i) {
        bool ok{};
        for (auto& l : left(i, *questions[i])) ok = ok || cut(l);
        if (!ok || !cut(rightPart(i, *readings[i]))) {
          // members sharing reading, and meanings not shown before
          if (const auto e{s.find('\n')}; ok && e != Str::npos) {
            bool swapped{};
            for (size_t j{i + 1}; j < readings.size() && !swapped; ++j)
              if (readings[j]->reading() == readings[i]->reading() && s.starts_with(rightPart(i, *readings[j]))) {
                std::swap(readings[i], readings[j]);
                swapped = cut(rightPart(i, *readings[i]));
              }
            if (swapped) continue;
          }
          return bad("line " + std::to_string(i + 1) + ": got '" + s + "', expected '" + left(i, *questions[i])[0] + rightPart(i, *readings[i]) + "'"), false;
        }
      }
    }
    if (!cut("\n")) return bad("no empty line after the members"), false;
    return true;
  }

  Str ask() const {
    if (phase == Which) {
      Choices x;
      for (auto a : answers) x[a] = "";
      return prompt("    Answer to edit: ", x);
    }
    Choices x;
    for (auto a : available) x[a] = "";
    if (phase == New) {
      x[answers[entry]] = "";
      return prompt("    New reading for Entry: " + std::to_string(entry + 1), x, answers[entry]);
    }
    Str a;
    if (!answers.empty()) {
      a = "   ";
      for (size_t i{}; i < answers.size(); ++i) a += " " + std::to_string(i + 1) + "->" + answers[i];
      a += "\n";
      x['*'] = "edit";
      x['\''] = "refresh";
    }
    x['-'] = show ? "hide meanings" : "show meanings";
    x['.'] = q + 1 == order.size() ? "finish" : c.quiz ? "skip" : "next";
    x['/'] = "quit";
    if (!c.quiz && q) x[','] = "prev";
    return (again ? Str{} : a) + prompt(c.quiz ? "  Reading for: " + std::to_string(answers.size() + 1) : "  Select", x);
  }
  bool again{}; ///< asked again because of a bad line

  bool good(size_t n, char l) const {
    const auto i{static_cast<size_t>(l >= 'a' ? l - 'a' : l - 'A' + 26)};
    return questions[n]->reading() == readings[i]->reading() && (!show || questions[n]->meaning() == readings[i]->meaning());
  }

  Str choose(char a) const {
    if (a == 'E') return "";
    if (a == 'R' || a == 'W') {
      if (phase == Which) {
        auto s{answers};
        std::sort(s.begin(), s.end());
        return Str(1, a == 'R' ? s.front() : s.back());
      }
      auto l{available};
      const auto n{phase == New ? entry : answers.size()};
      if (phase == New) l.insert(answers[entry]);
      for (auto x : l)
        if (good(n, x) == (a == 'R')) return Str(1, x);
      return l.empty() ? Str{"a"} : Str(1, *l.begin());
    }
    if (a == 'U') {
      for (size_t i{}; i < questions.size(); ++i)
        if (!available.contains(letter(i)) && (phase != New || letter(i) != answers[entry])) return Str(1, letter(i));
      return Str(1, letter(questions.size()));
    }
    return Str(1, a);
  }

  void nextQuestion() {
    ++q;
    now = {};
    newDisplay = true;
    if (q == order.size()) over = true;
  }

  std::optional<Str> next(const Str& chunk) {
    vh::step();
    if (over) {
      if (at <= word.size()) bad("asks again: '" + chunk + "'");
      at = word.size() + 1;
      return std::nullopt;
    }
    auto s{chunk};
    if (c.bucket && !bucketAsked) {
      bucketAsked = true;
      const auto p{prompt("Pattern name", {{'1', "\u30a2"}, {'2', "\u30ab"}, {'3', "\u30b5"}, {'4', "\u30bf\u3001\u30ca"}, {'5', "\u30cf\u3001\u30de"}, {'6', "\u30e4\u3001\u30e9\u3001\u30ef"}, {'/', "quit"}}, '1')};
      if (s != p) return bad("got '" + s + "', expected '" + p + "'");
      if (order.empty()) over = true;
      return c.bucket == '1' && word.size() % 2 ? Str{} : Str(1, c.bucket);
    }
    if (!began && !opening(s)) return std::nullopt;
    if (!s.starts_with(pending)) return bad("got '" + s + "', expected '" + pending + "' first");
    s.erase(0, pending.size());
    pending.clear();
    if (newDisplay) {
      if (q >= order.size()) return bad("asks after the last question: " + s);
      if (!display(s)) return std::nullopt;
    }
    const auto p{ask()};
    if (s != p) return bad("prompt is '" + s + "', expected '" + p + "'");
    newDisplay = again = false;
    vh::state(c.id() + std::to_string(q) + (show ? "+" : "-") + std::to_string(right) + Str(answers.begin(), answers.end()) + std::to_string(phase) + std::to_string(mistakes.size()));
    if (at == word.size()) { // end of input
      ++at;
      if (phase == New) { // keeps the answer and asks once more before it ends
        phase = Main;
        over = true;
        pending = ask();
        return std::nullopt;
      }
      over = aborted = phase == Which;
      over = true;
      return std::nullopt;
    }
    if (at > word.size()) {
      over = true;
      return std::nullopt;
    }
    const auto line{choose(word[at++])};
    const auto ch{line.size() == 1 ? line[0] : '\0'};
    again = true;
    switch (phase) {
    case Which:
      if (const auto i{std::find(answers.begin(), answers.end(), ch)}; i != answers.end()) {
        entry = static_cast<size_t>(i - answers.begin());
        phase = New;
      }
      return line;
    case New:
      if (line.empty() || available.contains(ch) || ch == answers[entry]) {
        if (!line.empty() && ch != answers[entry]) {
          available.insert(answers[entry]);
          available.erase(ch);
          answers[entry] = ch;
        }
        phase = Main;
        again = false;
      }
      return line;
    case Main: break;
    }
    if (ch == '-' || (ch == '\'' && !answers.empty())) {
      if (ch == '-') show = !show;
      newDisplay = true;
      again = false;
    } else if (ch == '/')
      over = true;
    else if (ch == '.') {
      again = false;
      nextQuestion();
    } else if (ch == ',' && !c.quiz && q) {
      again = false;
      --q;
      now = {};
      newDisplay = true;
    } else if (ch == '*' && !answers.empty()) {
      again = false;
      entry = 0;
      phase = answers.size() == 1 ? New : Which;
    } else if (available.contains(ch)) {
      again = false;
      answers.push_back(ch);
      available.erase(ch);
      if (answers.size() == questions.size()) {
        size_t n{};
        for (size_t i{}; i < answers.size(); ++i) n += good(i, answers[i]);
        if (n == answers.size()) {
          ++right;
          pending = "  Correct! (" + std::to_string(right) + "/" + std::to_string(q + 1) + ")\n";
        } else {
          mistakes.push_back(now->name());
          pending = "  Incorrect (got " + std::to_string(n) + " right out of " + std::to_string(answers.size()) + ")\n";
        }
        vh::outcome(pending);
        nextQuestion();
      }
    }
    return line;
  }

  void finish(Str s) {
    if (c.bucket && order.empty() && bucketAsked && !opening(s)) return;
    if (!began && !order.empty()) return void(bad("nothing was asked: '" + s + "'"));
    if (!began && !opening(s)) return;
    if (!over && !order.empty()) return void(bad("ended early"));
    const auto want{pending + (c.quiz ? score(right, q, mistakes) : "")};
    if (s != want) bad("ends with '" + s + "', expected '" + want + "'");
  }
};

const char* orderArg(const Config& c) {
  static const char* a[2][3]{{"-r1", "-r-1", "-r0"}, {"-t1", "-t-1", "-t0"}};
  return a[c.quiz][c.order];
}
void run(const kt::QuizLauncher& l, const Config& c) { const kt::GroupQuiz q{l, static_cast<uint16_t>(c.start), c.show, *c.groups, c.type}; }

void play(const Config& c, const Str& word, const std::vector<unsigned>& draws = {}) {
  Str key{c.id() + " " + word};
  for (auto i : draws) key += "," + std::to_string(i);
  vhrng::reset(draws);
  vh::trace();
  vh::note(key);
  Game g{c, word, key};
  Session s{{orderArg(c)}, [&](const Str& x) { return g.next(x); }};
  try {
    run(*s.launcher, c);
    if (!g.aborted) g.finish(world().real.out.str());
  } catch (const kt::DomainError& e) {
    if (!g.aborted) g.bad(Str{"exception "} + e.what());
  } catch (const std::exception& e) {
    g.bad(Str{"exception "} + e.what());
  }
  vh::sample([&] { return key; });
}
void refused(const Config& c) {
  vh::trace();
  vh::step();
  bool first{true};
  Session s{{orderArg(c)}, [&](const Str&) -> std::optional<Str> {
    if (!first || !c.bucket) return std::nullopt;
    first = false;
    return Str(1, c.bucket);
  }};
  try {
    run(*s.launcher, c);
    vh::fail(c.id(), "not refused");
  } catch (const kt::DomainError&) {
    vh::outcome("refused");
  } catch (const std::exception& e) {
    vh::fail(c.id(), Str{"unexpected exception "} + e.what());
  }
}

struct Pools {
  Groups two, same, several, mixed, big, pattern;
  Pools() {
    const auto& d{*world().data};
    Members jouyou, level, freq, other, noReading, noMeaning;
    std::map<Str, Members> byReading;
    for (auto t : kt::AllKanjiTypes)
      if (kt::hasValue(t))
        for (auto& k : d.types()[t]) {
          if (!k->hasReading())
            noReading.push_back(k);
          else if (t == kt::KanjiTypes::Jouyou)
            jouyou.push_back(k);
          else if (k->hasLevel())
            level.push_back(k);
          else if (k->frequency())
            freq.push_back(k);
          else {
            other.push_back(k);
            if (!k->hasMeaning()) noMeaning.push_back(k);
          }
          if (k->hasReading()) byReading[k->reading()].push_back(k);
        }
    unsigned n{};
    const auto group{[&](Groups& to, const Members& m) {
      ++n;
      to.push_back(std::make_shared<kt::MeaningGroup>(static_cast<kt::Group::Number>(n), ref::enc(0x8272 + n), m));
    }};
    group(two, {jouyou[0], jouyou[1]});
    // same reading, with different meanings and (if there are any) the same
    Members diff, equal;
    for (auto& i : byReading)
      for (size_t a{}; a < i.second.size(); ++a)
        for (size_t b{a + 1}; b < i.second.size(); ++b)
          (i.second[a]->meaning() == i.second[b]->meaning() ? equal : diff) = Members{i.second[a], i.second[b]};
    group(same, {diff[0], jouyou[2], diff[1]});
    if (!equal.empty()) group(same, {equal[0], equal[1], noMeaning[0]});
    group(several, {jouyou[3], jouyou[4]});
    group(several, {jouyou[5], noMeaning[0]});
    group(several, {level[0], jouyou[6], jouyou[7]});
    group(mixed, {jouyou[8], noReading[0]});
    group(mixed, {jouyou[9], level[1], freq[0], other[0]});
    group(mixed, {level[2], freq[1]});
    group(mixed, {jouyou[10], other[1], jouyou[11], noReading[1]});
    group(mixed, {noReading[2], noReading[3]});
    group(mixed, {freq[2], level[3], other[2]});
    for (size_t k : {26U, 27U, 28U, 51U, 52U, 53U, 57U, 58U}) group(big, {jouyou.begin() + 100, jouyou.begin() + 100 + static_cast<long>(k)});
    // names of pattern groups around the boundaries
    size_t j{200};
    for (const char* s : {"\uff1a\u30a2", "\u30aa", "\u4e00\uff1a\u30ab\u30a4", "\uff1a\u30ac", "\uff1a\u30ab", "\u30b3\u3001\u30b5", "\u4e8c\uff1a\u30b5", "\uff1a\u30bd\u3001\u30bf", "\uff1a\u30bf", "\u4e09\uff1a\u30cb", "\u56db\uff1a\u30cf\u3001\u30d0", "\uff1a\u30e2", "\uff1a\u30e4", "\u30ef", "\uff1a\u30ef\u3001\u30ab"}) {
      using enum kt::Group::PatternType;
      const auto p{Str{s}.find("\uff1a")};
      pattern.push_back(std::make_shared<kt::PatternGroup>(static_cast<kt::Group::Number>(j), s, Members{jouyou[j], j % 4 ? jouyou[j + 1] : level[j], jouyou[j + 2]}, p == 0 ? Peer : p == Str::npos ? Reading : Family));
      j += 3;
    }
  }
};
const Pools& pools() {
  static const Pools p;
  return p;
}

/// words where nothing follows quit
void words(const Str& letters, const Str& first, size_t len, const Config& c, const std::vector<unsigned>& draws = {}) {
  vh::words(letters.size(), 0, len - first.size(), [&](const auto& w) {
    auto s{first};
    for (auto i : w) s += letters[i];
    if (const auto e{s.find('/')}; e != Str::npos && e + 1 < s.size()) return;
    play(c, s, draws);
  });
}

void body() {
  const bool th{vh::g().thorough};
  struct P {
    const char* name;
    Groups Pools::*groups;
  };
  // every word
  for (auto& p : {P{"two", &Pools::two}, P{"same", &Pools::same}, P{"several", &Pools::several}, P{"mixed", &Pools::mixed}})
    for (int order{}; order < 3; ++order)
      for (unsigned start{}; start < 3; ++start)
        for (int show{}; show < 2; ++show)
          for (auto a : Str{"RW-'*./EU"})
            if (vh::begin(Str{"quiz "} + p.name + " order " + std::to_string(order) + " start " + std::to_string(start) + " show " + std::to_string(show) + " first " + a)) {
              const Config c{p.name, &(pools().*p.groups), true, order, start, show > 0};
              if (start > asked(c).size()) {
                if (a == 'R') refused(c);
                continue;
              }
              if (a == 'R') play(c, "");
              words("RW-'*./EU", Str(1, a), (start || order == 2 ? 4 : 5) + th, c);
              if (a == 'R') words("RW*-", "RR", th ? 9 : 7, c);
              if (a == 'W') words("RW*.", "WR", th ? 9 : 7, c);
            }
  // reviews, and which members take part
  for (auto& p : {P{"two", &Pools::two}, P{"several", &Pools::several}, P{"mixed", &Pools::mixed}})
    for (auto type : {MT::Jouyou, MT::JLPT, MT::Frequency, MT::All})
      for (int order{}; order < 2; ++order)
        for (unsigned start{}; start < 4; ++start)
          for (int show{}; show < 2; ++show)
            if (vh::begin(Str{"review "} + p.name + " type " + std::to_string(static_cast<int>(type)) + " order " + std::to_string(order) + " start " + std::to_string(start) + " show " + std::to_string(show))) {
              Config c{p.name, &(pools().*p.groups), false, order, start, show > 0, type};
              const auto n{asked(c).size()};
              if (start > n) {
                refused(c);
                c.quiz = true;
                refused(c);
                continue;
              }
              words(".,-/aE'", "", (th ? 6 : 5), c);
              c.quiz = true;
              words("RW.-*", "", (th ? 6 : 5), c);
              for (auto o : {0, 1, 2}) {
                c.order = o;
                for (auto w : {"RRRRRRRRRRRRRRRRRRRRRR", "WWWWWWWWWWWWWWWWWWWWWW", "RWRWRWRWRWRWRWRWRWRWRW", "RR.RRRRRR.RR", "......"}) play(c, w);
              }
            }
  // every outcome of the random draws
  for (auto& p : {P{"two", &Pools::two}, P{"same", &Pools::same}, P{"several", &Pools::several}})
    for (int order{}; order < 3; order += 2)
      for (unsigned d{}; d < vhrng::Grid; ++d)
        if (vh::begin(Str{"draws "} + p.name + " order " + std::to_string(order) + " first " + std::to_string(d))) {
          const Config c{p.name, &(pools().*p.groups), true, order, 0, d % 2 > 0};
          vh::words(vhrng::Grid, 2, th ? 4 : 3, [&](const auto& w) {
            std::vector<unsigned> draws{d};
            for (auto i : w) draws.push_back(static_cast<unsigned>(i));
            for (auto s : {"RRRRRRRRRRRR", "WRRWWRRRRRR", "RW*RW-RRR*WR'R"}) play(c, s, draws);
          });
        }
  // big groups: one odd thing at each place
  for (size_t b{}; b < 8; ++b)
    for (int show{}; show < 2; ++show)
      if (vh::begin("big group " + std::to_string(b) + " show " + std::to_string(show))) {
        const Groups one{pools().big[b]};
        for (int order{}; order < 3; ++order) {
          const Config c{"big" + std::to_string(b), &one, true, order, 0, show > 0};
          const auto n{one[0]->members().size()};
          play(c, Str(n, 'R'));
          play(c, Str(n, 'W'));
          for (size_t i{}; i < n; ++i)
            for (const char* x : {"W", "U", "-", "'", "*RR", "*WW", "*RE", "*W'", ".", "/", "E", "*RRR", ""}) {
              auto w{Str(i, 'R') + x + Str(*x ? n - i : 0, 'R')};
              play(c, w);
            }
          for (unsigned d{}; d < vhrng::Grid; ++d) play(c, Str(n, 'R'), {d, d, 3, d, 7});
        }
        const Config r{"big" + std::to_string(b), &one, false, 0, 0, show > 0};
        play(r, "-a.");
      }
  // pattern groups: the part asked for
  for (auto b : Str{"123456"})
    for (auto type : {MT::Jouyou, MT::JLPT, MT::Frequency, MT::All})
      for (int quiz{}; quiz < 2; ++quiz)
        if (vh::begin(Str{"pattern part "} + b + " type " + std::to_string(static_cast<int>(type)) + " quiz " + std::to_string(quiz))) {
          for (int order{}; order < 3; ++order)
            for (unsigned start{}; start < 5; ++start)
              for (auto* groups : {&pools().pattern, &world().groups->patternGroups()}) {
                if (!quiz && order == 2) continue;
                Config c{groups == &pools().pattern ? "names" : "shipped", groups, quiz > 0, order, start, start % 2 > 0, type, b};
                const auto n{asked(c).size()};
                if (start > n) {
                  refused(c);
                  continue;
                }
                if (order == 2 && groups != &pools().pattern) continue;
                play(c, Str(n + 1, '.'));
                play(c, Str(n, '.') + "/");
                play(c, quiz ? "RRRRRWWRWR.RR" : "..,.,-..");
                play(c, quiz ? "RRRRWR-RRR/" : ".,..,-./");
                if (groups == &pools().pattern) words(quiz ? "RW.-" : ".,-/", "", 5, c);
                if (start == 4) {
                  c.start = static_cast<unsigned>(n);
                  play(c, quiz ? "." : ",,.");
                  c.start = static_cast<unsigned>(n + 1);
                  refused(c);
                }
              }
        }
  // shipped meaning groups
  for (auto type : {MT::Jouyou, MT::JLPT, MT::Frequency, MT::All})
    for (int quiz{}; quiz < 2; ++quiz)
      for (int order{}; order < 2; ++order)
        if (vh::begin("shipped meaning groups type " + std::to_string(static_cast<int>(type)) + " quiz " + std::to_string(quiz) + " order " + std::to_string(order))) {
          const Config c{"shipped", &world().groups->meaningGroups(), quiz > 0, order, 0, quiz > 0, type};
          const auto n{asked(c).size()};
          play(c, Str(n, '.'));
          play(c, quiz ? Str(4000, 'R') : Str(n, '.'));
          play(c, quiz ? Str(4000, 'W') : "..,-..");
        }
  if (vh::begin("no groups")) {
    const Groups none;
    for (int order{}; order < 3; ++order)
      for (int quiz{}; quiz < 2; ++quiz)
        try {
          vh::trace();
          Session s{{quiz ? "-t1" : "-r1"}, [](const Str&) { return std::nullopt; }};
          const kt::GroupQuiz g{*s.launcher, 0, false, none, MT::All};
          vh::fail("none", "empty list not refused");
        } catch (const kt::DomainError&) {
        }
  }
}

} // namespace

int main(int argc, char** argv) { return vh::run(argc, argv, body); }
