// C25: quiz start-up options and menus against an option automaton
#include "quiz.h"
#include <fcntl.h>

namespace {

using KL = kt::KanjiData::List;

const ref::Kanji& model() {
  static const ref::Kanji m{vh::g().data};
  return m;
}

/// what is started
struct Plan {
  char type{}; ///< f g k l m p
  char list{};
  bool quiz{}, show{}, kanjiStyle{};
  int order{}; ///< 0 from beginning, 1 from end, 2 random
  unsigned start{}, count{1};
  Str id() const { return Str{type, list} + (quiz ? "quiz" : "review") + (show ? "+" : "-") + (kanjiStyle ? "r" : "k") + std::to_string(order) + "," + std::to_string(start) + "," + std::to_string(count); }
};

/// everything that can be observed of a run
struct Result {
  Str out;
  size_t read{};        ///< lines consumed
  Str thrown;           ///< "", "refused" or "other: ..."
  bool operator==(const Result&) const = default;
};

template <typename L, typename M> const KL& pick(const L& all, const M& map, const char* name) {
  for (const auto i : all)
    if (kt::toString(i) == Str{name}) return map[i];
  throw std::runtime_error{Str{"no list "} + name};
}
const KL& kanjiList(const Plan& p) {
  auto& d{*world().data};
  switch (p.type) {
  case 'f': return d.frequencyList(static_cast<size_t>(p.list - '0'));
  case 'g': return pick(kt::AllKanjiGrades, d.grades(), p.list == 's' ? "S" : ("G" + Str{p.list}).c_str());
  case 'l': return pick(kt::AllJlptLevels, d.levels(), ("N" + Str{p.list}).c_str());
  default:
    return pick(kt::AllKenteiKyus, d.kyus(), p.list == 'a' ? "K10" : p.list == 'b' ? "KJ1" : p.list == 'c' ? "KJ2" : ("K" + Str{p.list}).c_str());
  }
}

/// lines given to the program; what follows a played word is end of input
struct Feed {
  const Strs& lines;
  size_t from, used{};
  Str out;
  std::optional<Str> operator()(const Str& chunk) {
    out += chunk;
    vh::step();
    if (from + used >= lines.size()) return std::nullopt;
    return lines[from + used++];
  }
};

/// the quiz itself, started directly (what it does is C23's and C24's)
const Result& direct(const Plan& p, const Strs& lines, size_t from) {
  static std::unordered_map<Str, Result> cache;
  if (cache.size() > 20000) cache.clear();
  Str key{p.id()};
  for (auto i{from}; i < lines.size(); ++i) key += "\n" + lines[i];
  const auto [i, fresh]{cache.try_emplace(key)};
  if (!fresh) return i->second;
  auto& r{i->second};
  static const char* const mode[2][3]{{"-r1", "-r-1", "-r0"}, {"-t1", "-t-1", "-t0"}};
  vhrng::reset();
  Feed f{lines, from};
  Session s{{mode[p.quiz][p.order]}, std::ref(f)};
  const auto q{static_cast<uint16_t>(p.start)};
  try {
    if (p.type == 'm' || p.type == 'p')
      const kt::GroupQuiz x{*s.launcher, q, p.show, p.type == 'm' ? world().groups->meaningGroups() : world().groups->patternGroups(), static_cast<kt::GroupQuiz::MemberType>(p.list - '1')};
    else {
      using enum kt::Kanji::Info;
      const kt::ListQuiz x{*s.launcher, q, p.show, kanjiList(p), All ^ (p.type == 'f' ? Freq : p.type == 'g' ? Grade : p.type == 'k' ? Kyu : Level), static_cast<kt::ListQuiz::ChoiceCount>(p.count), p.kanjiStyle ? kt::ListQuiz::QuizStyle::ReadingToKanji : kt::ListQuiz::QuizStyle::KanjiToReading};
    }
  } catch (const kt::DomainError&) {
    r.thrown = "refused";
  } catch (const std::exception& e) {
    r.thrown = Str{"other: "} + e.what();
  }
  r.out = f.out + world().real.out.str();
  r.read = f.used;
  return r;
}

struct Quit {};
struct Refuse {};
struct Open {};

/// prompts before the quiz
struct Menus {
  const Strs& lines;
  Result r;
  char ask(const Str& msg, const Choices& c, char def = 0) {
    auto x{c};
    x['/'] = "quit";
    for (;;) {
      r.out += prompt(msg, x, def);
      if (r.read == lines.size()) {
        if (def) return def;
        throw Quit{};
      }
      const auto& l{lines[r.read++]};
      if (l.empty() && def) return def;
      if (l.size() == 1 && x.contains(l[0])) {
        if (l[0] == '/') throw Quit{};
        return l[0];
      }
    }
  }
};
void range(Choices& c, char a, char b) {
  for (; a <= b; ++a) c[a];
}
Choices lists(char type) {
  Choices c;
  switch (type) {
  case 'f':
    range(c, '1', '9');
    c['0'] = "top 250 Kanji";
    break;
  case 'g':
    range(c, '1', '6');
    c['s'] = "Secondary School";
    break;
  case 'k':
    range(c, '1', '9');
    c['a'] = "10";
    c['b'] = "\u6e96\uff11\u7d1a";
    c['c'] = "\u6e96\uff12\u7d1a";
    break;
  case 'l':
    for (char i{'1'}; i < '6'; ++i) c[i] = Str{"N"} + i;
    break;
  default: c = {{'1', "J\u014dy\u014d"}, {'2', "1+JLPT"}, {'3', "2+Freq."}, {'4', "all"}};
  }
  return c;
}

/// mode: 0 not given, 'r' or 't'; order -1 not given
struct Opts {
  char mode{}, type{}, list{};
  int order{-1};
  unsigned start{};
  bool show{};
};

Result menus(const Opts& o, const Strs& lines) {
  Menus m{lines, {}};
  try {
    Plan p;
    p.show = o.show;
    p.start = o.start;
    p.quiz = (o.mode ? o.mode : m.ask("Mode", {{'r', "review"}, {'t', "test"}}, 't')) == 't';
    p.order = o.order;
    if (p.order < 0) {
      const auto c{m.ask("List order", {{'b', "from beginning"}, {'e', "from end"}, {'r', "random"}}, 'r')};
      p.order = c == 'b' ? 0 : c == 'e' ? 1 : 2;
    }
    p.type = o.type ? o.type : m.ask("Type", {{'f', "freq"}, {'g', "grade"}, {'k', "kyu"}, {'l', "JLPT"}, {'m', "meaning"}, {'p', "pattern"}}, 'g');
    p.list = o.list;
    if (!p.list) switch (p.type) {
      case 'f': p.list = m.ask("Choose frequency list", lists('f')); break;
      case 'g': p.list = m.ask("Choose grade", lists('g'), '6'); break;
      case 'k': p.list = m.ask("Choose kyu", lists('k'), '2'); break;
      case 'l': p.list = m.ask("Choose level", lists('l')); break;
      default: p.list = m.ask("Kanji type", lists('m'), '2');
      }
    if (p.quiz && p.type != 'm' && p.type != 'p') {
      Choices c;
      range(c, '2', '9');
      p.count = static_cast<unsigned>(m.ask("Number of choices", c, '4') - '0');
      p.kanjiStyle = m.ask("Quiz style", {{'k', "kanji to reading"}, {'r', "reading to kanji"}}, 'k') == 'r';
    }
    vh::state(p.id());
    const auto& d{direct(p, lines, m.r.read)};
    m.r.out += d.out;
    m.r.read += d.read;
    m.r.thrown = d.thrown;
  } catch (const Quit&) {
  }
  return m.r;
}

bool digits(const Str& s) { return !s.empty() && std::all_of(s.begin(), s.end(), [](unsigned char c) { return c >= '0' && c <= '9'; }); }
/// value of digits, or more than 65535 if it's too big
unsigned value(const Str& s) {
  unsigned r{};
  for (auto c : s)
    if (r <= 65535) r = r * 10 + static_cast<unsigned>(c - '0');
  return r;
}

// details of a Kanji (which are C32's): from the program asked with its UTF-8
const Str& details(const Str& name) {
  static std::unordered_map<Str, Str> cache;
  auto& r{cache[name]};
  if (r.empty()) {
    Session s{{name}, [](const Str&) { return std::nullopt; }};
    r = world().real.out.str();
    world().real.out.str("");
  }
  return r;
}
Str noLegend(const Str& name) {
  const auto& s{details(name)};
  return s.substr(s.find("\n\n") + 2);
}
Str legend() {
  return printed([](const auto& l) { l.printLegend(); });
}

std::optional<ref::Moro> moro(Str s) {
  ref::Moro r{};
  const auto ends{[&](const char* x) {
    const auto n{strlen(x)};
    if (s.size() < n || s.substr(s.size() - n) != x) return false;
    s.resize(s.size() - n);
    return true;
  }};
  if (s.empty()) return r;
  if (ends("PP") || ends("''"))
    r.second = 2;
  else if (ends("P") || ends("'"))
    r.second = 1;
  else if (s[0] == 'H')
    r.second = 3, s.erase(0, 1);
  if (!digits(s)) return {};
  r.first = value(s);
  if (r.first > 65535 || (r.second && !r.first)) return {};
  return r;
}
Str found(const Strs& l, const Str& what, const Str& id) {
  if (l.size() == 1) return details(l[0]);
  Str r;
  if (l.size() > 1) r += legend() + "\n";
  r += "Found " + std::to_string(l.size()) + " matches for " + what + " ID " + id + (l.empty() ? "\n" : ":\n\n");
  for (auto& i : l) r += noLegend(i);
  return r;
}
/// output for a Kanji argument
Str kanjiArg(const Str& a) {
  auto& m{model()};
  if (digits(a)) {
    const auto n{value(a)};
    if (!n || n > m.freq.size()) throw Refuse{};
    return details(m.freq[n - 1]);
  }
  if (a.empty()) throw Refuse{};
  const auto rest{a.substr(1)};
  if (a[0] == 'm') {
    const auto id{moro(rest)};
    if (!id) throw Refuse{};
    const auto i{m.byMoro.find(*id)};
    return found(!id->first || i == m.byMoro.end() ? Strs{} : i->second, "Morohashi", ref::moroText(*id));
  }
  if (a[0] == 'n') {
    if (!digits(rest) || value(rest) > 65535) throw Refuse{};
    const auto i{m.byNelson.find(value(rest))};
    return found(i == m.byNelson.end() ? Strs{} : i->second, "Nelson", rest);
  }
  if (a[0] == 'u') {
    if (rest.size() < 4 || rest.size() > 5 || (rest.size() == 5 && rest[0] != '1' && rest[0] != '2')) throw Refuse{};
    uint32_t c{};
    for (unsigned char x : rest) {
      if (!isxdigit(x)) throw Refuse{};
      c = c * 16 + static_cast<uint32_t>(x <= '9' ? x - '0' : (x | 32) - 'a' + 10);
    }
    if (!model().find(ref::enc(c))) throw Open{}; // (see C32)
    return details(ref::enc(c));
  }
  // Kanji (with or without a variation selector)
  const auto c{ref::dec(a)};
  if (ref::enc(c[0]) + (c.size() == 2 && ref::isVs(c[1]) ? ref::enc(c[1]) : "") != a || !m.find(a)) throw Refuse{};
  return details(a);
}

struct Verdict {
  enum { Error, Help, Shown, Start } kind{Error};
  Opts o;
  Str text;
  bool open{}; ///< number whose meaning isn't documented
};
Verdict parse(const Strs& args) {
  Verdict v;
  bool end{};
  for (auto& a : args) {
    if (end || a.size() < 2 || a[0] != '-') {
      try {
        v.text = kanjiArg(a);
        v.kind = Verdict::Shown;
      } catch (const Refuse&) {
      } catch (const Open&) {
        v.open = true;
      }
      return v;
    }
    if (a == "-h") {
      v.kind = Verdict::Help;
      return v;
    }
    if (a == "--")
      end = true;
    else if (a == "-s")
      v.o.show = true;
    else if (a[1] == 'r' || a[1] == 't') {
      if (v.o.mode) return v;
      v.o.mode = a[1];
      if (a.size() == 2) continue;
      if (a.substr(2) == "0")
        v.o.order = 2;
      else {
        const size_t sign{a[2] == '-' || a[2] == '+'};
        v.o.order = a[2] == '-';
        const auto n{a.substr(2 + sign)};
        if (!digits(n) || value(n) > 65535) return v;
        v.o.start = value(n);
        v.open = v.open || !v.o.start;
      }
    } else if (Str{"fgklmp"}.find(a[1]) != Str::npos) {
      if (v.o.type) return v;
      v.o.type = a[1];
      if (a.size() > 3 || (a.size() == 3 && !lists(a[1]).contains(a[2]))) return v;
      if (a.size() == 3) v.o.list = a[2];
    } else
      return v;
  }
  v.kind = Verdict::Start;
  return v;
}

void compare(const Str& key, const Result& got, const Result& want) {
  vh::outcome(want.thrown + std::to_string(want.out.size()));
  if (got.thrown != want.thrown) return vh::fail(key, "ends with '" + got.thrown + "', expected '" + want.thrown + "', output '" + got.out.substr(0, 600) + "'");
  if (got.out != want.out) {
    size_t i{};
    while (i < got.out.size() && i < want.out.size() && got.out[i] == want.out[i]) ++i;
    i = i > 60 ? i - 60 : 0;
    return vh::fail(key, "output ...'" + got.out.substr(i, 500) + "', expected ...'" + want.out.substr(i, 500) + "'");
  }
  if (got.read != want.read) vh::fail(key, "read " + std::to_string(got.read) + " lines, expected " + std::to_string(want.read));
}

/// arguments and lines to a real launcher; `start` is called as well if there
/// is no type
void run(const Strs& args, const Strs& lines, bool start = true) {
  vh::trace();
  Str key;
  for (auto& a : args) key += a + " ";
  key += "<";
  for (auto& l : lines) key += " " + l;
  vh::note(key);
  const auto v{parse(args)};
  if (v.open) return;
  Result want, got;
  switch (v.kind) {
  case Verdict::Error: want.thrown = "refused"; break;
  case Verdict::Help: break;
  case Verdict::Shown: want.out = v.text; break;
  case Verdict::Start:
    if (v.o.type || start) want = menus(v.o, lines);
  }
  vhrng::reset();
  Feed f{lines, 0};
  try {
    Session s{args, std::ref(f)};
    if (v.kind == Verdict::Start && !v.o.type && start) {
      vh::expect((f.out + world().real.out.str()).empty(), key, "something is printed before starting");
      // the options other than mode and order aren't kept by the launcher
      s.launcher->start(std::nullopt, std::nullopt, static_cast<uint16_t>(v.o.start), v.o.show);
    }
  } catch (const kt::DomainError& e) {
    got.thrown = *e.what() ? "refused" : "refused without a message";
  } catch (const std::exception& e) {
    got.thrown = Str{"other: "} + e.what();
  }
  got.out = f.out + world().real.out.str();
  got.read = f.used;
  if (v.kind == Verdict::Help) {
    vh::expect(got.out.find("kanjiQuiz") != Str::npos && got.thrown.empty(), key, "no help: '" + got.thrown + "' '" + got.out.substr(0, 300) + "'");
    return;
  }
  compare(key, got, want);
  vh::sample([&] { return key; });
}

/// the same, with characters read from standard input
void runStdin(const Strs& args, const Str& chars) {
  vh::trace();
  Str key;
  for (auto& a : args) key += a + " ";
  key += "< stdin " + chars;
  vh::note(key);
  const auto v{parse(args)};
  Strs lines;
  for (auto c : chars) lines.push_back(c == '\n' ? Str{} : Str{c});
  auto want{menus(v.o, lines)};
  auto& w{world()};
  w.real.out.str("");
  vhrng::reset();
  static const int in{open((vh::g().scratch + "/in").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600)}, null{open("/dev/null", O_RDWR)}, in0{dup(0)}, err0{dup(2)};
  if (ftruncate(in, 0) || pwrite(in, chars.data(), chars.size(), 0) != static_cast<ssize_t>(chars.size()) || lseek(in, 0, SEEK_SET)) return vh::fail(key, "can't write");
  dup2(in, 0);
  dup2(null, 2);
  Result got;
  try {
    std::vector<const char*> argv{""};
    for (auto& a : args) argv.push_back(a.c_str());
    const kt::QuizLauncher l{kt::Args{static_cast<int>(argv.size()), argv.data()}, w.data, w.groups, w.jukugo};
  } catch (const kt::DomainError& e) {
    got.thrown = "refused";
  } catch (const std::exception& e) {
    got.thrown = Str{"other: "} + e.what();
  }
  got.read = static_cast<size_t>(lseek(0, 0, SEEK_CUR));
  dup2(in0, 0);
  dup2(err0, 2);
  // a line end is printed after each character
  got.out = w.real.out.str();
  w.real.out.str("");
  const auto strip{[](Str s) {
    s.erase(std::remove(s.begin(), s.end(), '\n'), s.end());
    return s;
  }};
  if (strip(got.out) == strip(want.out)) got.out = want.out;
  compare(key, got, want);
}

const Strs Full{"-t", "-r", "-t0", "-r0", "-t1", "-r2", "-t-1", "-r-3", "-t+2", "-t81", "-r-5000", "-t65535", "-t65536", "-tx", "-t-", "-r+", "-h", "-s", "--", "-f", "-f0", "-f9", "-fa", "-g", "-g1", "-g6", "-gs", "-g7", "-k", "-k1", "-k3", "-ka", "-kb", "-kc", "-kd", "-l", "-l1", "-l5", "-l6", "-m", "-m1", "-m4", "-m5", "-p", "-p1", "-p4", "-p0", "-x", "-S", "-", "", "--s", "\u5949", "\u304b", "16", "99999", "n5", "nx", "m1", "u5949", "x"};
const Strs Some{"-t", "-r", "-t0", "-r2", "-t-3", "-t9999", "-tx", "-h", "-s", "--", "-f", "-f0", "-g1", "-gs", "-kc", "-l2", "-m", "-m1", "-p2", "-x", "-", "\u5949", "16", "n5"};
const std::vector<Strs> Scripts{{}, {"/"}, {"", "", "", "", "", "/"}, {"1", "1", "1", "1", "1", "/"}, {"r", "b", "f", "2", ".", "/"}, {"t", "e", "k", "3", "3", "r", "1", "/"}};

/// all complete paths through the menus
void paths(const Opts& o, const std::function<void(const Strs&)>& f) {
  Strs l;
  const auto each{[&](const char* c, const auto& g) {
    for (; *c; ++c) {
      l.emplace_back(1, *c);
      g(*c);
      l.pop_back();
    }
  }};
  const auto type{[&](char t) {
    const auto last{[&](bool quiz) {
      if (quiz && t != 'm' && t != 'p')
        each("23456789", [&](char) { each("kr", [&](char) { f(l); }); });
      else
        f(l);
    }};
    const auto list{[&](bool quiz) {
      if (o.list) return last(quiz);
      Str s;
      for (auto& i : lists(t)) s += i.first;
      each(s.c_str(), [&](char) { last(quiz); });
    }};
    list(o.mode ? o.mode == 't' : l[0] == "t");
  }};
  const auto types{[&] { o.type ? type(o.type) : each("fgklmp", type); }};
  const auto orders{[&] { o.order >= 0 ? types() : each("ber", [&](char) { types(); }); }};
  o.mode ? orders() : each("rt", [&](char) { orders(); });
}

void body() {
  const bool th{vh::g().thorough};
  // lists of arguments
  for (auto& a : Full)
    if (vh::begin("arguments " + a + " and another")) {
      if (&a == &Full[0]) {
        run({}, {}, false);
        for (auto& s : Scripts) run({}, s);
      }
      run({a}, {}, false);
      for (auto& s : Scripts) run({a}, s);
      for (auto& b : Full) {
        for (auto& s : Scripts) run({a, b}, s);
        run({a, b}, {}, false);
      }
    }
  for (auto& a : Some)
    for (auto& b : Some)
      if (vh::begin("arguments " + a + " " + b + " and more"))
        for (auto& c : Some) {
          for (auto& s : Scripts) run({a, b, c}, s);
          for (auto& d : Some) {
            for (size_t s{2}; s < (th ? Scripts.size() : 3); ++s) run({a, b, c, d}, Scripts[s]);
            if (th)
              for (auto& e : Some) run({a, b, c, d, e}, Scripts[2]);
          }
        }
  // modes, lists and meanings in every order
  for (auto mode : {"", "-t", "-r", "-t0", "-r2", "-t-2", "-t3"})
    for (auto type : Str{"fgklmp"})
      if (vh::begin(Str{"mode '"} + mode + "' with lists of " + type)) {
        Str all{"-"};
        for (auto& i : lists(type)) all += i.first;
        for (auto x : all) {
          Strs a{Str{'-', type} + (x == '-' ? Str{} : Str{x}), "-s"};
          if (*mode) a.push_back(mode);
          std::sort(a.begin(), a.end());
          do {
            for (auto& s : Scripts) run(a, s);
            if (a.size() < 3 || th) run(a, {}, false);
          } while (std::next_permutation(a.begin(), a.end()));
        }
      }
  // spellings of an option
  for (int i{1}; i < 256; ++i)
    if (vh::begin("option starting with character " + std::to_string(i))) {
      const Str a{'-', static_cast<char>(i)};
      for (auto& s : Scripts) run({a}, s);
      for (int j{1}; j < 256; ++j) {
        run({a + static_cast<char>(j)}, Scripts[2]);
        run({a + static_cast<char>(j), "-t"}, Scripts[3]);
        if (Str{"rtfgklmpsh-"}.find(static_cast<char>(i)) != Str::npos)
          for (auto k : Str{"0189+- ahs"}) run({a + static_cast<char>(j) + k}, Scripts[2]);
      }
    }
  // numbers of the mode options
  for (auto t : Str{"tr"})
    for (auto sign : {"", "-", "+", "--", "+-"}) {
      for (auto x : Str{"0159a"})
        if (vh::begin(Str{"mode -"} + t + sign + " words starting with " + x))
          vh::words(8, 0, th ? 5 : 4, [&](const auto& w) {
            auto s{Str{'-', t} + sign + x};
            for (auto i : w) s += "0159-+ a"[i];
            for (auto o : {"-g1", "-gs"}) run({s, o}, Scripts[2]);
          });
      for (auto l : {"-g1", "-f9", "-ka", "-l5", "-m1", "-m4"})
        if (vh::begin(Str{"mode -"} + t + sign + " numbers with " + l)) {
          for (unsigned n{}; n < (th ? 3000 : 300); ++n) run({Str{'-', t} + sign + std::to_string(n), l}, Scripts[2]);
          for (auto n : {"32767", "32768", "65535", "65536", "65537", "65616", "131073", "4294967295", "4294967296", "4294967297", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999999999999999", "0000000000000000000000000000000000001", "0002", "0x1", "1e0", "1.", " 1"})
            for (auto& s : {Str{'-', t} + sign + n}) {
              run({s, l}, Scripts[2]);
              run({l, s, "-s"}, Scripts[2]);
            }
        }
    }
  // menus: every path, and from each prompt on it everything else
  for (auto mode : {0, 1, 2})
    for (int order{-1}; order < 3; ++order) {
      if (!mode && order >= 0) continue;
      for (auto type : Str{"-fgklmp"})
        for (int withList{}; withList < (type == '-' ? 1 : 2); ++withList)
          if (vh::begin("menus mode " + std::to_string(mode) + " order " + std::to_string(order) + " type " + type + (withList ? " with list" : ""))) {
            const auto one{[&](char list) {
              Strs args;
              if (mode) args.push_back((mode == 1 ? "-r" : "-t") + Str{order < 0 ? "" : order == 0 ? "2" : order == 1 ? "-2" : "0"});
              if (type != '-') args.push_back(Str{'-', type} + (list ? Str{list} : Str{}));
              const auto o{parse(args).o};
              std::set<Str> seen;
              paths(o, [&](const Strs& p) {
                auto full{p};
                full.insert(full.end(), {"-", ".", "1", "/"});
                run(args, full);
                if (p.size() % 2) {
                  args.push_back("-s");
                  run(args, full);
                  args.pop_back();
                }
                // at each prompt: everything that isn't a choice, and ending
                Str pre;
                for (size_t i{}; i <= p.size(); ++i) {
                  if (seen.insert(pre).second) {
                    Strs head(p.begin(), p.begin() + static_cast<long>(i));
                    run(args, head);
                    const auto odd{[&](const Str& s) {
                      auto l{head};
                      l.push_back(s);
                      l.insert(l.end(), {"", "", "/"});
                      run(args, l);
                      l = head;
                      l.push_back(s);
                      l.insert(l.end(), p.begin() + static_cast<long>(i), p.end());
                      l.push_back("/");
                      run(args, l);
                    }};
                    for (auto s : {"", "/", "//", "rr", "b ", " b", "11"}) odd(s);
                    if (i < 4 || th)
                      for (int c{1}; c < 256; ++c)
                        if (c != '\n' && (th || (c < 128 && !withList && (i < 3 || !mode)) || (c > 47 && c < 58) || (c > 96 && c < 116))) odd(Str{static_cast<char>(c)});
                  }
                  if (i < p.size()) pre += p[i];
                }
              });
            }};
            if (withList)
              for (auto& l : lists(type)) one(l.first);
            else
              one(0);
          }
    }
  // through standard input
  for (auto& a : std::vector<Strs>{{}, {"-s"}, {"-t"}, {"-r"}, {"-t2"}, {"-r3", "-s"}, {"-t-2"}, {"-r-3"}, {"-t0", "-s"}, {"-f"}, {"-g2"}, {"-t3", "-gs"}, {"-m"}, {"-r4", "-m2"}})
    if (Str n; vh::begin([&] {
          for (auto& i : a) n += " " + i;
          return "standard input" + n;
        }())) {
      paths(parse(a).o, [&](const Strs& p) {
        Str s;
        for (auto& i : p) s += i;
        for (auto& x : {s + "/", s + "-./", s + "x1/", "x" + s + "../", s + "\n/"}) runStdin(a, x);
      });
      for (auto s : {"\n\n\n\n\n\n/", "/", "x/", "\n/", "\n\n/", "\n\n\n/", "\n\n\n\n/"}) runStdin(a, s);
    }
  // started again afterwards
  const std::vector<Strs> runs{{"t", "b", "g", "1", "2", "k", "/"}, {"r", "e", "f", "0", ".", "/"}, {"r", "r", "m", "1", "/"}, {"t", "e", "l", "5", "3", "r", "1", "/"}, {"", "", "", "", "", "", "/"}, {"r", "b", "g", "/"}, {"t", "e", "/"}, {"r", "b", "k", "a", "/"}};
  const auto again{[&](const Strs& first, size_t len) {
    vh::words(runs.size(), len, len, [&](const auto& w) {
      vh::trace();
      Strs lines;
      Str want, key;
      for (auto& a : first) key += a + " ";
      std::vector<const Strs*> seq;
      for (auto i : w) {
        lines.insert(lines.end(), runs[i].begin(), runs[i].end());
        seq.push_back(&runs[i]);
        key += std::to_string(i);
      }
      for (auto* s : seq) want += menus({}, *s).out;
      Feed f{lines, 0};
      try {
        Session s{first, std::ref(f)};
        for (size_t i{}; i < seq.size(); ++i) {
          vhrng::reset();
          s.launcher->start(std::nullopt, std::nullopt);
        }
      } catch (const std::exception& e) {
        vh::fail(key, Str{"exception "} + e.what());
      }
      compare("again " + key, {f.out + world().real.out.str(), f.used, {}}, {want, lines.size(), {}});
    });
  }};
  if (vh::begin("started again"))
    for (size_t i{1}; i < (th ? 5U : 4U); ++i) again({}, i);
  // Kanji arguments
  for (auto x : Str{"mnu0129H"})
    if (vh::begin(Str{"Kanji arguments starting with "} + x))
      vh::words(13, 0, th ? 5 : 4, [&](const auto& w) {
        Str s{x};
        for (auto i : w) s += "0149PH'aFu -x"[i];
        if (s[0] == 'u' && s.size() > 4 && s.size() < 7 && s[1] == '0') return; // (C32)
        run({s}, {});
        if (s.size() < 4) run({"--", s, "-t"}, {});
      });
  for (unsigned k{}; k < 64; ++k)
    if (vh::begin("Kanji numbers " + std::to_string(k))) {
      for (unsigned n{k}; n < 66000; n += 64) {
        const auto s{std::to_string(n)};
        if (n < 3000) {
          run({s}, {});
          run({"00" + s}, {});
        }
        for (auto& i : {"m" + s, "n" + s}) run({i}, {});
        if (n < 50000)
          for (auto& i : {"m" + s + "P", "m" + s + "PP", "mH" + s}) run({i}, {});
      }
      size_t n{};
      for (auto& i : model().names) {
        if (++n % 64 != k) continue;
        run({i.first}, {});
        const auto c{ref::dec(i.first)};
        char b[16];
        snprintf(b, sizeof b, n % 2 ? "u%X" : "u%x", c[0]);
        if (c.size() == 1) run({b}, {});
      }
    }
}

} // namespace

int main(int argc, char** argv) { return vh::run(argc, argv, body); }
