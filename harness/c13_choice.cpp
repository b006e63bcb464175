// C13: choice prompts against a prompt automaton
#include "vh.h"
#include <kt_kana/Choice.h>
#include <kt_utils/Exception.h>
#include <optional>
#include <poll.h>
#include <pty.h>
#include <sys/prctl.h>
#include <termios.h>

using namespace kanji_tools;

namespace {

using Map = Choice::Choices;
using Opt = std::optional<char>;

std::string esc(char c) {
  char b[8];
  snprintf(b, sizeof b, "%02x", static_cast<unsigned char>(c));
  return b;
}
bool printable(char c) { return c >= ' ' && c <= '~'; }

struct Config {
  Map choices;
  Opt def, quit;
  std::string quitDesc;
  bool useQuit{true};
  std::optional<std::pair<char, char>> range;
  std::string msg;
  [[nodiscard]] std::string id() const {
    std::string r;
    for (auto& i : choices) r += esc(i.first) + (i.second.empty() ? "" : "=" + i.second) + ",";
    if (range) r += "range:" + esc(range->first) + "-" + esc(range->second);
    if (def) r += "def:" + esc(*def);
    if (quit) r += "quit:" + esc(*quit) + "=" + quitDesc;
    return r + (useQuit ? "+" : "-") + msg;
  }
};

/// choices really offered, or nothing if the configuration must be refused
std::optional<Map> offered(const Config& c) {
  Map m{c.choices};
  if (c.range) {
    if (!printable(c.range->first) || !printable(c.range->second) || c.range->first > c.range->second) return {};
    for (int i{c.range->first}; i <= c.range->second; ++i)
      if (!m.emplace(static_cast<char>(i), "").second) return {};
  }
  if (c.quit) {
    if (m.contains(*c.quit)) return {};
    if (c.useQuit) m.emplace(*c.quit, c.quitDesc);
  }
  if (m.empty()) return {};
  for (auto& i : m)
    if (!printable(i.first)) return {};
  if (c.def && !m.contains(*c.def)) return {};
  return m;
}

std::string prompt(const Config& c, const Map& m) {
  std::string r{c.msg.empty() ? "(" : c.msg + " ("}, sep;
  for (auto i{m.begin()}; i != m.end();) {
    r += sep;
    sep = ", ";
    r += i->first;
    if (!i->second.empty()) {
      r += "=" + i->second;
      ++i;
      continue;
    }
    auto last{i->first};
    const auto first{last};
    for (++i; i != m.end() && i->second.empty() && i->first == last + 1; ++i) last = i->first;
    if (last != first) (r += '-') += last;
  }
  r += ")";
  if (c.def) r += std::string{" def '"} + *c.def + "'";
  return r + ": ";
}

struct Result {
  Opt got;
  std::string error, out, rest;
};

Result call(const Choice& ch, std::ostringstream& out, std::istringstream& in, const Config& c, int overload = 0) {
  Result r;
  try {
    if (c.range)
      r.got = overload == 1   ? ch.get(*c.range, c.msg, c.choices, c.def)
              : overload == 2 ? ch.get(*c.range, c.msg, c.choices)
              : overload == 3 ? ch.get(*c.range, c.msg)
              : overload == 4 ? ch.get(*c.range, c.msg, c.def)
                              : ch.get(*c.range, c.msg, c.useQuit, c.choices, c.def);
    else
      r.got = overload == 1 ? ch.get(c.msg, c.useQuit, c.choices) : overload == 2 ? ch.get(c.msg, c.choices, c.def) : overload == 3 ? ch.get(c.msg, c.choices) : ch.get(c.msg, c.useQuit, c.choices, c.def);
  } catch (const DomainError& e) {
    r.error = e.what();
    if (r.error.empty()) r.error = "?";
  } catch (const std::exception& e) {
    vh::fail(c.id() + ":type", std::string{"unexpected exception: "} + e.what());
    r.error = "?";
  }
  r.out = out.str();
  in.clear();
  for (std::string l; std::getline(in, l);) r.rest += l + '\n';
  return r;
}

/// `lines` may lack the final newline
void judge(const Config& c, const std::vector<std::string>& lines, const Result& r, bool rest = true) {
  std::string key{c.id() + "|"};
  for (auto& l : lines) key += vh::hex(l) + "/";
  vh::trace();
  const auto m{offered(c)};
  if (!m) {
    vh::step();
    vh::outcome(r.error.substr(0, 20));
    if (r.error.empty()) vh::fail(key, "bad choices weren't refused, got " + esc(*r.got));
    else
      vh::expect(r.out.empty(), key + ":out", "output before an error: " + r.out);
    return;
  }
  const auto p{prompt(c, *m)};
  size_t n{};
  Opt want;
  for (; n < lines.size() && !want; ++n)
    if (lines[n].empty()) {
      if (c.def) want = c.def;
    } else if (lines[n].size() == 1 && m->contains(lines[n][0]))
      want = lines[n][0];
  vh::step(n);
  if (!want) { // end of input
    vh::outcome("eof:" + r.error);
    if (r.got) vh::expect(r.got == c.def || (c.useQuit && c.quit && r.got == c.quit), key, "end of input returned " + esc(*r.got));
    return;
  }
  vh::outcome(std::string{*want});
  if (!r.got) {
    vh::fail(key, "error '" + r.error + "', expected " + esc(*want));
    return;
  }
  vh::same(esc(*r.got), esc(*want), key, "choice");
  std::string w, left;
  for (size_t i{}; i < n; ++i) w += p;
  vh::same(r.out, w, key + ":prompt", "prompt");
  for (size_t i{n}; i < lines.size(); ++i) left += lines[i] + '\n';
  if (rest) vh::same(r.rest, left, key + ":rest", "input left over");
}

std::string join(const std::vector<std::string>& l, bool nl = true) {
  std::string r;
  for (size_t i{}; i < l.size(); ++i) r += l[i] + (i + 1 < l.size() || nl ? "\n" : "");
  return r;
}

void ask(const Config& c, const std::vector<std::string>& lines, int overload = 0, bool nl = true) {
  std::ostringstream out;
  std::istringstream in{join(lines, nl)};
  std::unique_ptr<Choice> ch;
  try {
    ch = std::make_unique<Choice>(out, &in, c.quit, c.quitDesc);
  } catch (const DomainError&) {
    vh::expect(c.quit && !printable(*c.quit), c.id() + ":ctor", "quit option refused");
    return;
  }
  vh::expect(!c.quit || printable(*c.quit), c.id() + ":ctor", "non-printable quit option accepted");
  judge(c, lines, call(*ch, out, in, c, overload));
}

const std::vector<std::string> Lines{"", "a", "b", "c", "e", "q", "ab", " ", "~", "1", "A", "é", "a ", "\r", "\t", "a\r", std::string(1, '\0')};

void sets() {
  const std::string chars{"abce ~"};
  const Opt defs[]{{}, 'a', 'c', '~', 'q', 'd', ' '};
  struct Q {
    Opt c;
    std::string d;
  };
  const Q quits[]{{{}, "quit"}, {'q', "quit"}, {'d', ""}, {'c', "x"}};
  vh::words(3, chars.size(), chars.size(), [&](auto& w) {
    Config c;
    for (size_t i{}; i < chars.size(); ++i)
      if (w[i]) c.choices[chars[i]] = w[i] == 1 ? "" : "xy";
    if (!vh::begin("choices " + c.id())) return;
    for (auto& q : quits)
      for (auto& d : defs)
        for (bool use : {true, false}) {
          c.quit = q.c;
          c.quitDesc = q.d;
          c.def = d;
          c.useQuit = use;
          c.msg = d == 'c' ? "" : "Pick";
          vh::state(c.id());
          for (auto& l : Lines) {
            ask(c, {l});
            for (auto& k : {std::string{"c"}, std::string{}, std::string{"a"}, std::string{"q"}}) ask(c, {l, k});
          }
          ask(c, {});
          ask(c, {"xx"}, 0, false);
          ask(c, {"a"}, 0, false);
          ask(c, {"zz", "d", "yy", "e", "a"});
          if (!d) ask(c, {"x", "a"}, 1);
          if (use) ask(c, {"x", "a"}, 2);
          if (use && !d) ask(c, {"x", "c"}, 3);
        }
    vh::sample([&] { return "choices " + c.id(); });
  });
}

void ranges() {
  const std::string ends{" !09:azA~}\x1f\x7f\x80\x01\n", 15};
  for (auto a : ends)
    for (auto b : ends) {
      Config c;
      c.range = {a, b};
      if (!vh::begin("range " + c.id())) continue;
      for (auto& m : {Map{}, Map{{'b', "b"}}, Map{{'5', ""}, {'~', "t"}}, Map{{'\t', "tab"}}, Map{{'{', ""}}})
        for (Opt q : {Opt{}, Opt{'q'}, Opt{'/'}})
          for (Opt d : {Opt{}, Opt{'a'}, Opt{'1'}, Opt{'q'}, Opt{'{'}})
            for (bool use : {true, false}) {
              c.choices = m;
              c.quit = q;
              c.quitDesc = "quit";
              c.def = d;
              c.useQuit = use;
              c.msg = "R";
              for (auto& l : Lines) ask(c, {l, "a", "5"});
              for (auto l : ends)
                if (l != '\n') ask(c, {std::string{l}, "z"}, use ? 1 : 0);
              if (use && !d) ask(c, {"x", "a", "5", "!"}, 2);
              if (use && !d && m.empty()) ask(c, {"x", "a", "5", "!"}, 3);
              if (use && m.empty()) ask(c, {"", "a", "5", "!"}, 4);
            }
    }
}

void singles() { // every char as choice, default, quit option and reply
  for (int i{-128}; i < 128; ++i) {
    const auto x{static_cast<char>(i)};
    if (!vh::begin("char " + esc(x))) continue;
    for (auto& desc : {"", "d"}) {
      Config c{{{x, desc}}, {}, {}, "quit", true, {}, "S"};
      for (int j{-128}; j < 128; ++j)
        if (j != '\n') ask(c, {std::string(1, static_cast<char>(j)), std::string(1, x)});
      c.def = x;
      ask(c, {"zz", ""});
      c = {{{'b', desc}, {'c', ""}}, {}, x, desc, true, {}, "S"};
      ask(c, {std::string(1, x), "b"});
      c.useQuit = false;
      ask(c, {std::string(1, x), "b"});
      c = {{{'b', desc}, {'c', ""}}, x, {}, "quit", true, {}, "S"};
      ask(c, {"", "b"});
    }
    Config r{{}, {}, {}, "quit", true, std::pair{'+', 'p'}, ""};
    if (x != '\n') ask(r, {std::string(1, x), "a"});
  }
}

/// quit option changes between prompts
void histories() {
  const size_t depth{vh::g().thorough ? 5U : 4U};
  const char* names[]{"q", "/done", "bad", "clear", "get", "getNoQuit", "getRange", "b"};
  vh::words(8, 1, depth, [&](auto& w) {
    std::string desc;
    for (auto i : w) (desc += names[i]) += ' ';
    if (!vh::begin("history " + desc)) return;
    for (auto& lines : {std::vector<std::string>{"q", "b"}, std::vector<std::string>{"/", "1", "b"}, std::vector<std::string>{"", "c", "3", "q", "b"}}) {
      std::ostringstream out;
      std::istringstream in;
      Choice ch{out, &in};
      Config c{{}, {}, {}, Choice::DefaultQuitDescription, true, {}, "H"};
      for (auto i : w) {
        vh::step();
        const auto set{[&](char q, const std::string& d) {
          try {
            d.empty() ? ch.setQuit(q) : ch.setQuit(q, d);
            vh::expect(printable(q), desc + ":set", "non-printable quit option accepted");
            c.quit = q;
            c.quitDesc = d.empty() ? Choice::DefaultQuitDescription : d;
          } catch (const DomainError&) { vh::expect(!printable(q), desc + ":set", "quit option refused"); }
        }};
        if (i == 0) set('q', "");
        else if (i == 1)
          set('/', "done");
        else if (i == 2)
          set('\x1f', "never");
        else if (i == 3)
          ch.clearQuit(), c.quit.reset();
        else if (i == 7)
          set('b', "bye");
        else {
          c.useQuit = i != 5;
          c.choices = {{'b', "bee"}, {'c', ""}};
          c.range.reset();
          if (i == 6) c.range = {'1', '3'};
          out.str("");
          in.clear();
          in.str(join(lines));
          judge(c, lines, call(ch, out, in, c), true);
        }
        vh::expect(ch.quit() == c.quit, desc + ":quit", "quit() after " + desc);
        if (c.quit) vh::same(ch.quitDescription(), c.quitDesc, desc + ":desc", "quitDescription()");
        for (auto x : {'q', '/', 'b', '\x1f', '\0'}) vh::same(ch.isQuit(x), c.quit == x, desc + ":is", "isQuit");
      }
      vh::state(c.id());
    }
  });
}

/// output that's only seen once it is flushed
class FdBuf : public std::streambuf {
public:
  explicit FdBuf(int fd) : _fd{fd} {}

private:
  int overflow(int c) override {
    if (c != EOF) _s += static_cast<char>(c);
    return c;
  }
  int sync() override {
    if (!_s.empty() && write(_fd, _s.data(), _s.size()) < 0) return -1;
    _s.clear();
    return 0;
  }
  int _fd;
  std::string _s;
};

/// the real standard input of a child: a terminal (keys are typed one by one
/// after each prompt) or a pipe having all of them at once
struct Session {
  Config c;
  std::string keys;
  bool terminal, hangup;
};

void child(const Session& s, int out) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  signal(SIGHUP, SIG_IGN);
  alarm(0);
  FILE* const err{freopen("/dev/null", "w", stderr)};
  FdBuf b{out};
  std::ostream os{&b};
  std::string r{err ? "\1E" : "\1E?"};
  try {
    const Choice ch{os, nullptr, s.c.quit, s.c.quitDesc};
    const char x{s.c.range ? ch.get(*s.c.range, s.c.msg, s.c.useQuit, s.c.choices, s.c.def) : ch.get(s.c.msg, s.c.useQuit, s.c.choices, s.c.def)};
    r = std::string{"\1R"} + esc(x);
  } catch (const DomainError& e) { r += e.what(); } catch (const std::exception& e) {
    r = "\1X" + std::string{e.what()};
  }
  os << r << '\n' << std::flush;
  pause(); // until killed (the terminal's settings are looked at first)
}

size_t unanswered{}; // each of them takes seconds, so stop after a few

void session(const Session& s) {
  if (unanswered > 2) return;
  const auto key{s.c.id() + (s.terminal ? "|terminal " : "|pipe ") + vh::hex(s.keys) + (s.hangup ? " end" : "")};
  vh::trace();
  int out[2], in[2]{-1, -1}, master{-1};
  if (pipe(out)) exit(3);
  pid_t pid{};
  if (s.terminal) {
    pid = forkpty(&master, nullptr, nullptr, nullptr);
  } else {
    if (pipe(in)) exit(3);
    pid = fork();
    if (!pid) {
      dup2(in[0], 0);
      close(in[1]);
    }
  }
  if (pid < 0) exit(3);
  if (!pid) {
    close(out[0]);
    child(s, out[1]);
    _exit(0);
  }
  close(out[1]);
  if (!s.terminal) {
    close(in[0]);
    vh::expect(write(in[1], s.keys.data(), s.keys.size()) == static_cast<ssize_t>(s.keys.size()), key, "write");
    close(in[1]);
  }
  const auto m{offered(s.c)};
  const auto p{prompt(s.c, *m)};
  std::string got;
  size_t typed{}, prompts{};
  auto hung{false};
  const auto count{[&] {
    size_t n{};
    for (size_t i{}; (i = got.find(p, i)) != std::string::npos; i += p.size()) ++n;
    return n;
  }};
  const auto ended{[&] { return got.find('\1') != std::string::npos && got.ends_with('\n'); }};
  while (!ended()) {
    pollfd f{out[0], POLLIN, 0};
    if (poll(&f, 1, 10000) != 1) break; // no answer
    char b[512];
    const auto n{read(out[0], b, sizeof b)};
    if (n <= 0) break;
    got.append(b, static_cast<size_t>(n));
    if (s.terminal && !ended() && count() > prompts) {
      vh::step();
      ++prompts;
      if (typed == s.keys.size()) {
        if (hung || !s.hangup) break;
        hung = true;
        close(master);
        continue;
      }
      // wait until single keys can be read (they'd be echoed and kept otherwise)
      for (int i{}; i < 100000; ++i) {
        termios t{};
        if (tcgetattr(master, &t) || !(t.c_lflag & ICANON)) break;
        usleep(50);
      }
      vh::expect(write(master, &s.keys[typed++], 1) == 1, key, "write");
    }
  }
  const auto end{got.find('\1')};
  const auto shown{got.substr(0, end)}, result{end == std::string::npos ? "" : got.substr(end + 1)};
  if (s.terminal && !hung) {
    termios t{};
    tcgetattr(master, &t);
    vh::expect((t.c_lflag & (ICANON | ECHO)) == (ICANON | ECHO) || end == std::string::npos, key + ":settings", "the terminal's settings aren't restored");
    close(master);
  }
  kill(pid, SIGKILL);
  waitpid(pid, nullptr, 0);
  close(out[0]);
  // expected
  Opt want;
  size_t n{};
  for (; n < s.keys.size() && !want; ++n) {
    const char k{s.keys[n] == '\r' && s.terminal ? '\n' : s.keys[n]};
    if (k == '\n') {
      if (s.c.def) want = s.c.def;
    } else if (m->contains(k))
      want = k;
  }
  std::string w, plain;
  for (size_t i{}; i < n + (want ? 0 : 1); ++i) w += p;
  for (auto c : shown)
    if (c != '\n') plain += c;
  vh::outcome(result);
  if (end == std::string::npos) {
    vh::fail(key, "no answer to the typed keys, output was " + shown);
    ++unanswered;
    return;
  }
  vh::same(plain, w, key + ":prompts", "prompts");
  if (want) vh::same(result, "R" + esc(*want) + "\n", key, "choice");
  else
    vh::expect(result.starts_with("E") || (s.c.def && result == "R" + esc(*s.c.def) + "\n") || (s.c.useQuit && s.c.quit && result == "R" + esc(*s.c.quit) + "\n"), key, "at the end of input: " + result);
}

void terminals() {
  const std::string keys{"abq1 \n\r\4\xc3\0~", 11};
  const Config configs[]{{{{'a', ""}, {'b', "bee"}}, {}, {}, "quit", true, {}, "T"}, {{{'a', ""}, {'b', "bee"}}, 'b', 'q', "quit", true, {}, "T"}, {{{'a', ""}, {'~', ""}}, {}, 'q', "quit", false, {}, ""},
      {{}, {}, 'q', "quit", true, std::pair{'1', '3'}, "T"}, {{{'a', "x"}}, '1', {}, "quit", true, std::pair{'1', '3'}, "T"}};
  const size_t depth{vh::g().thorough ? 4U : 3U};
  for (auto& c : configs) {
    const auto m{offered(c)};
    const auto accepts{[&](char k) { return k == '\n' || k == '\r' ? c.def.has_value() : m->contains(k); }};
    vh::words(keys.size(), 0, depth, [&](auto& w) {
      std::string s;
      for (auto i : w) s += keys[i];
      for (size_t i{}; i + 1 < s.size(); ++i)
        if (accepts(s[i])) return;
      const auto last{!s.empty() && accepts(s.back())};
      if (!last && s.size() == depth) return;
      if (!vh::begin("terminal " + c.id() + " keys " + vh::hex(s))) return;
      vh::state(c.id() + "|" + s);
      session({c, s, true, !last});
      if (s.find('\r') == std::string::npos) session({c, s, false, !last});
    });
  }
}

void body() {
  terminals();
  sets();
  ranges();
  singles();
  histories();
}

} // namespace

int main(int c, char** v) { return vh::run(c, v, body); }
