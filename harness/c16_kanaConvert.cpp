// C16: the kanaConvert program against a model of its settings
#include "vh.h"
#include <kt_kana/KanaConvert.h>
#include <kt_utils/Args.h>
#include <kt_utils/Exception.h>
#include <optional>

using namespace kanji_tools;

namespace {

using Words = std::vector<std::string>;
std::string Self; ///< directory of the binaries

struct Settings {
  std::optional<CharType> source;
  CharType target{CharType::Hiragana};
  int flags{};
  bool operator==(const Settings&) const = default;
};

std::string convert(const Settings& s, const std::string& x) {
  static Converter c;
  auto f{ConvertFlags::None};
  if (s.flags & 1) f |= ConvertFlags::Hepburn;
  if (s.flags & 2) f |= ConvertFlags::Kunrei;
  if (s.flags & 4) f |= ConvertFlags::NoProlongMark;
  if (s.flags & 8) f |= ConvertFlags::RemoveSpaces;
  return s.source ? c.convert(*s.source, x, s.target, f) : c.convert(x, s.target, f);
}
const char* name(CharType t) { return t == CharType::Hiragana ? "Hiragana" : t == CharType::Katakana ? "Katakana" : "Romaji"; }
std::string options(const Settings& s) {
  std::string f;
  const char* n[]{"Hepburn", "Kunrei", "NoProlongMark", "RemoveSpaces"};
  for (int i{}; i < 4; ++i)
    if (s.flags >> i & 1) (f += f.empty() ? "" : "|") += n[i];
  return std::string{">>> current options: source="} + (s.source ? name(*s.source) : "any") + ", target=" + name(s.target) + ", flags=" + (f.empty() ? "None" : f) +
         "\n>>> enter string (c=clear flags, f=set flag, q=quit, h=help, -k|-h|-r|-K|-H|-R):\n";
}

bool charType(Settings& s, const std::string& a) {
  if (a == "-h") s.target = CharType::Hiragana;
  else if (a == "-k") s.target = CharType::Katakana;
  else if (a == "-r") s.target = CharType::Romaji;
  else if (a == "-H") s.source = CharType::Hiragana;
  else if (a == "-K") s.source = CharType::Katakana;
  else if (a == "-R") s.source = CharType::Romaji;
  else return false;
  return true;
}
int flag(const std::string& a) { return a == "h" ? 1 : a == "k" ? 2 : a == "n" ? 4 : a == "r" ? 8 : 0; }

const std::string ShortUsage{"  -h: set conversion output to Hiragana\n  -k: set conversion output to Katakana\n  -r: set conversion output to Rōmaji\n"
                             "  -H: restrict conversion input to Hiragana\n  -K: restrict conversion input to Katakana\n  -R: restrict conversion input to Rōmaji\n"};

struct Want {
  enum Kind { Error, Usage, Chart, Markdown, Text } kind{Text};
  std::string out;
  bool openEnd{}; ///< input ends in the middle of a prompt: an error is fine too
};

/// in: lines of input; hasStream: an input stream was given (so -i is needed)
Want model(const Words& args, const std::string& input, bool hasStream, Settings* final = nullptr) {
  Settings s;
  std::string mode;
  Words strings;
  const Want error{Want::Error, "", false};
  for (size_t i{}; i < args.size(); ++i) {
    const auto& a{args[i]};
    if (a == "--") {
      strings.insert(strings.end(), args.begin() + static_cast<long>(i) + 1, args.end());
      break;
    }
    if (a == "-?") return {Want::Usage, "", false};
    if (a == "-f") {
      if (++i == args.size() || !flag(args[i])) return error;
      s.flags |= flag(args[i]);
    } else if (a == "-i" || a == "-m" || a == "-n" || a == "-p") {
      if (!mode.empty()) return error;
      mode = a;
    } else if (!a.empty() && a[0] == '-') {
      if (!charType(s, a)) return error;
    } else
      strings.push_back(a);
  }
  if (final) *final = s;
  Want r;
  if (!strings.empty()) {
    if (!mode.empty() && mode != "-n") return error;
    for (size_t i{}; i < strings.size(); ++i) {
      if (i) r.out += s.target == CharType::Romaji ? " " : s.flags & 8 ? "" : "　";
      r.out += convert(s, strings[i]);
    }
    if (mode != "-n") r.out += '\n';
    return r;
  }
  if (mode == "-m") return {Want::Markdown, "", false};
  if (mode == "-p") return {Want::Chart, "", false};
  if (hasStream && mode != "-i") return error;
  std::istringstream in{input};
  if (mode != "-i") {
    for (std::string l; std::getline(in, l);) r.out += convert(s, l) + (mode == "-n" ? "" : "\n");
    return r;
  }
  r.out = options(s);
  for (std::string l; std::getline(in, l) && l != "q";) {
    if (l.empty()) continue;
    if (l == "c")
      s.flags = 0;
    else if (l == "f") {
      for (;;) {
        r.out += ">>> enter flag option (h=Hepburn, k=Kunrei, n=NoProlongMark, r=RemoveSpaces): ";
        if (!std::getline(in, l)) {
          r.openEnd = true;
          return r;
        }
        if (flag(l)) break;
      }
      s.flags |= flag(l);
    } else if (l == "h")
      r.out += ShortUsage;
    else if (l[0] == '-') {
      if (!charType(s, l)) r.out += "  illegal option: " + l + "\n";
    } else {
      r.out += convert(s, l) + "\n";
      continue;
    }
    r.out += options(s);
    vh::state(options(s));
  }
  if (final) *final = s;
  return r;
}

struct Got {
  std::string out, error;
};
Got run(const Words& args, const std::string& input, bool hasStream) {
  std::vector<const char*> argv{"kanaConvert"};
  for (auto& a : args) argv.push_back(a.c_str());
  std::ostringstream out;
  std::istringstream in{input};
  auto* const buf{hasStream ? nullptr : std::cin.rdbuf(in.rdbuf())};
  std::cin.clear();
  Got g;
  try {
    KanaConvert{Args{static_cast<int>(argv.size()), argv.data()}, out, hasStream ? &in : nullptr};
  } catch (const DomainError& e) {
    g.error = e.what();
    if (g.error.empty()) g.error = "?";
  }
  if (buf) std::cin.rdbuf(buf);
  g.out = out.str();
  return g;
}

const std::string& fixed(Want::Kind k) {
  static std::map<Want::Kind, std::string> m;
  auto& s{m[k]};
  if (s.empty()) s = run({k == Want::Usage ? "-?" : k == Want::Chart ? "-p" : "-m"}, "", true).out;
  return s;
}

std::string id(const Words& args) {
  std::string r;
  for (auto& a : args) r += "'" + a + "' ";
  return r;
}

void judge(const std::string& key, const Want& w, const Got& g) {
  vh::trace();
  vh::outcome(std::to_string(w.kind) + g.error + std::to_string(g.out.size()));
  if (w.kind == Want::Error) {
    vh::expect(!g.error.empty(), key, "bad options weren't refused");
    vh::expect(g.out.empty(), key + ":out", "output with an error: " + g.out);
    return;
  }
  if (!w.openEnd && !g.error.empty()) {
    vh::fail(key, "refused: " + g.error);
    return;
  }
  const auto& out{w.kind == Want::Text ? w.out : fixed(w.kind)};
  if (w.openEnd ? !g.out.starts_with(out) : g.out != out) vh::fail(key, "got\n" + g.out + "\nexpected\n" + out);
}

void check(const Words& args, const std::string& input, bool hasStream) {
  vh::step(args.size());
  judge(id(args) + (hasStream ? "<" : "|") + input, model(args, input, hasStream), run(args, input, hasStream));
}

// ---- the program itself
Got exec(const Words& args, const std::string& input, int& rc) {
  const auto f{vh::g().scratch + "/io"};
  std::ofstream{f + ".in", std::ios::binary} << input;
  const auto pid{fork()};
  if (!pid) {
    for (auto [n, e, m] : {std::tuple{0, ".in", O_RDONLY}, {1, ".out", O_WRONLY | O_CREAT | O_TRUNC}, {2, ".err", O_WRONLY | O_CREAT | O_TRUNC}}) dup2(open((f + e).c_str(), m, 0644), n);
    std::vector<char*> argv{const_cast<char*>("kanaConvert")};
    for (auto& a : args) argv.push_back(const_cast<char*>(a.c_str()));
    argv.push_back(nullptr);
    execv((Self + "/app").c_str(), argv.data());
    _exit(127);
  }
  int st{};
  waitpid(pid, &st, 0);
  rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128;
  const auto slurp{[&](const char* e) {
    std::ostringstream o;
    o << std::ifstream{f + e, std::ios::binary}.rdbuf();
    return o.str();
  }};
  return {slurp(".out"), slurp(".err")};
}
void program(const Words& args, const std::string& input) {
  int rc{};
  const auto w{model(args, input, false)};
  auto g{exec(args, input, rc)};
  const auto key{"app:" + id(args) + input};
  vh::step();
  vh::expect(rc == 0 || rc == 1, key + ":rc", "exit status " + std::to_string(rc));
  vh::expect((rc == 0) == g.error.empty(), key + ":err", "exit status " + std::to_string(rc) + " with '" + g.error + "' on stderr");
  judge(key, w, g);
}

void body() {
  const bool deep{vh::g().thorough};
  fixed(Want::Usage), fixed(Want::Chart), fixed(Want::Markdown);
  if (vh::begin("fixed texts")) {
    vh::trace();
    for (auto k : {Want::Usage, Want::Chart, Want::Markdown}) vh::expect(fixed(k).size() > 1000, "fixed" + std::to_string(k), "usage/chart isn't printed");
    vh::expect(fixed(Want::Usage).find("usage: kanaConvert") == 0, "usage", "usage text");
  }
  // every argument list
  const Words voc{"-i", "-m", "-n", "-p", "-?", "-h", "-k", "-r", "-H", "-K", "-R", "-f", "h", "k", "n", "r", "-x", "--", "ka", "カ　-", "かー", "", "-hk", "-", "--h"};
  const std::string input{"ka\nc\n\nq\nカー ī\n"};
  for (size_t a{}; a < voc.size(); ++a)
    for (size_t b{}; b < voc.size(); ++b)
      if (vh::begin("arguments " + id({voc[a], voc[b]}))) {
        if (!a && !b)
          for (bool s : {true, false}) check({}, input, s);
        if (!b)
          for (bool s : {true, false}) check({voc[a]}, input, s);
        vh::words(voc.size(), 0, deep ? 3 : 2, [&](auto& w) {
          Words args{voc[a], voc[b]};
          for (auto i : w) args.push_back(voc[i]);
          if (w.size() > 1 && voc[a] == "-?") return;
          check(args, input, true);
          if (w.size() < 2) check(args, input, false);
        });
        vh::sample([&] { return id({voc[a], voc[b]}); });
      }
  // settings together with one to three strings
  const Words some{"ka", "カ　-", "q", "-", "あ い"};
  for (auto t : {"", "-h", "-k", "-r"})
    for (auto src : {"", "-H", "-K", "-R"})
      for (int fl{}; fl < 16; ++fl)
        if (vh::begin(String{"settings "} + t + src + std::to_string(fl)))
          for (auto n : {"", "-n"})
            for (int order{}; order < 3; ++order) {
              Words opt;
              const auto add{[&](const std::string& x) {
                if (!x.empty()) opt.push_back(x);
              }};
              const auto addFlags{[&] {
                for (int i{}; i < 4; ++i)
                  if (fl >> i & 1) add("-f"), add(std::string(1, "hknr"[i]));
              }};
              if (order == 0) addFlags();
              add(n), add(src), add(t);
              if (order) addFlags();
              vh::words(some.size(), 1, 3, [&](auto& w) {
                auto args{order == 2 ? Words{} : opt};
                bool dash{};
                for (auto i : w) dash = dash || some[i] == "-";
                if (order == 2) {
                  if (dash) return;
                  args.push_back(some[w[0]]);
                  args.insert(args.end(), opt.begin(), opt.end());
                  for (size_t i{1}; i < w.size(); ++i) args.push_back(some[w[i]]);
                } else {
                  if (dash) args.push_back("--");
                  for (auto i : w) args.push_back(some[i]);
                }
                check(args, "", true);
              });
            }
  // flag values of every length
  for (char a{'!'}; a < 0x7f; ++a)
    if (vh::begin(String{"flag value "} + a))
      for (auto& pre : {Words{}, Words{"-r"}, Words{"-f", "n"}}) {
        for (auto& v : {std::string(1, a), std::string{a, 'h'}, std::string{'h', a}, std::string{'r', a}, std::string{a, 'k', 'n'}, std::string{"-", 1} + a}) {
          auto args{pre};
          args.insert(args.end(), {"-f", v, "し カ", "ō"});
          check(args, "", true);
        }
        check({std::string{'-', a, 'x'}, "ka"}, "", true);
        check({std::string{'-', 'r', a}, "ka"}, "", true);
        if (a != '-') check({std::string{'-', a}, "カ", "ka"}, "", true);
      }
  // long arguments and lines, and many of them
  for (size_t n{5}; n < 70000; n *= 3)
    if (vh::begin("long input " + std::to_string(n))) {
      std::string l;
      for (size_t i{}; i < n; ++i) l += i % 7 ? "ka" : " ";
      check({l, l}, "", true);
      check({"-r", "-n", l}, "", true);
      check({}, l + "\n" + l + " \n\n" + l, false);
      check({"-n", "-k"}, l + "\n" + l, false);
      check({"-i"}, l + "\n-k\n" + l + "\n", true);
      Words many{"-k"};
      std::string lines;
      for (size_t i{}; i < std::min(n, size_t{3000}); ++i) many.push_back(i % 5 ? "ki" : "ん"), lines += i % 5 ? "ki\n" : "\n";
      check(many, "", true);
      check({}, lines, false);
      check({"-i"}, lines, true);
    }
  // every sequence of commands of a session
  const Words cmd{"", "c", "f", "h", "k", "n", "r", "q", "-h", "-k", "-r", "-H", "-K", "-R", "-x", "-", "kā n", "カナー", "ふ si", "Q", " q"};
  const std::vector<Words> starts{{"-i"}, {"-k", "-i", "-f", "r", "-R"}, {"-f", "k", "-f", "n", "-i", "-H", "-r"}};
  for (size_t st{}; st < starts.size(); ++st)
    for (size_t a{}; a < cmd.size(); ++a)
      for (size_t b{}; b < cmd.size(); ++b) {
        if (!vh::begin("session " + id(starts[st]) + "| " + id({cmd[a], cmd[b]}))) continue;
        vh::words(cmd.size(), 0, st ? 2 : 3, [&](auto& w) {
          auto in{cmd[a] + "\n" + cmd[b] + "\n"};
          for (auto i : w) in += cmd[i] + "\n";
          vh::step(w.size());
          check(starts[st], in + "ふー si カ\n", true);
          if (w.size() < 2) {
            check(starts[st], in, true);
            check(starts[st], in.substr(0, in.size() - 1), true);
            check(starts[st], in + "-r\nf\nx\nh\nふちー　カ\nq\nka\n", true);
            if (("\n" + in).find("\nf\n") == std::string::npos) check(starts[st], in, false); // a terminal is asked for single keys
          }
        });
      }
  // piped text
  const Words lines{"", "ka", "カ ī", "q", "c", "f", "-k", "h", "\xe3\x81", "ん。"};
  for (auto& args : {Words{}, {"-n"}, {"-r"}, {"-k", "-n"}, {"-f", "r"}, {"-K"}, {"-f", "h", "-r", "-H"}})
    if (vh::begin("piped " + id(args)))
      vh::words(lines.size(), 0, deep ? 5 : 4, [&](auto& w) {
        std::string in;
        for (auto i : w) in += lines[i] + "\n";
        check(args, in, false);
        if (w.size() == 2) check(args, in + "ka", false);
      });
  // the program
  for (size_t a{}; a < voc.size(); ++a)
    if (vh::begin("program " + voc[a])) {
      program({voc[a]}, input);
      for (auto& b : voc) program({voc[a], b}, input);
      if (!a) program({}, input), program({}, ""), program({"-i"}, "f\n"), program({"-i"}, "-r\nか\nc\n-k\nし\nq\nか"), program({"-n"}, "ka\nki");
    }
}

} // namespace

int main(int c, char** v) {
  Self = v[0];
  Self = Self.substr(0, Self.rfind('/'));
  return vh::run(c, v, body);
}
