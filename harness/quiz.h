// Quiz sessions played against the real classes (shared by C23, C24 and C25)
#pragma once
#include "cmp_kanji.h"
#include "ref_width.h"
#include <functional>
#include <kt_quiz/GroupQuiz.h>
#include <kt_quiz/ListQuiz.h>
#include <kt_quiz/QuizLauncher.h>

using ref::Str;
using ref::Strs;

/// input stream whose next line is decided when it's asked for, looking at
/// what has been printed since the last time
struct Player final : std::streambuf {
  using Next = std::function<std::optional<Str>(const Str& printed)>;
  std::ostringstream& out;
  Next next;
  Str line;
  Player(std::ostringstream& o, Next n) : out{o}, next{std::move(n)} {}
  int_type underflow() override {
    const auto s{out.str()};
    out.str("");
    const auto l{next(s)};
    if (!l) return traits_type::eof();
    line = *l + "\n";
    setg(line.data(), line.data(), line.data() + line.size());
    return traits_type::to_int_type(line[0]);
  }
};

struct World {
  Real real;
  kt::KanjiDataPtr data;
  kt::GroupDataPtr groups;
  kt::JukugoDataPtr jukugo;
  explicit World(const Str& dir) : real{dir}, data{std::move(real.data)}, groups{std::make_shared<kt::GroupData>(data)}, jukugo{std::make_shared<kt::JukugoData>(data)} {
    real.out.str("");
    real.err.str("");
  }
};
inline World& world() {
  static World w{vh::g().data};
  return w;
}

/// text of a prompt: choices as (character, description), runs of characters
/// without one are shown as range
using Choices = std::map<char, Str>;
inline Str prompt(const Str& msg, const Choices& c, char def = 0) {
  Str r{msg + " ("};
  bool first{true};
  for (auto i{c.begin()}; i != c.end();) {
    if (!first) r += ", ";
    first = false;
    r += i->first;
    if (!i->second.empty()) {
      r += "=" + i->second;
      ++i;
      continue;
    }
    auto last{i->first};
    for (++i; i != c.end() && i->second.empty() && i->first == last + 1; ++i) last = i->first;
    if (last != r.back()) (r += '-') += last;
  }
  r += ")";
  if (def) (r += " def '") += Str{def} + "'";
  return r + ": ";
}

/// real launcher over played input, mode and order set by options
struct Session {
  Player player;
  std::istream in;
  std::vector<const char*> argv{""};
  std::unique_ptr<kt::QuizLauncher> launcher;
  Session(const std::vector<Str>& args, Player::Next n) : player{world().real.out, std::move(n)}, in{&player} {
    for (auto& a : args) argv.push_back(a.c_str());
    auto& w{world()};
    w.real.out.str("");
    launcher = std::make_unique<kt::QuizLauncher>(kt::Args{static_cast<int>(argv.size()), argv.data()}, w.data, w.groups, w.jukugo, &in);
  }
};

/// text printed by a piece of the launcher
inline Str printed(const std::function<void(const kt::QuizLauncher&)>& f) {
  auto& w{world()};
  const auto keep{w.real.out.str()};
  w.real.out.str("");
  std::istringstream none;
  const char* argv[]{"", "-r1"};
  const kt::QuizLauncher l{kt::Args{2, argv}, w.data, w.groups, w.jukugo, &none};
  f(l);
  const auto r{w.real.out.str()};
  w.real.out.str("");
  w.real.out << keep;
  return r;
}

inline Str score(unsigned right, unsigned questions, const Strs& mistakes) {
  Str r{"\nFinal score: " + std::to_string(right) + "/" + std::to_string(questions)};
  if (questions) {
    const auto skipped{questions - right - mistakes.size()};
    if (skipped) r += ", skipped: " + std::to_string(skipped);
    if (!mistakes.empty()) {
      r += " - mistakes:";
      for (auto& i : mistakes) r += " " + i;
    } else if (!skipped)
      r += " - Perfect!";
  }
  return r + "\n";
}
