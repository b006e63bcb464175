// Reference model of text counting: what Utf8Count must report
#pragma once
#include "ref_char.h"
#include <filesystem>
#include <fstream>
#include <functional>
#include <optional>
#include <set>
#include <sstream>
#include <sys/stat.h>

namespace ref {

using Str = std::string;

/// the documented blocks of the 'Furigana' pattern
inline bool furiganaBase(uint32_t c) {
  return (c >= 0x4e00 && c <= 0x9fff) || (c >= 0x3400 && c <= 0x4dbf) || (c >= 0xf900 && c <= 0xfaff) || (c >= 0x20000 && c <= 0x2a6df) || (c >= 0x2e80 && c <= 0x2eff) || (c >= 0x2a700 && c <= 0x2ebef) ||
         (c >= 0x2f800 && c <= 0x2fa1f) || (c >= 0x30000 && c <= 0x3134f) || selector(c) || (c >= 0xff00 && c <= 0xffef);
}
inline bool furiganaKana(uint32_t c) { return (c >= 0x3040 && c <= 0x30ff) || (c >= 0x31f0 && c <= 0x31ff); }
inline constexpr uint32_t WideOpen{0xff08}, WideClose{0xff09};

/// text without its furigana: bracketed Kana right after a base character
inline U32 removeFurigana(const U32& s) {
  U32 r;
  for (size_t i{}; i < s.size();) {
    r += s[i++];
    if (!furiganaBase(s[i - 1]) || i >= s.size() || s[i] != WideOpen) continue;
    auto j{i + 1};
    while (j < s.size() && furiganaKana(s[j])) ++j;
    if (j > i + 1 && j < s.size() && s[j] == WideClose) i = j + 1;
  }
  return r;
}

struct Counts {
  using Map = std::map<Str, size_t>;
  std::function<bool(const Str&)> allow;
  std::function<U32(const U32&)> replace; ///< none if empty
  Map map;
  std::map<Str, Map> tags;
  size_t files{}, dirs{}, errors{}, variants{}, marks{}, replacements{}, total{};
  Str lastTag, log;
  bool open{}; ///< a line with invalid bytes had something replaced: what became of the bytes isn't specified

  size_t add(const Str& s, const std::optional<Str>& tag = {}) {
    auto n{s};
    if (replace) {
      const auto before{dec(s)};
      const auto after{replace(before)};
      if (after != before) {
        n = enc(after);
        if (enc(before) != s) open = true;
        ++replacements;
        if (tag && *tag != lastTag) {
          log += "Tag '" + *tag + "'\n";
          lastTag = *tag;
        }
        const auto c{std::to_string(replacements)};
        log += "  " + c + " : " + s + "\n" + Str(c.size() + 3, ' ') + ": " + n + "\n";
      }
    }
    Iter i{n};
    size_t added{};
    for (Str t; i.next(t, true);)
      if (!allow || allow(t)) {
        ++map[t];
        ++added;
        if (tag) ++tags[t][*tag];
      }
    errors += i.errors;
    variants += i.variants;
    marks += i.marks;
    total += added;
    return added;
  }

  /// lines are counted one by one, except that with a pattern a bracket left
  /// open by a line (or a line starting with a bracket) continues to the first
  /// closing bracket of the next line if no other opening bracket comes before
  size_t text(const Str& t, const std::optional<Str>& tag) {
    static const Str Open{enc(WideOpen)}, Close{enc(WideClose)};
    size_t added{};
    Str held;
    for (size_t i{}; i < t.size();) {
      const auto e{std::min(t.find('\n', i), t.size())};
      const auto line{t.substr(i, e - i)};
      i = e + 1;
      if (!replace) {
        added += add(line, tag);
        continue;
      }
      if (!held.empty()) {
        const auto lastOpen{held.rfind(Open)}, lastClose{held.rfind(Close)};
        const bool unclosed{lastOpen != Str::npos && (lastClose == Str::npos || lastClose < lastOpen)};
        const auto open{line.find(Open)}, close{line.find(Close)};
        if (close != Str::npos && (unclosed ? open == Str::npos || close < open : open == 0)) {
          const auto end{close + Close.size()};
          added += add(held + line.substr(0, end), tag);
          held = line.substr(end);
          continue;
        }
        added += add(held, tag);
      }
      held = line;
    }
    if (!held.empty()) added += add(held, tag);
    return added;
  }
};

/// model of addFile (names and tags from the last part of the path)
inline size_t modelAdd(Counts& m, const std::filesystem::path& p, bool tag, bool names, bool recurse) {
  size_t n{};
  const auto s{p.string()};
  const auto name{s.substr(s.rfind('/') + 1)};
  const std::optional<Str> t{tag ? std::optional<Str>{name} : std::optional<Str>{}};
  struct stat st{};
  if (stat(p.c_str(), &st)) abort();
  if (S_ISREG(st.st_mode)) {
    ++m.files;
    std::ostringstream o;
    o << std::ifstream{p, std::ios::binary}.rdbuf();
    n += m.text(o.str(), t);
  } else if (S_ISDIR(st.st_mode)) {
    ++m.dirs;
    std::set<Str> entries;
    for (auto& e : std::filesystem::directory_iterator{p}) entries.insert(e.path().string());
    for (auto& e : entries) {
      struct stat l{};
      if (lstat(e.c_str(), &l)) abort();
      if (S_ISLNK(l.st_mode) || (!recurse && !S_ISREG(l.st_mode))) continue;
      n += modelAdd(m, e, tag, names, recurse);
    }
  } else
    return 0;
  if (names) n += m.add(name, t);
  return n;
}

} // namespace ref
