// C04: character iteration, sizes and combining marks
#include "ref_char.h"
#include "vh.h"
#include <kt_kana/Utf8Char.h>

using namespace kanji_tools;

namespace {

const std::vector<String> Tok{"a", "か", "は", "あ", "ガ", "ワ", "漢", "\xe3\x82\x99", "\xe3\x82\x9a", "\xef\xb8\x80", "\xef\xb8\x8f",
    "\xef\xb8\x90", "é", "𠮟", "\x80", "\xe3", "\xe3\x82", "\xf0\x9f", "\xc0\x80", "\xff"};

/// one operation of a history
enum Op { NextMB, NextAll, PeekMB, PeekAll, Reset, Ops };

bool play(Utf8Char& u, ref::Iter& m, int op, const String& hist) {
  String got, want;
  bool g{}, w{};
  switch (op) {
  case NextMB:
  case NextAll:
    g = u.next(got, op == NextMB);
    w = m.next(want, op == NextMB);
    break;
  case PeekMB:
  case PeekAll: {
    auto c{m};
    w = c.next(want, op == PeekMB);
    g = u.peek(got, op == PeekMB);
    break;
  }
  case Reset:
    u.reset();
    m = ref::Iter{m.text};
  }
  vh::step();
  if (g != w || (w && got != want)) {
    vh::fail("iter:" + vh::hex(*m.text.p) + ':' + hist, "history " + hist + " delivered '" + (g ? got : "(end)") + "', expected '" + (w ? want : "(end)") + "'");
    return false;
  }
  if (u.errors() != m.errors || u.variants() != m.variants || u.combiningMarks() != m.marks) {
    vh::fail("count:" + vh::hex(*m.text.p) + ':' + hist,
        "history " + hist + " gave errors/variants/marks " + std::to_string(u.errors()) + '/' + std::to_string(u.variants()) + '/' +
            std::to_string(u.combiningMarks()) + ", expected " + std::to_string(m.errors) + '/' + std::to_string(m.variants) + '/' + std::to_string(m.marks));
    return false;
  }
  return true;
}

void whole(const String& s) {
  const bool wf{ref::wellFormed(s)};
  for (bool mb : {true, false}) {
    Utf8Char u{s};
    ref::Iter m{s};
    size_t n{};
    bool first{true};
    String firstChar;
    for (;;) {
      String probe;
      auto c{m};
      const bool more{c.next(probe, mb)};
      if (!play(u, m, mb ? PeekMB : PeekAll, "iterate") || !play(u, m, mb ? NextMB : NextAll, "iterate")) return;
      if (!more) break;
      if (first) firstChar = probe;
      first = false;
      ++n;
    }
    vh::trace();
    if (wf && (Utf8Char::size(s, mb) != n || Utf8Char::size(s.c_str(), mb) != n || u.size(mb) != n))
      vh::fail("size:" + vh::hex(s), "size is " + std::to_string(Utf8Char::size(s, mb)) + " but " + std::to_string(n) + " characters are delivered");
    if (mb) {
      if (Utf8Char::getFirst(s) != firstChar) vh::fail("first:" + vh::hex(s), "getFirst gave '" + Utf8Char::getFirst(s) + "'");
      vh::state(std::to_string(n) + ':' + std::to_string(m.errors) + ':' + std::to_string(m.variants) + ':' + std::to_string(m.marks) + ':' + std::to_string(s.size()));
      vh::outcome(firstChar + std::to_string(n));
      // reset replays everything
      u.reset();
      ref::Iter r{s};
      for (String x; r.next(x, true);) {
        String y;
        if (!u.next(y) || x != y) {
          vh::fail("reset:" + vh::hex(s), "iteration after reset differs");
          break;
        }
      }
    }
  }
  Utf8Char v{s};
  for (bool o : {true, false})
    if (v.valid(o) != validateMBUtf8(s, o) || v.isValid(o) != isValidMBUtf8(s, o)) vh::fail("valid:" + vh::hex(s), "valid() differs from validateMBUtf8");
  const auto q{s.empty() ? ref::Seq{} : ref::one(s, 0)};
  const bool okFirst{!s.empty() && q.err == ref::Err::None};
  if (Utf8Char::isVariationSelector(s) != (okFirst && ref::selector(q.code)) || Utf8Char::isCombiningMark(s) != (okFirst && ref::mark(q.code)))
    vh::fail("isMark:" + vh::hex(s), "isVariationSelector/isCombiningMark is wrong");
}

/// selector helpers on exactly one character plus what may follow
void selector(const String& ch, uint32_t code) {
  const bool mb{code >= 0x80};
  for (uint32_t sel : {0xfe00U, 0xfe05U, 0xfe0fU, 0xfe10U, 0xfdffU, 0x3099U}) {
    const auto s{ch + ref::enc(sel)};
    const bool want{mb && ref::selector(sel)};
    vh::trace();
    if (Utf8Char::isCharWithVariationSelector(s) != want || Utf8Char::noVariationSelector(s) != (want ? ch : s))
      vh::fail("sel:" + toUnicode(static_cast<Code>(code)) + ':' + toHex(sel), "variation selector helper is wrong for '" + s + "'");
  }
  if (Utf8Char::isCharWithVariationSelector(ch) || Utf8Char::noVariationSelector(ch) != ch)
    vh::fail("sel:" + toUnicode(static_cast<Code>(code)), "a single character has no selector");
}

void body() {
  const bool t{vh::g().thorough};
  if (vh::begin("empty")) whole("");
  // all words over the token alphabet
  for (size_t a{}; a < Tok.size(); ++a)
    for (size_t b{}; b < Tok.size(); ++b)
      if (vh::begin("words from " + vh::hex(Tok[a]) + ' ' + vh::hex(Tok[b]))) {
        if (!b) whole(Tok[a]);
        vh::words(Tok.size(), 0, t ? 3 : 2, [&](auto& w) {
          auto s{Tok[a] + Tok[b]};
          for (auto i : w) s += Tok[i];
          whole(s);
          vh::sample([&] { return "iterate '" + s + "' (" + vh::hex(s) + ")"; });
        });
      }
  // all histories of next/peek/reset
  const size_t depth{t ? 7U : 5U};
  const std::vector<size_t> sub{0, 1, 2, 6, 7, 8, 9, 14, 16};
  for (auto a : sub)
    for (auto b : sub)
      if (vh::begin("histories on " + vh::hex(Tok[a]) + ' ' + vh::hex(Tok[b])))
        vh::words(sub.size(), 0, 1, [&](auto& w) {
          auto s{Tok[a] + Tok[b]};
          for (auto i : w) s += Tok[sub[i]];
          vh::words(Ops, depth, depth, [&](auto& h) {
            Utf8Char u{s};
            ref::Iter m{s};
            String hist;
            vh::trace();
            for (auto op : h) {
              hist += "nNpPr"[op];
              if (!play(u, m, static_cast<int>(op), hist)) break;
            }
            vh::state(std::to_string(m.pos) + '/' + s);
          });
        });
  // long texts: every token repeated, with another one at the end
  for (size_t a{}; a < Tok.size(); ++a)
    for (size_t n : {100U, 256U, 257U, 1000U, 22000U, 65537U, 70000U}) {
      // (each step over a multi-byte character costs a copy of the rest of the text)
      if (n > 1000 && a && Tok[a][0] != '\x80' && Tok[a][0] != '\xff' && (n > 22000 || a % 5)) continue;
      if (vh::begin("long text of " + vh::hex(Tok[a]) + ' ' + std::to_string(n))) {
        String s;
        for (size_t i{}; i < n; ++i) s += Tok[a];
        for (size_t b{}; b < (n > 1000 ? 1U : Tok.size()); ++b) whole(s + Tok[n > 1000 ? (a + 1) % Tok.size() : b]);
      }
    }
  if (vh::begin("long mixed text")) {
    String s;
    for (size_t i{}; i < 5000; ++i) s += Tok[i * 7 % 13] + Tok[i * 3 % Tok.size()];
    whole(s);
  }
  // a selector after something that isn't exactly one character
  for (auto& a : Tok)
    if (vh::begin("selector after " + vh::hex(a) + ".."))
      for (size_t b{}; b <= Tok.size(); ++b) {
        const auto p{b < Tok.size() ? a + Tok[b] : a + "b"};
        const auto q{ref::one(p, 0)};
        const bool single{q.err == ref::Err::None && q.used == p.size()};
        const auto s{p + "\xef\xb8\x81"};
        vh::trace();
        if (!single && (Utf8Char::isCharWithVariationSelector(s) || Utf8Char::noVariationSelector(s) != s))
          vh::fail("selMany:" + vh::hex(p), "a selector after more than one character isn't 'one character with selector'");
      }
  // every code point with every kind of modifier after it
  for (uint32_t blk{}; blk < 0x110; ++blk)
    if (vh::begin("code points from " + toHex(blk << 12)))
      for (uint32_t c{blk << 12}; c < (blk + 1) << 12; ++c) {
        if (!c || !ref::scalar(c)) continue;
        const auto ch{ref::enc(c)};
        if (t || c < 0x4000 || (c & 15) == 0 || (c >> 8) == 0xfe) {
          whole(ch);
          whole(ch + "\xe3\x82\x99" + ch);
          whole(ch + "\xe3\x82\x9a");
          whole("は" + ch);
        }
        if (!ref::selector(c)) selector(ch, c);
      }
}

} // namespace

int main(int c, char** v) { return vh::run(c, v, body); }
