// C13: trimming, searching, starts/ends with, character sets, transform views and stream output of TextView.
#include "text_common.h"
#include <algorithm>
#include <iomanip>
#include <sstream>
#include <swoc/TextView.h>

using swoc::CharSet;
using swoc::TextView;
static constexpr size_t NP = TextView::npos;

static char lower(char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }
static std::string lower(std::string s)
{
  for (auto &x : s) x = lower(x);
  return s;
}
static char const ALPHA[] = {' ', 'a', '\xC3', '\0'};
static std::string const SETS[] = {"", " ", "a", std::string(" a"), std::string("\0", 1), "\xC3", std::string("\xC3\0 ", 3), std::string(" a\xC3\0", 4), "zz", "aa"};

static void same(mc::Ctx &c, std::string const &s, Exact const &mem, TextView const &got, size_t b, size_t e, char const *what)
{
  // anything empty will do where everything was trimmed
  MC_CHECK(c, got.size() == e - b && (b == e || got.data() == mem.data() + b), "%s of '%s' is not '%s'", what, mc::show(s).c_str(), mc::show(s.substr(b, e - b)).c_str());
}

static void trim_text(mc::Ctx &c, std::string const &s);
MC_INPUTS(trim, 3, "ltrim, rtrim and trim of every text of up to 5 (7) characters out of 4, by every character, 10 sets in 3 forms and as predicate")
{
  trim_text(c, choose_text(c, c.thorough ? 7 : 5, std::string_view(ALPHA, 4)));
}
static void trim_text(mc::Ctx &c, std::string const &s)
{
  Exact mem(s);
  TextView src(mem.data(), mem.n);
  int how = c.choose(5); // character, set, view, C string, predicate
  std::string set;
  if (how == 0) set = std::string(1, c.choose(5) == 4 ? 'z' : ALPHA[c.sh->choice[c.pos - 1]]);
  else set = SETS[c.choose(10)];
  if (how == 3 && set.find('\0') != NP) set.resize(set.find('\0'));
  Exact sm(how == 3 ? set + '\0' : set);
  std::string_view sv(sm.data(), set.size());
  char const *cstr = sm.data();
  auto in          = [&](char x) { return set.find(x) != NP; };
  int calls        = 0;
  auto pred        = [&](char x) {
    ++calls;
    return in(x);
  };
  size_t b = 0, e = s.size();
  while (b < e && in(s[b])) ++b;
  size_t e2 = s.size();
  while (e2 > 0 && in(s[e2 - 1])) --e2;
  TextView l(src), r(src), t(src);
  TextView *pl = nullptr, *pr = nullptr, *pt = nullptr;
  switch (how) {
  case 0: pl = &l.ltrim(set[0]), pr = &r.rtrim(set[0]), pt = &t.trim(set[0]); break;
  case 1: {
    CharSet cs{TextView(sv)};
    pl = &l.ltrim(cs), pr = &r.rtrim(cs), pt = &t.trim(cs);
  } break;
  case 2: pl = &l.ltrim(sv), pr = &r.rtrim(sv), pt = &t.trim(sv); break;
  case 3: pl = &l.ltrim(cstr), pr = &r.rtrim(cstr), pt = &t.trim(cstr); break;
  case 4: pl = &l.ltrim_if(pred), pr = &r.rtrim_if(pred), pt = &t.trim_if(pred); break;
  }
  MC_CHECK(c, pl == &l && pr == &r && pt == &t, "trim does not return the view");
  same(c, s, mem, l, b, s.size(), "ltrim");
  same(c, s, mem, r, 0, e2, "rtrim");
  same(c, s, mem, t, b, std::max(b, e2), "trim");
  c.outcome(mc::strf("%d ", how) + s + "/" + set);
}

static void find_text(mc::Ctx &c, std::string const &s);
MC_INPUTS(find_if, 3, "find_if and rfind_if in every text of up to 6 (8) characters out of 4 for every predicate over them")
{
  find_text(c, choose_text(c, c.thorough ? 8 : 6, std::string_view(ALPHA, 4)));
}
static void find_text(mc::Ctx &c, std::string const &s)
{
  Exact mem(s);
  TextView v(mem.data(), mem.n);
  int mask = c.choose(16);
  std::vector<size_t> seen;
  auto in = [&](char x) { return ((mask >> (std::find(ALPHA, ALPHA + 4, x) - ALPHA)) & 1) != 0; };
  auto p  = [&](char const &x) {
    seen.push_back(size_t(&x - mem.data()));
    return in(x);
  };
  size_t f = NP, r = NP;
  for (size_t i = 0; i < s.size(); ++i)
    if (in(s[i])) {
      r = i;
      if (f == NP) f = i;
    }
  MC_CHECK(c, v.find_if([&](char x) { return in(x); }) == f, "find_if in '%s' of mask %d", mc::show(s).c_str(), mask);
  MC_CHECK(c, v.rfind_if([&](char x) { return in(x); }) == r, "rfind_if in '%s' of mask %d", mc::show(s).c_str(), mask);
  (void)p;
  c.outcome(mc::strf("%d ", mask) + s);
}

static char const CASE[] = {'a', 'A', '[', '{', '\0', '\xC1', '\xE1', 'z', 'Z'};
static void affix_of(mc::Ctx &c, std::string const &s, std::string const &t);
MC_INPUTS(affix, 3, "starts_with and ends_with, with and without case, of every text of up to 3 (4) characters for every text of up to 3 characters out of 9")
{
  std::string s = choose_text(c, c.thorough ? 4 : 3, std::string_view(CASE, 9));
  std::string t = choose_text(c, 3, std::string_view(CASE, 9));
  affix_of(c, s, t);
}
static void affix_of(mc::Ctx &c, std::string const &s, std::string const &t)
{
  Exact ms(s), mt(t);
  TextView v(ms.data(), ms.n);
  std::string_view a(mt.data(), mt.n);
  bool fits = t.size() <= s.size();
  bool st = fits && s.substr(0, t.size()) == t, en = fits && s.substr(s.size() - t.size()) == t;
  bool stn = fits && lower(s.substr(0, t.size())) == lower(t), enn = fits && lower(s.substr(s.size() - t.size())) == lower(t);
  std::string name = "'" + mc::show(s) + "' and '" + mc::show(t) + "'";
  MC_CHECK(c, v.starts_with(a) == st, "starts_with of %s", name.c_str());
  MC_CHECK(c, v.ends_with(a) == en, "ends_with of %s", name.c_str());
  MC_CHECK(c, v.starts_with_nocase(a) == stn, "starts_with_nocase of %s", name.c_str());
  MC_CHECK(c, v.ends_with_nocase(a) == enn, "ends_with_nocase of %s", name.c_str());
  if (t.find('\0') == NP) {
    Exact mz(t + '\0');
    char const *z = mz.data();
    MC_CHECK(c, v.starts_with(z) == st && v.ends_with(z) == en, "starts/ends_with C string of %s", name.c_str());
    MC_CHECK(c, v.starts_with_nocase(z) == stn && v.ends_with_nocase(z) == enn, "starts/ends_with_nocase C string of %s", name.c_str());
  }
  c.outcome(s + "/" + t);
}

MC_INPUTS(affix_char, 1, "starts_with and ends_with of a character for all pairs of characters, character sets of one and two characters against all")
{
  unsigned char x = c.choose(256), y = c.choose(256);
  std::string s{char(x), ' ', char(x)};
  Exact m(s);
  for (size_t n : {size_t(0), size_t(1), size_t(3)}) {
    Exact m(s.substr(0, n));
    TextView v(m.data(), n);
    MC_CHECK(c, v.starts_with(char(y)) == (n && x == y) && v.ends_with(char(y)) == (n && x == y), "starts/ends_with %02x of %02x", y, x);
    bool eq = n && lower(char(x)) == lower(char(y));
    MC_CHECK(c, v.starts_with_nocase(char(y)) == eq && v.ends_with_nocase(char(y)) == eq, "starts/ends_with_nocase %02x of %02x", y, x);
  }
  char two[] = {char(x), char(y)};
  CharSet cs{TextView(two, 2)}, none{TextView()};
  for (int i = 0; i < 256; ++i) {
    bool in = i == x || i == y;
    MC_CHECK(c, cs(char(i)) == in && cs((unsigned char)i) == in, "set of %02x, %02x has %02x: %d", x, y, i, cs(char(i)));
    MC_CHECK(c, !none(char(i)), "empty set has %02x", i);
  }
  c.outcome(mc::strf("%d", std::min(x, y) * 256 + std::max(x, y)));
}

static int up(int x) { return x == 'a' ? 'A' : x; }
template <typename TV, typename F> static void check_transform(mc::Ctx &c, TV const &xv, std::string const &s, F const &f)
{
  TV v(xv);
  size_t i = 0;
  for (; v; ++i) {
    MC_CHECK(c, !v.empty() && i < s.size(), "transform view of '%s' is longer", mc::show(s).c_str());
    MC_CHECK(c, *v == f(s[i]), "character %zu of transform view of '%s'", i, mc::show(s).c_str());
    TV w(v), w2(v);
    bool post = i & 1;
    if (post) {
      MC_CHECK(c, v++ == w, "postfix increment does not return the previous position");
    } else {
      MC_CHECK(c, &++v == &v, "prefix increment does not return the view");
    }
    MC_CHECK(c, v != w && !(v == w) && w == w2 && !(w != w2), "equality of transform views of '%s'", mc::show(s).c_str());
  }
  MC_CHECK(c, i == s.size() && v.empty(), "transform view of '%s' ends after %zu", mc::show(s).c_str(), i);
  // as iterator
  i = 0;
  for (auto x : xv) {
    MC_CHECK(c, i < s.size() && x == f(s[i]), "iteration of transform view of '%s' at %zu", mc::show(s).c_str(), i);
    ++i;
  }
  MC_CHECK(c, i == s.size(), "iteration of transform view of '%s' ends after %zu", mc::show(s).c_str(), i);
  MC_CHECK(c, xv.begin() == xv && (s.empty() ? xv.begin() == xv.end() : xv.begin() != xv.end()), "begin and end of transform view of '%s'", mc::show(s).c_str());
}

MC_INPUTS(transform, 2, "transform views with function, lambda with state and identity over every text of up to 5 (7) characters: each character once, in order, also as iterator")
{
  std::string s = choose_text(c, c.thorough ? 7 : 5, std::string_view(ALPHA, 4));
  int how       = c.choose(6);
  Exact m(s);
  TextView tv(m.data(), m.n);
  std::string_view sv(m.data(), m.n);
  int add = 3;
  auto fn = [=](char x) -> int { return x + add; };
  switch (how) {
  case 0: check_transform(c, swoc::transform_view_of(&up, tv), s, &up); break;
  case 1: check_transform(c, swoc::transform_view_of(&up, sv), s, &up); break;
  case 2: check_transform(c, swoc::transform_view_of(fn, sv), s, fn); break;
  case 3: check_transform(c, swoc::TransformView<void, TextView>(tv), s, [](char x) { return x; }); break;
  case 4: check_transform(c, swoc::transform_view_of(sv), s, [](char x) { return x; }); break;
  case 5: check_transform(c, swoc::TransformView<int (*)(int), std::string_view>(&up, sv), s, &up); break;
  }
  for (size_t b = 0; b <= s.size(); ++b) {
    for (size_t e = b; e <= s.size(); ++e) {
      bool same = b == 0 && e == s.size();
      auto part = sv.substr(b, e - b);
      auto x = swoc::transform_view_of(&up, sv), y = swoc::transform_view_of(&up, part);
      auto z = swoc::transform_view_of(sv), w = swoc::transform_view_of(part);
      MC_CHECK(c, (x == y) == same && (x != y) == !same && (z == w) == same && (z != w) == !same, "equality of transform views of '%s' and its part from %zu to %zu", mc::show(s).c_str(), b, e);
    }
  }
  c.outcome(mc::strf("%d ", how) + s);
}

static void token_text(mc::Ctx &c, std::string const &s);
MC_INPUTS(tokens, 2, "splitting every text of up to 7 (9) characters into tokens from either end and trimming them: the tokens are exactly the parts between separators")
{
  token_text(c, choose_text(c, c.thorough ? 9 : 7, ", a"));
}
static void token_text(mc::Ctx &c, std::string const &s)
{
  int how       = c.choose(4);
  Exact m(s);
  TextView v(m.data(), m.n);
  std::vector<std::string> want, got;
  for (size_t b = 0;;) {
    size_t e = s.find(',', b);
    want.push_back(s.substr(b, e == NP ? NP : e - b));
    if (e == NP) break;
    b = e + 1;
  }
  if (want.back().empty()) want.pop_back(); // a separator at the end does not start another token
  if (how >= 2) { // from the end: leading empty tokens are not found instead
    want.clear();
    for (size_t e = s.size(); e > 0;) {
      size_t b = s.rfind(',', e - 1);
      want.push_back(s.substr(b == NP ? 0 : b + 1, b == NP ? e : e - b - 1));
      if (b == NP) break;
      e = b;
    }
  }
  int n = 0;
  while (v) {
    MC_CHECK(c, ++n < 1100, "no end");
    TextView t = how == 0 ? v.take_prefix_at(',') : how == 1 ? v.take_prefix_if([](char x) { return x == ','; }) : how == 2 ? v.take_suffix_at(',') : v.take_suffix_at(std::string_view(",;"));
    MC_CHECK(c, t.empty() || (t.data() >= m.data() && t.data_end() <= m.data() + m.n), "token outside");
    got.push_back(std::string(t));
    TextView u(t);
    u.trim(' ');
    std::string w = got.back();
    w.erase(0, std::min(w.find_first_not_of(' '), w.size()));
    w.erase(w.find_last_not_of(' ') + 1);
    MC_CHECK(c, u == w, "trimmed token '%s' is '%s'", got.back().c_str(), std::string(u).c_str());
  }
  MC_CHECK(c, got == want, "tokens (%d) of '%s': %zu instead of %zu, or different", how, s.c_str(), got.size(), want.size());
  c.outcome(mc::strf("%d ", how) + s);
}

MC_INPUTS(stream, 1, "stream output of texts of up to 12 characters with every width up to 30, fill and adjustment")
{
  static char const fills[] = {' ', '*', '\0', '\xC3'};
  int n = c.choose(13), w = c.choose(31), fill = c.choose(4), adj = c.choose(3);
  std::string s = std::string("ab\0cdefghijk", 12).substr(0, n);
  Exact m(s);
  std::ostringstream a, b;
  for (auto os : {&a, &b}) {
    *os << std::setfill(fills[fill]) << std::setw(w);
    if (adj == 1) *os << std::left;
    if (adj == 2) *os << std::right;
  }
  a << TextView(m.data(), m.n) << "!" << TextView(m.data(), m.n);
  b << std::string(s) << "!" << s;
  MC_CHECK(c, a.str() == b.str(), "stream output of %d characters with width %d: '%s' instead of '%s'", n, w, mc::show(a.str()).c_str(), mc::show(b.str()).c_str());
  c.outcome(a.str() + char('0' + adj));
}

static size_t const LENGTHS[] = {0, 1, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 65536};
MC_INPUTS(trim_scale, 3, "trimming of texts with 0..65536 characters to be trimmed on each side, and 0..1000 between")
{
  size_t l = c.pick(LENGTHS), r = c.pick(LENGTHS);
  static const size_t mids[] = {0, 1, 2, 16, 64, 300, 1000};
  size_t m = c.pick(mids);
  if (!c.thorough && l + r > 2500) c.skip();
  std::string mid(m, 'x');
  if (m > 2) mid[m / 2] = ' ', mid[1] = 'a';
  trim_text(c, std::string(l, ' ') + mid + std::string(r, ' '));
}
MC_INPUTS(find_scale, 3, "find_if and rfind_if in texts of up to 65536 characters with one or two at each place of a grid, for every predicate")
{
  size_t n = c.pick(LENGTHS), i = c.pick(LENGTHS), j = c.pick(LENGTHS);
  if (i >= n || j >= n) c.skip();
  std::string s(n, ' ');
  s[i]         = 'a';
  s[n - 1 - j] = '\0';
  find_text(c, s);
}
MC_INPUTS(affix_scale, 3, "starts_with and ends_with of long texts for long texts, equal, other case, or different at one place")
{
  size_t n = c.pick(LENGTHS), k = c.pick(LENGTHS), at = c.pick(LENGTHS);
  if (n > 1000 || k > n + 2 || (at && at >= k)) c.skip();
  int how = c.choose(4);
  std::string s;
  for (size_t i = 0; i < n; ++i) s += char('A' + i * 7 % 58);
  for (bool front : {true, false}) {
    std::string t = k > n ? s + std::string(k - n, 'q') : front ? s.substr(0, k) : s.substr(n - k);
    if (at < t.size()) {
      if (how == 1) t[at] = char(t[at] ^ 0x20);
      if (how == 2) t[at] = char(t[at] ^ 0x80);
    }
    if (how == 3)
      for (auto &x : t) x = isalpha(x) ? char(x ^ 0x20) : x;
    affix_of(c, s, t);
  }
}
MC_INPUTS(transform_scale, 1, "transform views of texts of up to 1000 characters")
{
  size_t n = c.pick(LENGTHS);
  if (n > 1000) c.skip();
  std::string s;
  for (size_t i = 0; i < n; ++i) s += char(i * 7);
  Exact m(s);
  std::string_view sv(m.data(), m.n);
  check_transform(c, swoc::transform_view_of(&up, sv), s, &up);
  check_transform(c, swoc::transform_view_of(sv), s, [](char x) { return x; });
  c.outcome(mc::strf("%zu", n));
}
MC_INPUTS(token_scale, 2, "splitting texts of 3..1000 tokens of 0..300 characters")
{
  static const int counts[] = {3, 20, 300, 1000};
  static const int sizes[]  = {0, 1, 15, 16, 64, 256, 300};
  int n = c.pick(counts), k = c.pick(sizes), ends = c.choose(4);
  std::string s(ends & 1, ',');
  for (int i = 0; i < n; ++i) {
    if (i) s += ',';
    s += std::string(i % 3, ' ') + std::string(k + i % 2, 'a') + std::string(i % 4, ' ');
  }
  if (ends & 2) s += ',';
  token_text(c, s);
}
MC_INPUTS(stream_scale, 1, "stream output of texts of 15..1000 characters with widths up to 1500")
{
  size_t n = c.pick(LENGTHS), w = c.pick(LENGTHS);
  int adj = c.choose(3);
  if (n > 1000 || w > 1000) c.skip();
  std::string s;
  for (size_t i = 0; i < n; ++i) s += char('a' + i % 26);
  Exact m(s);
  std::ostringstream a, b;
  for (auto os : {&a, &b}) {
    *os << std::setfill('.') << std::setw(int(w + w / 2));
    if (adj == 1) *os << std::left;
    if (adj == 2) *os << std::right;
  }
  a << TextView(m.data(), m.n) << "!";
  b << s << "!";
  MC_CHECK(c, a.str() == b.str(), "stream output of %zu characters with width %zu is different", n, w + w / 2);
  c.outcome(mc::strf("%zu %zu %d", n, w, adj));
}
