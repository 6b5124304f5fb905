// C14: comparison of views and spans.
#include "text_common.h"
#include <swoc/MemSpan.h>
#include <swoc/TextView.h>
#include <swoc/string_view_util.h>

using swoc::MemSpan;
using swoc::TextView;

static int sign(int x) { return x < 0 ? -1 : x > 0; }
static std::string lower(std::string s)
{
  for (auto &x : s)
    if (x >= 'A' && x <= 'Z') x += 32;
  return s;
}
static int order(std::string const &a, std::string const &b)
{
  for (size_t i = 0; i < a.size() && i < b.size(); ++i)
    if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
  return a.size() < b.size() ? -1 : a.size() > b.size();
}
static char const ALPHA[] = {'a', 'A', 'B', '\0', '\xC1', '[', 'b'};

static void check_pair(mc::Ctx &c, std::string const &a, std::string const &b)
{
  Exact ma(a), mb(b);
  std::string_view x = ma.sv(), y = mb.sv();
  TextView tx(x), ty(y);
  int o = order(a, b), oc = order(lower(a), lower(b));
  std::string name = "'" + mc::show(a) + "' and '" + mc::show(b) + "'";
  MC_CHECK(c, sign(memcmp(x, y)) == o, "memcmp of %s is %d, expected %d", name.c_str(), memcmp(x, y), o);
  MC_CHECK(c, sign(strcmp(x, y)) == o, "strcmp of %s is %d, expected %d", name.c_str(), strcmp(x, y), o);
  MC_CHECK(c, sign(strcasecmp(x, y)) == oc, "strcasecmp of %s is %d, expected %d", name.c_str(), strcasecmp(x, y), oc);
  MC_CHECK(c, sign(memcmp(tx, ty)) == o && sign(strcmp(tx, ty)) == o && sign(strcasecmp(tx, ty)) == oc, "comparison of text views %s", name.c_str());
  MC_CHECK(c, TextView::LessThan{}(tx, ty) == (o < 0), "LessThan of %s is %d", name.c_str(), TextView::LessThan{}(tx, ty));
  MC_CHECK(c, TextView::LessThanNoCase{}(tx, ty) == (oc < 0), "LessThanNoCase of %s is %d", name.c_str(), TextView::LessThanNoCase{}(tx, ty));
  MC_CHECK(c, TextView::CaselessEqual{}(tx, ty) == (oc == 0), "CaselessEqual of %s is %d", name.c_str(), TextView::CaselessEqual{}(tx, ty));
  MC_CHECK(c, (tx == ty) == (o == 0) && (tx != ty) == (o != 0) && (tx < ty) == (o < 0) && (tx > ty) == (o > 0) && (tx <= ty) == (o <= 0) && (tx >= ty) == (o >= 0), "operators of %s", name.c_str());
  MC_CHECK(c, (tx == y) == (o == 0) && (x == ty) == (o == 0), "mixed equality of %s", name.c_str());
  if (o == 0) MC_CHECK(c, std::hash<TextView>{}(tx) == std::hash<TextView>{}(ty), "hash of equal texts %s", name.c_str());
  MemSpan<char const> sx(x), sy(y);
  MemSpan<void const> vx(sx), vy(sy);
  MC_CHECK(c, sign(memcmp(sx, sy)) == o, "memcmp of spans %s is %d, expected %d", name.c_str(), memcmp(sx, sy), o);
  MC_CHECK(c, sign(memcmp(vx, vy)) == o, "memcmp of untyped spans %s is %d, expected %d", name.c_str(), memcmp(vx, vy), o);
  MC_CHECK(c, (sx == sy) == (o == 0) && (sx != sy) == (o != 0), "equality of spans %s", name.c_str());
  MC_CHECK(c, (vx == vy) == (o == 0) && (vx != vy) == (o != 0), "equality of untyped spans %s", name.c_str());
}

MC_INPUTS(pairs, 3, "every comparison of all pairs of texts of up to 3 (4) characters out of 7, in separate storage of exact size")
{
  int max       = c.thorough ? 4 : 3;
  std::string a = choose_text(c, max, std::string_view(ALPHA, 7)), b = choose_text(c, max, std::string_view(ALPHA, 7));
  check_pair(c, a, b);
  c.outcome(a + "/" + b);
}

MC_INPUTS(chars, 1, "every comparison for all pairs of characters, alone and after a common prefix")
{
  int x = c.choose(256), y = c.choose(256);
  check_pair(c, std::string(1, char(x)), std::string(1, char(y)));
  check_pair(c, std::string("Q") + char(x), std::string("q") + char(y) + "z");
  c.outcome(mc::strf("%d %d", x, y));
}

MC_INPUTS(overlap, 2, "every comparison of all pairs of parts of one text (shared storage)")
{
  static std::string const text = std::string("aAa\0aAa\0", 8);
  int n = 7 + c.choose(2), b0 = c.choose(n + 1), e0 = b0 + c.choose(n + 1 - b0), b1 = c.choose(n + 1), e1 = b1 + c.choose(n + 1 - b1);
  Exact m(text.substr(0, n));
  std::string a = text.substr(b0, e0 - b0), b = text.substr(b1, e1 - b1);
  TextView x(m.data() + b0, e0 - b0), y(m.data() + b1, e1 - b1);
  int o = order(a, b), oc = order(lower(a), lower(b));
  MC_CHECK(c, sign(memcmp(x, y)) == o && sign(strcmp(x, y)) == o && sign(strcasecmp(x, y)) == oc && TextView::CaselessEqual{}(x, y) == (oc == 0), "comparison of parts [%d,%d) and [%d,%d)", b0, e0, b1, e1);
  MemSpan<char const> sx(x), sy(y);
  MC_CHECK(c, (sx == sy) == (o == 0) && sign(memcmp(sx, sy)) == o, "comparison of spans [%d,%d) and [%d,%d)", b0, e0, b1, e1);
  { // copy of a part, exactly its bytes
    std::string copy(e0 - b0 + 2, '#');
    void *where = copy.data() + 1;
    MC_CHECK(c, ::memcpy(where, std::string_view(x)) == where && copy == "#" + a + "#", "copy of part [%d,%d) is %s", b0, e0, mc::show(copy).c_str());
  }
  MC_CHECK(c, sx.is_same(sy) == (b0 == b1 && e0 == e1), "is_same of [%d,%d) and [%d,%d)", b0, e0, b1, e1);
  c.outcome(mc::strf("%d %d %d %d %d", n, b0, e0, b1, e1));
}

template <typename T> static void check_typed(mc::Ctx &c, std::vector<T> const &vals)
{
  std::vector<T> a, b;
  int n = c.choose(4), m = c.choose(4);
  for (int i = 0; i < n; ++i) a.push_back(c.pick(vals));
  for (int i = 0; i < m; ++i) b.push_back(c.pick(vals));
  a.shrink_to_fit(), b.shrink_to_fit();
  MemSpan<T> x(a.data(), a.size()), y(b.data(), b.size());
  MC_CHECK(c, (x == y) == (a == b) && (x != y) == (a != b), "equality of spans of %zu byte elements, %d and %d elements, is %d", sizeof(T), n, m, x == y);
  int o = order(std::string((char const *)a.data(), n * sizeof(T)), std::string((char const *)b.data(), m * sizeof(T)));
  MC_CHECK(c, sign(memcmp(x, y)) == o, "memcmp of spans of %zu byte elements, %d and %d elements, is %d, expected %d", sizeof(T), n, m, memcmp(x, y), o);
  std::string key = mc::strf("%zu %d:", sizeof(T), n);
  key.append((char const *)a.data(), n * sizeof(T)).append((char const *)b.data(), m * sizeof(T));
  c.outcome(key);
}
MC_INPUTS(typed, 2, "equality and memcmp of all pairs of spans of up to 3 elements of 1, 2, 4 and 8 bytes that differ in any byte")
{
  switch (c.choose(4)) {
  case 0: check_typed<unsigned char>(c, {0, 1, 0x80, 0xff}); break;
  case 1: check_typed<uint16_t>(c, {0, 1, 0x100, 0xffff}); break;
  case 2: check_typed<int32_t>(c, {0, 1, 0x1000000, -1}); break;
  case 3: check_typed<uint64_t>(c, {0, 1, 0x100000000000000ull, 0x100000000ull}); break;
  }
}

MC_INPUTS(order3, 3, "transitivity and antisymmetry of every comparison over all triples of texts of up to 2 characters out of 6")
{
  static std::vector<std::string> const all = all_texts(2, std::string_view("aAB\0\xC1[", 6));
  std::string const &a = c.pick(all), &b = c.pick(all);
  Exact ma(a), mb(b);
  for (auto const &z : all) {
    Exact mz(z);
    TextView x(ma.sv()), y(mb.sv()), w(mz.sv());
    for (auto f : {+[](TextView p, TextView q) { return memcmp(p, q); }, +[](TextView p, TextView q) { return strcmp(p, q); }, +[](TextView p, TextView q) { return strcasecmp(p, q); }}) {
      int xy = sign(f(x, y)), yw = sign(f(y, w)), xw = sign(f(x, w));
      MC_CHECK(c, sign(f(y, x)) == -xy, "not antisymmetric: '%s' '%s'", mc::show(a).c_str(), mc::show(b).c_str());
      if (xy <= 0 && yw <= 0) MC_CHECK(c, xw <= 0 && (xw < 0 || (xy == 0 && yw == 0)), "not transitive: '%s' '%s' '%s'", mc::show(a).c_str(), mc::show(b).c_str(), mc::show(z).c_str());
    }
  }
  c.outcome(a + "/" + b);
}

MC_INPUTS(scale, 3, "every comparison of texts of 7..1000 characters that differ at each place, in each of 8 ways, or in length, or are equal")
{
  static const size_t lengths[] = {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000};
  size_t n = c.pick(lengths);
  size_t at = c.choose(int(n) + 1);
  if (n == 1000 && at % 37 && at < 990) c.skip();
  std::string a;
  for (size_t i = 0; i < n; ++i) a += char('A' + i * 7 % 58);
  std::string b = a;
  int how = c.choose(at < n ? 8 : 3);
  if (at < n) {
    switch (how) {
    case 0: b[at] = char(b[at] ^ 0x20); break; // other case, or other character
    case 1: b[at] = char(b[at] ^ 0x80); break;
    case 2: b[at] = '\0'; break;
    case 3: b[at] = char(b[at] + 1); break;
    case 4: b[at] = char(b[at] ^ 0x80), a[n - 1] = '~'; break; // a later difference of another sign
    case 5: b[at] = 0, b[n - 1] = '~'; break;
    case 6: b[at] = '!', b += "more"; break;
    case 7: b.resize(at); break;
    }
  } else if (how == 1) {
    for (auto &x : b) x = isalpha(x) ? char(x ^ 0x20) : x; // equal but for the case
  } else if (how == 2) {
    b += '\0';
  }
  c.note("%zu characters, changed at %zu in way %d", n, at, how);
  check_pair(c, a, b);
  check_pair(c, b, a);
  c.outcome(mc::strf("%zu %zu %d", n, at, how));
}
template <typename T> static void typed_scale(mc::Ctx &c)
{
  static const size_t lengths[] = {3, 4, 5, 8, 16, 31, 32, 33, 64, 100, 257};
  size_t n  = c.pick(lengths);
  size_t at = c.choose(int(n * sizeof(T))), less = c.choose(3);
  std::vector<T> a(n), b;
  for (size_t i = 0; i < n; ++i) a[i] = T(i * 0x0102030405060708ull);
  b = a;
  reinterpret_cast<unsigned char *>(b.data())[at] ^= 0x81;
  b.resize(n - less), b.shrink_to_fit();
  bool equal = a == b;
  MemSpan<T> x(a.data(), a.size()), y(b.data(), b.size());
  MC_CHECK(c, (x == y) == equal && (x != y) != equal, "equality of spans of %zu and %zu elements of %zu bytes that differ at byte %zu", n, n - less, sizeof(T), at);
  int o = order(std::string((char const *)a.data(), n * sizeof(T)), std::string((char const *)b.data(), b.size() * sizeof(T)));
  MC_CHECK(c, sign(memcmp(x, y)) == o, "memcmp of spans of %zu and %zu elements of %zu bytes that differ at byte %zu", n, n - less, sizeof(T), at);
  c.outcome(mc::strf("%zu %zu %zu %zu", sizeof(T), n, at, less));
}
MC_INPUTS(typed_scale, 2, "equality and memcmp of spans of 3..257 elements of 1, 2, 4 and 8 bytes that differ in each byte, and in length by up to 2")
{
  switch (c.choose(4)) {
  case 0: typed_scale<unsigned char>(c); break;
  case 1: typed_scale<uint16_t>(c); break;
  case 2: typed_scale<int32_t>(c); break;
  case 3: typed_scale<uint64_t>(c); break;
  }
}
