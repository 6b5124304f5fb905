// C31: path text.
#include "text_common.h"
#include <swoc/swoc_file.h>
#include <swoc/BufferWriter.h>
#include <swoc/bwf_base.h>
#include <unordered_map>

using swoc::file::path;
using std::string;
using std::string_view;

static string_view const CHARS("/ab. \0-", 7);

static string join(string const &a, string const &b)
{
  if (b.empty()) return a;
  if (b[0] == '/' || a.empty()) return b;
  return a.back() == '/' ? a + b : a + "/" + b;
}
static void is(mc::Ctx &c, path const &p, string const &s, char const *what)
{
  MC_CHECK(c, p.string() == s && p.view() == s && p.view().size() == s.size() && memcmp(p.c_str(), s.c_str(), s.size() + 1) == 0 && p.empty() == s.empty(), "%s is %s, expected %s", what,
           mc::show(p.string()).c_str(), mc::show(s).c_str());
  bool abs = !s.empty() && s[0] == '/';
  MC_CHECK(c, p.is_absolute() == abs && p.is_relative() == !abs, "%s: %s absolute %d, relative %d", what, mc::show(s).c_str(), p.is_absolute(), p.is_relative());
}
template <typename... A> static string text_of(string_view fmt, A const &...a)
{
  swoc::LocalBufferWriter<300> w;
  w.print(fmt, a...);
  return string(w.view());
}

static void all_parts(mc::Ctx &c, string const &s)
{
  Exact m(s);
  bool nul = s.find('\0') != string::npos;
  is(c, path(m.sv()), s, "path made from a view");
  is(c, path(s), s, "path made from a string");
  is(c, path(string(s)), s, "path made from a temporary string");
  path p(m.sv()), q(p), r(std::move(q)), a, b("/x/longer than the small string optimization of any library"), d(b), e(b), f(b), g(b);
  is(c, a, "", "default path");
  is(c, r, s, "moved path");
  is(c, p, s, "copied path");
  a = p;
  is(c, a, s, "path assigned a path");
  b = m.sv();
  is(c, b, s, "path assigned a view");
  d = s;
  is(c, d, s, "path assigned a string");
  e = string(s);
  is(c, e, s, "path assigned a temporary string");
  f = std::move(r);
  is(c, f, s, "path moved to");
  if (!nul) {
    g = s.c_str();
    is(c, g, s, "path assigned a C string");
    is(c, path(s.c_str()), s, "path made from a C string");
  }
  p = *&p;
  is(c, p, s, "path assigned to itself");
  is(c, p.reserve(100), s, "path with space reserved");
  p.reserve(0);
  is(c, p, s, "path with space reserved");
  // parts
  size_t k      = s.rfind('/');
  string parent = k == string::npos ? "" : k == 0 ? "/" : s.substr(0, k);
  string name   = k == string::npos ? s : s.substr(k + 1);
  size_t z      = s.find_first_not_of('/');
  string rel    = z == string::npos ? "" : s.substr(z);
  is(c, p.parent_path(), parent, "parent");
  is(c, p.filename(), name, "file name");
  is(c, p.relative_path(), rel, "relative path");
  is(c, p, s, "path after taking parts");
  MC_CHECK(c, p.relative_path().is_relative() && p.filename().is_relative(), "relative path or file name of %s is absolute", mc::show(s).c_str());
  MC_CHECK(c, text_of("{}", p) == s, "path %s is printed as %s", mc::show(s).c_str(), mc::show(text_of("{}", p)).c_str());
  MC_CHECK(c, text_of("{:>9}", p) == string(s.size() < 9 ? 9 - s.size() : 0, ' ') + s && text_of("{:-<9}", p) == s + string(s.size() < 9 ? 9 - s.size() : 0, '-') && text_of("{:,3}", p) == s.substr(0, 3),
           "path %s with width or limit is printed as %s %s %s", mc::show(s).c_str(), mc::show(text_of("{:>9}", p)).c_str(), mc::show(text_of("{:-<9}", p)).c_str(),
           mc::show(text_of("{:,3}", p)).c_str());
  // parts of the path appended to it
  for (size_t i = 0; i <= s.size(); ++i) {
    for (size_t n = 0; i + n <= s.size(); ++n) {
      for (int space = 0; space < 3; ++space) {
        path x(s);
        if (space) x.reserve(space == 1 ? 16 : 64);
        x /= x.view().substr(i, n);
        is(c, x, join(s, s.substr(i, n)), "path with a part of it appended");
      }
    }
  }
  path x(s), y(s + "/0123456789012345678901234567890123456789");
  x /= x;
  is(c, x, join(s, s), "path appended to itself");
  string ys = y.string();
  y /= y;
  is(c, y, join(ys, ys), "long path appended to itself");
  string xs = x.string();
  x = x / x;
  is(c, x, join(xs, xs), "path appended to itself");
  c.outcome(s);
}
MC_INPUTS(texts, 3, "all texts of up to 6 (7) characters of separator, letters, dot, space, NUL and dash: construction, assignment, parts, text")
{
  all_parts(c, choose_text(c, c.thorough ? 7 : 6, CHARS));
}
MC_INPUTS(bytes_in_place, 1, "all bytes at every place of 8 paths")
{
  static char const *const BASE[] = {"", "/", "a/b", "/usr/lib", "x//y", "a/.", "tail/", "ab"};
  string b(BASE[c.choose(8)]);
  char x = char(c.choose(256));
  for (size_t i = 0; i <= b.size(); ++i) {
    string s = b;
    all_parts(c, s.insert(i, 1, x));
    if (i < b.size()) all_parts(c, (s = b).replace(i, 1, 1, x));
    path p(b);
    p /= string_view(&x, 1);
    is(c, p, join(b, string(1, x)), "path with a byte appended");
    is(c, path(b) / string_view(string(1, x) + "z"), join(b, string(1, x) + "z"), "path with a byte and a letter appended");
  }
  c.outcome(b + "|" + x);
}
MC_INPUTS(joins, 3, "all pairs of texts of up to 4 and 3 (5 and 4) characters of separator, letters, dot and NUL: joined in every way, compared")
{
  string_view chars("/a.\0", 4);
  string a = choose_text(c, c.thorough ? 5 : 4, chars), b = choose_text(c, c.thorough ? 4 : 3, chars);
  string want = join(a, b);
  Exact m(b);
  path const p(a), q(b);
  is(c, p / q, want, "path / path");
  is(c, p / m.sv(), want, "path / view");
  is(c, path(a) / q, want, "temporary / path");
  is(c, path(a) / m.sv(), want, "temporary / view");
  path x(p), y(p), z(p);
  MC_CHECK(c, &(x /= q) == &x && &(y /= m.sv()) == &y, "result of /= is another object");
  is(c, x, want, "path /= path");
  is(c, y, want, "path /= view");
  z.reserve(50);
  z /= q;
  is(c, z, want, "path with reserved space /= path");
  is(c, p, a, "left operand");
  is(c, q, b, "right operand");
  MC_CHECK(c, (p == q) == (a == b) && (p != q) == (a != b) && (x == p) == (want == a), "comparison of %s and %s", mc::show(a).c_str(), mc::show(b).c_str());
  MC_CHECK(c, a != b || std::hash<path>()(p) == std::hash<path>()(q), "hash of %s", mc::show(a).c_str());
  std::unordered_map<path, int> map;
  map[p] = 1;
  map[q] = 2;
  map[x] = 3;
  size_t different = 1 + (a != b) + (want != a && want != b);
  MC_CHECK(c, map.size() == different && map.at(path(want)) == 3 && map.at(p) == (want == a ? 3 : a == b ? 2 : 1), "%s and %s as keys", mc::show(a).c_str(), mc::show(b).c_str());
  // decomposing and joining again
  if (b.find('/') == string::npos && !b.empty() && !a.empty() && (a.size() < 2 || a.substr(a.size() - 2) != "//")) {
    path j = p / q;
    MC_CHECK(c, j.filename() == q, "file name of joined %s", mc::show(want).c_str());
    MC_CHECK(c, j.parent_path() / j.filename() == j, "%s is not its parent and file name", mc::show(want).c_str());
  }
  for (auto t : {"", "c", "/c", "./", "//"}) {
    path l = (p / q) / string_view(t), s(p);
    s /= q;
    s /= path(t);
    is(c, l, join(want, t), "three paths joined");
    is(c, s, join(want, t), "three paths joined");
  }
  c.outcome(a + "\1" + b);
}
MC_INPUTS(words, 2, "all paths of up to 6 (8) components out of names, dots and empty names, absolute and relative, joined component by component")
{
  static char const *const W[] = {"usr", ".", "..", "", "x", "a much longer name than others", "..."};
  string s;
  path p;
  if (c.flag()) s = "/", p = "/";
  std::vector<string> names;
  int n = c.choose(c.thorough ? 9 : 7);
  for (int i = 0; i < n; ++i) {
    string w = W[c.choose(7)];
    s = join(s, w);
    p /= string_view(w);
    is(c, p, s, "joined components");
    if (!w.empty()) names.push_back(w);
  }
  // taken apart again
  path x = p;
  for (size_t i = names.size(); i--; ) {
    is(c, x.filename(), names[i], "last component");
    x = x.parent_path();
  }
  is(c, x, s[0] == '/' ? "/" : "", "ancestor");
  c.outcome(s);
}
MC_INPUTS(scale, 2, "long components and many of them, joined, appended in place, taken apart and printed")
{
  static int const LENGTH[] = {0, 1, 15, 16, 127, 255, 256, 1024, 5000}, COUNT[] = {1, 2, 10, 100, 700};
  int a = c.pick(LENGTH), b = c.pick(LENGTH), n = c.pick(COUNT), how = c.choose(4);
  bool abs = c.flag(), slash = c.flag();
  if (long(a + b + 2) * n > 60000) return c.skip();
  c.note("%d components of %d and %d characters", n, a, b);
  string s = abs ? "/" : "";
  path p(s);
  std::vector<string> names;
  for (int i = 0; i < n; ++i) {
    string w(i % 2 ? b : a, char('a' + i % 26));
    s = join(s, w);
    if (!w.empty()) names.push_back(w);
    Exact x(w);
    if (how == 0) p /= x.sv();
    else if (how == 1) p /= path(x.sv());
    else if (how == 2) p = p / path(w);
    else p = path(p.view()) / x.sv();
  }
  is(c, p, s, "joined components");
  string tail = slash ? "/" : "";
  {
    path q(s + tail), r;
    r = string_view(s + tail);
    is(c, q, s + tail, "long path");
    is(c, r, s + tail, "long path assigned");
    MC_CHECK(c, q == r && std::hash<path>()(q) == std::hash<path>()(r) && (q == p) == !slash, "long paths compare differently");
    is(c, q.parent_path(), slash ? (s == "" ? "/" : s) : names.empty() ? (abs ? "/" : "") : s.substr(0, s.rfind('/') == string::npos ? 0 : std::max<size_t>(s.rfind('/'), abs && s.rfind('/') == 0)), "parent of a long path");
    is(c, q.filename(), slash ? "" : names.empty() ? "" : names.back(), "name of a long path");
    string big = q.string();
    q /= q;
    is(c, q, join(big, big), "long path appended to itself");
    q /= q.view().substr(q.view().size() / 3);
    string twice = join(big, big);
    is(c, q, join(twice, twice.substr(twice.size() / 3)), "long path with a part of it appended");
    string out;
    swoc::bwprint(out, "<{}>", r);
    MC_CHECK(c, out == "<" + r.string() + ">", "long path of %zu is printed as %zu characters", r.string().size(), out.size());
  }
  path x = p;
  for (size_t i = names.size(); i-- && i + 60 > names.size();) {
    is(c, x.filename(), names[i], "last component");
    x = x.parent_path();
  }
  c.outcome(mc::strf("%d %d %d %d %d %d", a, b, n, how, abs, slash));
}
