// C12: slicing and splitting of TextView against offsets into the original text.
#include "text_common.h"
#include <algorithm>
#include <swoc/TextView.h>

using swoc::TextView;
static constexpr size_t NP = TextView::npos;

struct Part {
  size_t off, len;
};
struct World {
  mc::Ctx &c;
  std::string base;
  Exact mem;
  TextView v;
  Part m;
  std::vector<size_t> sizes{0, 1, 2, 3, 4, 5, 6, 7, NP, NP - 1}; // to slice by
  World(mc::Ctx &ctx, std::string const &s) : c(ctx), base(s), mem(s), v(mem.data(), mem.n), m{0, s.size()} {}
  std::string text() const { return base.substr(m.off, m.len); }
  void same(TextView const &got, Part const &want, char const *what)
  {
    MC_CHECK(c, got.size() == want.len && (want.len == 0 || got.data() == mem.data() + want.off), "%s is '%s', expected '%s' at %zu", what,
             got.size() <= base.size() && (got.empty() || (got.data() >= mem.data() && got.data_end() <= mem.data() + base.size())) ? mc::show(std::string(got)).c_str() : "<outside>",
             mc::show(base.substr(want.off, want.len)).c_str(), want.off);
  }
};

// Delimiters: a character, a set of characters or a predicate.
struct Delim {
  int kind; // 0 char 1 set 2 predicate
  char ch;
  std::string_view set;
  int pred;
  bool operator()(char x) const
  {
    switch (kind) {
    case 0: return x == ch;
    case 1: return set.find(x) != set.npos;
    default: return pred == 0 ? x == ',' : pred == 1 ? isalpha((unsigned char)x) && x > 0 : pred == 2 ? true : pred == 3 ? false : x != ',';
    }
  }
};
static Delim choose_delim(mc::Ctx &c)
{
  static const char chars[] = {',', 'a', '\xC3', 'z', '\0'};
  static const std::string_view sets[] = {",", ";,", "", "\xC3" "a", "z\0"};
  int k = c.choose(15);
  return k < 5 ? Delim{0, chars[k], "", 0} : k < 10 ? Delim{1, 0, sets[k - 5], 0} : Delim{2, 0, "", k - 10};
}
static std::string show(Delim const &d) { return d.kind == 0 ? "char " + mc::show(&d.ch, 1) : d.kind == 1 ? "set " + mc::show(std::string(d.set)) : "pred " + std::to_string(d.pred); }

static size_t first(std::string const &s, Delim const &d)
{
  for (size_t i = 0; i < s.size(); ++i)
    if (d(s[i])) return i;
  return NP;
}
static size_t last(std::string const &s, Delim const &d)
{
  for (size_t i = s.size(); i-- > 0;)
    if (d(s[i])) return i;
  return NP;
}
#define BY(name)                                                                          \
  (d.kind == 0 ? w.v.name##_at(d.ch) : d.kind == 1 ? w.v.name##_at(d.set) : w.v.name##_if(d))

// One operation on the view.
static void op(World &w)
{
  auto &c       = w.c;
  std::string s = w.text();
  size_t n      = s.size();
  Part &m       = w.m;
  enum { PRE, SUF };
  auto part = [&](size_t off, size_t len) { return Part{m.off + off, len}; };
  int which = c.choose(18);
  if (which < 9) { // by size
    size_t k       = c.pick(w.sizes);
    bool as_int    = c.flag(); // the overloads for int
    int i          = k == NP ? -1 : k == NP - 1 ? -2 : int(k);
    size_t in      = std::min(k, n);
    switch (which) {
    case 0:
      c.note("prefix(%zd)", k);
      w.same(as_int ? w.v.prefix(i) : w.v.prefix(k), part(0, in), "prefix");
      break;
    case 1:
      c.note("suffix(%zd)", k);
      w.same(as_int ? w.v.suffix(i) : w.v.suffix(k), part(n - in, in), "suffix");
      break;
    case 2:
      c.note("remove_prefix(%zd)", k);
      if (as_int) w.same(w.v += k, part(in, n - in), "+=");
      else w.same(w.v.remove_prefix(k), part(in, n - in), "remove_prefix");
      m = part(in, n - in);
      break;
    case 3:
      c.note("remove_suffix(%zd)", k);
      w.same(w.v.remove_suffix(k), part(0, n - in), "remove_suffix");
      m = part(0, n - in);
      break;
    case 4: {
      c.note("split_prefix(%zd)", k);
      auto r = as_int ? w.v.split_prefix(i) : w.v.split_prefix(k);
      if (k < n) {
        w.same(r, part(0, k), "split_prefix");
        m = part(k + 1, n - k - 1);
      } else MC_CHECK(c, r.empty(), "split_prefix(%zu) of %zu is not empty", k, n);
    } break;
    case 5: {
      c.note("split_suffix(%zd)", k);
      auto r = as_int ? w.v.split_suffix(i) : w.v.split_suffix(k);
      if (k <= n) {
        w.same(r, part(n - k, k), "split_suffix");
        m = part(0, n - std::min(n, k + 1));
      } else MC_CHECK(c, r.empty(), "split_suffix(%zu) of %zu is not empty", k, n);
    } break;
    case 6: {
      c.note("take_prefix(%zd)", k);
      w.same(w.v.take_prefix(k), part(0, in), "take_prefix");
      size_t gone = std::min(in + 1, n);
      m           = part(gone, n - gone);
    } break;
    case 7: {
      c.note("take_suffix(%zd)", k);
      w.same(as_int ? w.v.take_suffix(i) : w.v.take_suffix(k), part(n - in, in), "take_suffix");
      m = part(0, n - std::min(in + 1, n));
    } break;
    case 8: {
      size_t pos = as_int ? 1 : c.pick(w.sizes);
      c.note("substr(%zd,%zd)", pos, k);
      auto r = w.v.substr(pos, k);
      if (pos >= n) MC_CHECK(c, r.empty(), "substr outside is not empty");
      else w.same(r, part(pos, std::min(k, n - pos)), "substr");
    } break;
    }
  } else if (which < 17) { // by delimiter
    Delim d   = choose_delim(c);
    size_t at = which < 13 ? first(s, d) : last(s, d);
    bool hit  = at != NP;
    c.note("operation %d with %s", which, show(d).c_str());
    switch (which) {
    case 9: {
      auto r = BY(prefix);
      if (hit) w.same(r, part(0, at), "prefix by delimiter");
      else MC_CHECK(c, r.empty(), "prefix without delimiter is not empty");
    } break;
    case 10: {
      w.same(BY(remove_prefix), hit ? part(at + 1, n - at - 1) : m, "remove_prefix by delimiter");
      if (hit) m = part(at + 1, n - at - 1);
    } break;
    case 11: {
      auto r = BY(split_prefix);
      if (hit) {
        w.same(r, part(0, at), "split_prefix by delimiter");
        m = part(at + 1, n - at - 1);
      } else MC_CHECK(c, r.empty(), "split_prefix without delimiter is not empty");
    } break;
    case 12: {
      auto r = BY(take_prefix);
      w.same(r, hit ? part(0, at) : m, "take_prefix by delimiter");
      m = hit ? part(at + 1, n - at - 1) : part(n, 0);
    } break;
    case 13: {
      auto r = BY(suffix);
      if (hit) w.same(r, part(at + 1, n - at - 1), "suffix by delimiter");
      else MC_CHECK(c, r.empty(), "suffix without delimiter is not empty");
    } break;
    case 14: {
      w.same(BY(remove_suffix), hit ? part(0, at) : part(0, 0), "remove_suffix by delimiter");
      m = hit ? part(0, at) : part(0, 0);
    } break;
    case 15: {
      auto r = BY(split_suffix);
      if (hit) {
        w.same(r, part(at + 1, n - at - 1), "split_suffix by delimiter");
        m = part(0, at);
      } else MC_CHECK(c, r.empty(), "split_suffix without delimiter is not empty");
    } break;
    case 16: {
      auto r = BY(take_suffix);
      w.same(r, hit ? part(at + 1, n - at - 1) : m, "take_suffix by delimiter");
      m = hit ? part(0, at) : part(0, 0);
    } break;
    }
  } else { // by run, and the iteration operators
    int k = c.choose(5);
    c.note("clip or iterate %d", k);
    if (k < 2) {
      Delim d{2, 0, "", c.choose(5)};
      size_t run = 0;
      if (k == 0) {
        while (run < n && d(s[run])) ++run;
        w.same(w.v.clip_prefix_of(d), part(0, run), "clip_prefix_of");
        m = part(run, n - run);
      } else {
        while (run < n && d(s[n - 1 - run])) ++run;
        w.same(w.v.clip_suffix_of(d), part(n - run, run), "clip_suffix_of");
        m = part(0, n - run);
      }
    } else if (k == 2) {
      MC_CHECK(c, *w.v == (n ? s[0] : '\0'), "dereference");
      w.same(++w.v, part(n ? 1 : 0, n ? n - 1 : 0), "pre increment");
      if (n) m = part(1, n - 1);
    } else if (k == 3) {
      w.same(w.v++, m, "post increment");
      if (n) m = part(1, n - 1);
    } else {
      MC_CHECK(c, w.v.clear().empty() && w.v.size() == 0, "clear");
      m = part(0, 0);
    }
  }
  w.same(w.v, m, "remaining view");
  MC_CHECK(c, w.v.empty() == (m.len == 0) && bool(w.v) == (m.len > 0) && !w.v == (m.len == 0), "emptiness");
  MC_CHECK(c, w.v.data_end() == w.v.data() + w.v.size(), "data_end");
}

MC_HISTORIES(single, 4, "every operation on every text of up to 5 (6) characters out of comma, semicolon, letter and a high byte")
{
  World w(c, choose_text(c, c.thorough ? 6 : 5, ",;a\xC3"));
  op(w);
  c.step();
  c.state(w.base + "|" + std::to_string(w.m.off) + "," + std::to_string(w.m.len));
}

MC_HISTORIES(chains, 4, "every sequence of 3 (4) operations on every text of up to 4 (5) characters out of comma and letter")
{
  World w(c, choose_text(c, c.thorough ? 5 : 4, ",a"));
  int depth = c.thorough ? 4 : 3;
  for (int i = 0; i < depth; ++i) {
    op(w);
    c.step();
    std::string canon = w.base + "|" + std::to_string(w.m.off) + "," + std::to_string(w.m.len) + "," + std::to_string(w.v.data() == nullptr);
    c.state(canon);
    c.prune(canon, depth - 1 - i);
  }
}

MC_INPUTS(null_view, 2, "every operation on a view of no memory")
{
  World w(c, "");
  w.v = TextView{nullptr};
  op(w);
  c.outcome(std::to_string(w.c.sh->choice[0]));
}

MC_INPUTS(construct, 3, "every way to make a view of every text of up to 4 (5) characters without null")
{
  std::string s = choose_text(c, c.thorough ? 5 : 4, ",a\xC3");
  Exact mem(s);
  std::string z0 = s + '\0';
  Exact cstr(z0); // with terminator
  char const *p = cstr.data();
  char *q       = const_cast<char *>(p);
  char const *lit;
  TextView v{"old"};
  auto same = [&](TextView const &got, char const *at, char const *what) {
    MC_CHECK(c, got.size() == s.size() && (s.empty() || got.data() == at) && std::string(got) == s, "%s gives '%s', expected '%s'", what, mc::show(std::string(got)).c_str(), mc::show(s).c_str());
  };
  char const *b = mem.data();
  size_t n      = s.size();
  same(TextView(b, n), b, "pointer and size_t");
  same(TextView(b, unsigned(n)), b, "pointer and unsigned");
  same(TextView(b, ssize_t(n)), b, "pointer and ssize_t");
  same(TextView(b, int(n)), b, "pointer and int");
  same(TextView(p, TextView::npos), p, "C string and npos");
  same(TextView(p, ssize_t(-1)), p, "C string and ssize_t -1");
  same(TextView(p, int(-1)), p, "C string and int -1");
  same(TextView(b, b + n), b, "two pointers");
  same(TextView(p), p, "C string");
  same(TextView(q), p, "non-const C string");
  same(TextView(s), s.data(), "std::string");
  same(TextView(std::string_view(b, n)), b, "string_view");
  std::vector<char> vec(s.begin(), s.end());
  same(TextView(vec), vec.data(), "container");
  std::string_view const other{"other text"};
  v = other, v = std::string_view(b, n), same(v, b, "= string_view");
  v = other, v = s, same(v, s.data(), "= string");
  v = other, v = p, same(v, p, "= C string");
  v = other, v = q, same(v, p, "= non-const C string");
  v = other, same(v.assign(p), p, "assign C string");
  v = other, same(v.assign(q), p, "assign non-const C string");
  v = other, same(v.assign(b, n), b, "assign pointer and size");
  v = other, same(v.assign(p, TextView::npos), p, "assign C string and npos");
  v = other, same(v.assign(b, b + n), b, "assign pointers");
  v = other, same(v.assign(s), s.data(), "assign string");
  v = other, same(v.assign(vec), vec.data(), "assign container");
  // arrays with and without terminator
  char with[4] = {0}, without[3] = {0};
  if (n == 3) {
    memcpy(with, b, 3), memcpy(without, b, 3);
    same(TextView(const_cast<char const(&)[4]>(with)), with, "terminated array");
    same(TextView(const_cast<char const(&)[3]>(without)), without, "array without terminator");
    v = other, v = const_cast<char const(&)[4]>(with), same(v, with, "= terminated array");
    v = other, same(v.assign(const_cast<char const(&)[4]>(with)), with, "assign terminated array");
    v = other, same(v.assign(const_cast<char const(&)[3]>(without)), without, "assign array without terminator");
  }
  lit = nullptr;
  MC_CHECK(c, TextView(lit).empty() && TextView(nullptr).empty() && TextView().empty() && TextView(lit, 0).empty() && TextView(lit, -1).empty() && TextView(lit, TextView::npos).empty(), "view of nullptr");
  c.outcome(s);
}

MC_INPUTS(octets, 1, "every pair of octets, one of them the delimiter between and around the other, as character, set and predicate")
{
  int x = c.choose(256);
  for (int y = 0; y < 256; ++y) {
    if (x == y) continue;
    char const d = char(x), o = char(y);
    std::string const base{o, d, o, d, o};
    Exact m(base);
    for (int kind = 0; kind < 4; ++kind) {
      std::string const set  = kind == 1 ? std::string(1, d) : std::string{'\x81', d, d, '\x7F'};
      bool const both        = kind == 2 && (o == '\x81' || o == '\x7F'); // both are delimiters
      if (both) continue;
      auto pred  = [=](char t) { return t == d; };
      auto check = [&](char const *what, TextView const &got, size_t off, size_t n, TextView const &left, size_t loff, size_t ln) {
        MC_CHECK(c, got.data() == m.data() + off && got.size() == n && left.size() == ln && (ln == 0 || left.data() == m.data() + loff), "%s of %s by octet %02x in way %d is '%s' and leaves '%s'", what,
                 mc::show(base).c_str(), x, kind, mc::show(std::string(got)).c_str(), mc::show(std::string(left)).c_str());
      };
#define WAY(name) (kind == 3 ? v.name##_if(pred) : kind == 0 ? v.name##_at(d) : v.name##_at(std::string_view(set)))
      TextView const v0(m.data(), m.n);
      TextView v = v0, t;
      t = WAY(prefix);
      check("prefix", t, 0, 1, v, 0, 5);
      t = WAY(suffix);
      check("suffix", t, 4, 1, v, 0, 5);
      t = WAY(take_prefix);
      check("take_prefix", t, 0, 1, v, 2, 3);
      v = v0;
      t = WAY(take_suffix);
      check("take_suffix", t, 4, 1, v, 0, 3);
      v = v0;
      t = WAY(split_prefix);
      check("split_prefix", t, 0, 1, v, 2, 3);
      v = v0;
      t = WAY(split_suffix);
      check("split_suffix", t, 4, 1, v, 0, 3);
      v = v0;
      t = WAY(remove_prefix);
      check("remove_prefix", t, 2, 3, v, 2, 3);
      v = v0;
      t = WAY(remove_suffix);
      check("remove_suffix", t, 0, 3, v, 0, 3);
#undef WAY
    }
    // tokens
    TextView v(m.data(), m.n);
    for (int i = 0; i < 3; ++i) {
      TextView t = v.take_prefix_at(d);
      MC_CHECK(c, t.size() == 1 && t.data() == m.data() + 2 * i, "token %d of %s by octet %02x is '%s'", i, mc::show(base).c_str(), x, mc::show(std::string(t)).c_str());
    }
    MC_CHECK(c, v.empty(), "text is left after all tokens of %s", mc::show(base).c_str());
  }
  c.outcome(std::to_string(x));
}
MC_INPUTS(scale, 3, "every operation on texts of 15..70000 characters with a delimiter at each place of a grid, or two, or at every 7th place, sliced by sizes around powers of two")
{
  static const size_t lengths[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 65535, 65536, 70000};
  size_t n = c.pick(lengths);
  size_t const spots[] = {0, 1, 7, 8, 15, 16, n / 2, n - 17, n - 16, n - 8, n - 2, n - 1, 31, 32, 63, 64, 127, 128, 255, 256};
  int k = c.choose(23);
  std::string s(n, 'b');
  if (k < 20) {
    if (spots[k] >= n) c.skip();
    s[spots[k]] = ',';
  } else if (k == 21) {
    s[n / 3] = ',', s[n - n / 3] = ';';
  } else if (k == 22) {
    for (size_t i = 0; i < n; i += 7) s[i] = i % 2 ? ',' : '\xC3';
  }
  World w(c, s);
  w.sizes = {0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 65535, 65536, n / 2, n - 2, n - 1, n, n + 1, NP, NP - 1};
  c.note("%zu characters, delimiters in arrangement %d", n, k);
  op(w);
  c.step();
  c.outcome(mc::strf("%zu %d %zu %zu", n, k, w.m.off, w.m.len));
}
