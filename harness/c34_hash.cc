// C34: FNV hashes and transformed views.
#include "text_common.h"
#include <functional>
#include <swoc/TextView.h>
#include <swoc/MemSpan.h>
#include <swoc/bwf_base.h>
#include <swoc/ext/HashFNV.h>

using std::string;
using std::string_view;
using swoc::TextView;
using swoc::transform_view_of;

static string_view const CHARS("\0aZ\x7f\x80\xff ", 7);

static uint32_t fnv32(string const &s)
{
  uint32_t h = 2166136261u;
  for (unsigned char x : s) h = (h ^ x) * 16777619u;
  return h;
}
static uint64_t fnv64(string const &s)
{
  uint64_t h = 14695981039346656037ull;
  for (unsigned char x : s) h = (h ^ x) * 1099511628211ull;
  return h;
}
template <typename H, typename F> static void hashed(mc::Ctx &c, string const &s, F &&oracle, char const *what)
{
  Exact m(s);
  auto want = oracle(s);
  string t  = mc::show(s);
  auto is   = [&](typename H::value_type got, string_view how) {
    MC_CHECK(c, got == want, "%s of %s %s is %llx, expected %llx", what, t.c_str(), string(how).c_str(), (unsigned long long)got, (unsigned long long)want);
  };
  is(H().hash_immediate(m.sv()), "at once");
  is(H().update(m.sv()).get(), "by update");
  is(H().update(m.sv()).final().get(), "after final");
  is(H().hash_immediate(transform_view_of(m.sv())), "of an unchanged view");
  is(H().update(transform_view_of(TextView(m.sv()))).get(), "of an unchanged text view");
  for (size_t i = 0; i <= s.size(); ++i) {
    for (size_t j = i; j <= s.size(); ++j) {
      H h;
      is(h.update(m.sv().substr(0, i)).update(m.sv().substr(i, j - i)).update(m.sv().substr(j)).get(), "in parts");
      H k;
      k.update(m.sv().substr(0, i));
      H l(k);
      l.update("other");
      is(k.update(transform_view_of(m.sv().substr(i, j - i))).hash_immediate(m.sv().substr(j)), "in parts");
      H n;
      n.update(m.sv().substr(0, i));
      is(n.update(m.sv().substr(i, j - i)).hash_immediate(transform_view_of(m.sv().substr(j))), "in parts, the last one transformed");
      is(n.get(), "in parts, the last one transformed, and then read");
    }
  }
  H h;
  h.update("something").final();
  MC_CHECK(c, &h.clear() == &h, "clear returns another object");
  is(h.update(m.sv()).get(), "after clear");
  // transformed characters
  auto plus      = [](char x) { return char(x + 1); };
  auto upper     = [](char x) -> int { return toupper(static_cast<unsigned char>(x)); };
  auto same      = [](char const &x) -> char const & { return x; };
  string p, u;
  for (char x : s) p += char(x + 1), u += char(toupper(static_cast<unsigned char>(x)));
  auto also = [&](typename H::value_type got, string const &text, char const *how) {
    MC_CHECK(c, got == oracle(text), "%s of %s %s is %llx, expected %llx", what, t.c_str(), how, (unsigned long long)got, (unsigned long long)oracle(text));
  };
  also(H().hash_immediate(transform_view_of(plus, m.sv())), p, "with a transformation");
  also(H().update(transform_view_of(plus, m.sv())).get(), p, "with a transformation");
  also(H().hash_immediate(transform_view_of(upper, TextView(m.sv()))), u, "in upper case");
  also(H().update(transform_view_of(upper, m.sv())).update(m.sv()).get(), u + s, "in upper case, then as is");
  also(H().hash_immediate(transform_view_of(same, m.sv())), s, "with a transformation to references");
}
MC_INPUTS(hashes, 2, "all texts of up to 5 (6) characters out of NUL, letters, space, 127, 128 and 255: 32 and 64 bit FNV-1a at once, in all parts, transformed")
{
  string s = choose_text(c, c.thorough ? 6 : 5, CHARS);
  hashed<swoc::Hash32FNV1a>(c, s, fnv32, "32 bit hash");
  hashed<swoc::Hash64FNV1a>(c, s, fnv64, "64 bit hash");
  c.outcome(s);
}
MC_INPUTS(bytes, 1, "all texts of two bytes, published values")
{
  int a = c.choose(256);
  for (int b = 0; b < 256; ++b) {
    string s{char(a), char(b)};
    MC_CHECK(c, swoc::Hash32FNV1a().hash_immediate(s) == fnv32(s), "32 bit hash of %s is %x", mc::show(s).c_str(), swoc::Hash32FNV1a().hash_immediate(s));
    MC_CHECK(c, swoc::Hash64FNV1a().hash_immediate(s) == fnv64(s), "64 bit hash of %s", mc::show(s).c_str());
  }
  struct {
    char const *s;
    uint32_t h;
    uint64_t g;
  } static const V[] = {{"", 0x811c9dc5u, 0xcbf29ce484222325ull},      {"a", 0xe40c292cu, 0xaf63dc4c8601ec8cull},  {"foobar", 0xbf9cf968u, 0x85944171f73967e8ull},
                        {"foob", 0x3f5076efu, 0xdd120e790c2512afull},  {"fooba", 0x39aaa18au, 0xcac165afa2fef40aull}};
  for (auto &v : V) {
    MC_CHECK(c, swoc::Hash32FNV1a().hash_immediate(string_view(v.s)) == v.h && fnv32(v.s) == v.h, "32 bit hash of '%s'", v.s);
    MC_CHECK(c, swoc::Hash64FNV1a().hash_immediate(string_view(v.s)) == v.g && fnv64(v.s) == v.g, "64 bit hash of '%s'", v.s);
  }
  c.outcome(std::to_string(a));
}

// --- transformed views

template <typename View, typename T> static string walk(mc::Ctx &c, View v, std::vector<T> const &want, int how)
{
  string seen;
  size_t i = 0;
  auto at  = [&](T x) {
    MC_CHECK(c, i < want.size() && x == want[i], "element %zu of a transformed view of %zu", i, want.size());
    ++i;
  };
  switch (how) {
  case 0:
    for (; v; ++v) {
      MC_CHECK(c, !v.empty(), "view is empty");
      at(*v);
    }
    break;
  case 1:
    while (!v.empty()) {
      View w(v);
      View o = v++;
      MC_CHECK(c, o == w && !(o != w) && v != w && !(v == w), "increment of a transformed view");
      at(*o);
    }
    break;
  case 2:
    for (auto x : v) at(static_cast<T>(x));
    break;
  case 3:
    for (auto p = v.begin(), e = v.end(); p != e; p++) at(*p);
    break;
  default:
    for (auto p = v.begin(), e = v.end(); !(p == e); ++p) {
      View x(v), y(p);
      if constexpr (std::is_copy_assignable_v<View>) { // not for lambdas
        x = p;
        MC_CHECK(c, x == y && *x == *y, "copy of a transformed view");
        y = std::move(x);
      }
      View z(std::move(y));
      at(*z);
    }
  }
  MC_CHECK(c, i == want.size(), "transformed view ends after %zu of %zu elements", i, want.size());
  return seen;
}
MC_INPUTS(views, 2, "all texts of up to 5 (6) characters, 5 ways of iteration, 6 transformations, 3 kinds of source; printed")
{
  string s = choose_text(c, c.thorough ? 6 : 5, string_view("\0aZ\xff.", 5));
  Exact m(s);
  int calls  = 0;
  auto count = [&calls](char x) { return ++calls, x; };
  auto plus  = [](char x) { return char(x + 1); };
  auto wide  = [](char x) -> unsigned { return 1000u + static_cast<unsigned char>(x); };
  auto test  = [](char x) { return x == 'a'; };
  std::function<char(char)> fn = [](char x) { return char(x ^ 0x20); };
  std::vector<char> same(s.begin(), s.end()), p, f;
  std::vector<unsigned> w;
  std::vector<bool> b;
  std::vector<int> low;
  for (char x : s) p.push_back(plus(x)), f.push_back(fn(x)), w.push_back(wide(x)), b.push_back(test(x)), low.push_back(tolower(x));
  for (int how = 0; how < 5; ++how) {
    walk(c, transform_view_of(m.sv()), same, how);
    walk(c, transform_view_of(TextView(m.sv())), same, how);
    walk(c, transform_view_of(count, m.sv()), same, how);
    walk(c, transform_view_of(plus, m.sv()), p, how);
    walk(c, transform_view_of(plus, TextView(m.sv())), p, how);
    walk(c, transform_view_of(plus, swoc::MemSpan<char const>(m.sv())), p, how);
    walk(c, transform_view_of(wide, m.sv()), w, how);
    walk(c, transform_view_of(fn, m.sv()), f, how);
    walk(c, transform_view_of(&tolower, m.sv()), low, how);
    std::vector<bool> const &bb = b;
    walk(c, transform_view_of(test, m.sv()), bb, how);
  }
  calls = 0;
  string seen;
  for (auto v = transform_view_of(count, m.sv()); v; ++v) seen += *v;
  MC_CHECK(c, calls == int(s.size()) && seen == s, "transformation is called %d times for %zu elements", calls, s.size());
  swoc::LocalBufferWriter<40> out;
  out.write('[');
  bwformat(out, swoc::bwf::Spec::DEFAULT, transform_view_of(plus, m.sv())).write('|');
  bwformat(out, swoc::bwf::Spec::DEFAULT, transform_view_of(m.sv())).write(']');
  MC_CHECK(c, out.view() == "[" + string(p.begin(), p.end()) + "|" + s + "]", "transformed %s is printed as %s", mc::show(s).c_str(), mc::show(out.view()).c_str());
  c.outcome(s);
}
MC_INPUTS(scale, 1, "hashes and transformed views of texts of all lengths up to 300 and long ones")
{
  int k = c.choose(310), kind = c.choose(4);
  static int const MORE[] = {511, 512, 1000, 1023, 1024, 4095, 4096, 65535, 70000};
  int n = k <= 300 ? k : MORE[k - 301];
  string s(n, '\0');
  for (int i = 0; i < n; ++i) s[i] = kind == 0 ? '\0' : kind == 1 ? '\xff' : kind == 2 ? char(i) : char(i * 37 >> (i % 5));
  c.note("text of %d, kind %d", n, kind);
  Exact m(s);
  auto plus = [](char x) { return char(x + 1); };
  string p;
  for (char x : s) p += plus(x);
  auto is = [&](auto h, auto want, char const *what) { MC_CHECK(c, h == want, "%s of a text of %d is %llx, expected %llx", what, n, (unsigned long long)h, (unsigned long long)want); };
  auto all = [&](auto make, auto oracle, char const *what) {
    is(make().hash_immediate(m.sv()), oracle(s), what);
    is(make().hash_immediate(transform_view_of(m.sv())), oracle(s), what);
    is(make().update(transform_view_of(plus, m.sv())).final().get(), oracle(p), what);
    for (int piece : {1, 3, 16, 64, 255, 256, 1000}) {
      auto h = make();
      for (int i = 0; i < n; i += piece) {
        if (i / piece % 2) h.update(m.sv().substr(i, piece));
        else h.update(transform_view_of(m.sv().substr(i, piece)));
      }
      is(h.get(), oracle(s), what);
    }
  };
  all([] { return swoc::Hash32FNV1a(); }, fnv32, "32 bit hash");
  all([] { return swoc::Hash64FNV1a(); }, fnv64, "64 bit hash");
  std::vector<char> same(s.begin(), s.end()), pv(p.begin(), p.end());
  for (int how = 0; how < 5; ++how) {
    walk(c, transform_view_of(m.sv()), same, how);
    walk(c, transform_view_of(plus, TextView(m.sv())), pv, how);
  }
  string out(2 * n + 1, '?');
  swoc::FixedBufferWriter w(out.data(), out.size());
  bwformat(bwformat(w, swoc::bwf::Spec::DEFAULT, transform_view_of(plus, m.sv())).write('|'), swoc::bwf::Spec::DEFAULT, transform_view_of(m.sv()));
  MC_CHECK(c, out == p + "|" + s && w.extent() == out.size(), "transformed text of %d is printed as %zu characters", n, w.extent());
  c.outcome(mc::strf("%d %d", n, kind));
}
