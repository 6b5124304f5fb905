// C17: slicing, re-typing, alignment, copying and construction of memory spans.
#include "text_common.h"
#include <array>
#include <swoc/MemSpan.h>
#include <swoc/TextView.h>

using swoc::MemSpan;
static constexpr size_t BIG = ~size_t(0);

struct T3 { // element whose size is not a power of two
  unsigned char b[3];
  bool operator==(T3 const &t) const { return !memcmp(b, t.b, 3); }
};
template <typename T> static T value(int i)
{
  T t;
  memset((void *)&t, 0x40 + 7 * i, sizeof t);
  return t;
}
// n elements in storage of exact size
template <typename T> struct Cells {
  std::unique_ptr<T[]> mem;
  size_t n;
  explicit Cells(size_t k, int seed = 0) : mem(new T[k ? k : 1]), n(k)
  {
    for (size_t i = 0; i < (n ? n : 1); ++i) mem[i] = value<T>(seed + int(i));
  }
  T *data() { return n ? mem.get() : mem.get() + 1; }
};

// ---- slicing ----
template <typename S, typename P> static void same(mc::Ctx &c, S const &got, P *base, size_t unit, size_t b, size_t e, char const *what)
{
  auto at = reinterpret_cast<char const *>(got.data()) - reinterpret_cast<char const *>(base);
  MC_CHECK(c, got.size() == e - b && (b == e || size_t(at) == b * unit), "%s is [%td bytes, %zu), expected [%zu,%zu) of %zu byte elements", what, at, got.size(), b, e, unit);
  MC_CHECK(c, got.count() == got.size() && got.length() == got.size() && got.data_size() == unit * got.size(), "%s: counts %zu %zu %zu of %zu", what, got.count(), got.length(), got.data_size(), got.size());
  MC_CHECK(c, got.empty() == (b == e) && !got == (b == e) && bool(got) == (b != e), "%s: empty %d", what, got.empty());
  if (b != e) MC_CHECK(c, reinterpret_cast<char const *>(got.data_end()) - reinterpret_cast<char const *>(base) == ptrdiff_t(e * unit), "%s: end", what);
}

template <typename T> struct is_void : std::is_void<T> {};

template <typename T> static void slice_history(mc::Ctx &c, int depth, bool large = false)
{
  using E         = std::conditional_t<std::is_void_v<T>, unsigned char, std::remove_const_t<T>>;
  constexpr bool typed = !std::is_void_v<T>;
  size_t n        = large ? std::array<size_t, 7>{16, 31, 64, 100, 256, 257, 1000}[c.choose(7)] : c.choose(5);
  Cells<E> cells(n);
  E *base = cells.data();
  using S = MemSpan<T>;
  S s(base, n);
  size_t b = 0, e = n;
  std::vector<size_t> counts{0, 1, 2, 3, 4, 5, BIG, BIG - 1, BIG / 2 + 1};
  if (large) counts = {0, 1, 8, 15, 16, 63, 64, 127, 128, 255, 256, 257, n / 2, n - 1, n, n + 1, BIG};
  same(c, s, base, sizeof(E), b, e, "span");
  for (int i = 0; i < depth; ++i) {
    int op      = c.choose(typed ? 11 : 8);
    size_t k    = c.pick(counts);
    size_t size = e - b, in = std::min(k, size);
    S const whole(s);
    switch (op) {
    case 0:
      c.note("prefix(%zd)", k);
      same(c, s.prefix(k), base, sizeof(E), b, b + in, "prefix");
      s = s.prefix(k), e = b + in;
      break;
    case 1:
      c.note("suffix(%zd)", k);
      same(c, s.suffix(k), base, sizeof(E), e - in, e, "suffix");
      s = s.suffix(k), b = e - in;
      break;
    case 2:
      c.note("remove_prefix(%zd)", k);
      MC_CHECK(c, &s.remove_prefix(k) == &s, "not the same span");
      b += in;
      break;
    case 3:
      c.note("remove_suffix(%zd)", k);
      MC_CHECK(c, &s.remove_suffix(k) == &s, "not the same span");
      e -= in;
      break;
    case 4:
      c.note("clip_prefix(%zd)", k);
      same(c, s.clip_prefix(k), base, sizeof(E), b, b + in, "clip_prefix");
      b += in;
      break;
    case 5:
      c.note("clip_suffix(%zd)", k);
      same(c, s.clip_suffix(k), base, sizeof(E), e - in, e, "clip_suffix");
      e -= in;
      break;
    case 6: {
      size_t off = c.pick(counts);
      c.note("subspan(%zd,%zd)", off, k);
      size_t o = std::min(off, size), m = std::min(k, size - o);
      same(c, s.subspan(off, k), base, sizeof(E), b + o, b + o + m, "subspan");
      s = s.subspan(off, k), b += o, e = b + m;
    } break;
    case 7: {
      c.note("contains");
      for (size_t j = 0; j < n; ++j) MC_CHECK(c, s.contains(base + j) == (j >= b && j < e), "contains element %zu of [%zu,%zu)", j, b, e);
      MC_CHECK(c, !s.contains(base + n) && s.is_same(whole) && s == whole && !(s != whole), "contains end");
      if (k) c.skip();
    } break;
    default:
      if constexpr (typed) {
        if (op == 8) {
          c.note("restrict(%zd)", k);
          MC_CHECK(c, &s.restrict(k) == &s, "not the same span");
          e = b + in;
        } else if (op == 9) {
          c.note("first(%zd)", k);
          same(c, s.first(k), base, sizeof(E), b, b + in, "first");
          s = s.first(k), e = b + in;
        } else {
          c.note("last(%zd)", k);
          same(c, s.last(k), base, sizeof(E), e - in, e, "last");
          s = s.last(k), b = e - in;
        }
      }
    }
    same(c, s, base, sizeof(E), b, e, "span");
    if (b == e) { // where an empty span lies is not specified
      s = S(base + b, size_t(0));
    }
    if constexpr (typed) {
      size_t j = b;
      for (auto &x : s) {
        MC_CHECK(c, &x == base + j && &s[j - b] == &x, "element %zu", j);
        ++j;
      }
      MC_CHECK(c, j == e, "iteration ends at %zu", j);
      if (b < e) MC_CHECK(c, &s.front() == base + b && &s.back() == base + e - 1, "front and back");
    }
    c.step();
    c.state(mc::strf("%zu/%zu %zu %zu %d", sizeof(E), n, b, e, typed));
  }
  for (size_t i = 0; i < n; ++i) MC_CHECK(c, cells.data()[i] == value<E>(int(i)), "content changed");
}
MC_HISTORIES(slices, 3, "all sequences of 2 (3) slicing operations with 9 sizes on spans of up to 4 elements of 7 element types; position, size, iteration and end after each")
{
  int depth = c.thorough ? 3 : 2;
  switch (c.choose(7)) {
  case 0: slice_history<unsigned char>(c, depth); break;
  case 1: slice_history<int32_t>(c, depth); break;
  case 2: slice_history<T3>(c, depth); break;
  case 3: slice_history<uint64_t>(c, depth); break;
  case 4: slice_history<int16_t const>(c, depth); break;
  case 5: slice_history<void>(c, depth); break;
  case 6: slice_history<void const>(c, depth); break;
  }
}

MC_HISTORIES(scale, 3, "all sequences of 1 (2) slicing operations with 17 sizes around powers of two on spans of 16..1000 elements of 7 element types")
{
  int depth = c.thorough ? 2 : 1;
  switch (c.choose(7)) {
  case 0: slice_history<unsigned char>(c, depth, true); break;
  case 1: slice_history<int32_t>(c, depth, true); break;
  case 2: slice_history<T3>(c, depth, true); break;
  case 3: slice_history<uint64_t>(c, depth, true); break;
  case 4: slice_history<int16_t const>(c, depth, true); break;
  case 5: slice_history<void>(c, depth, true); break;
  case 6: slice_history<void const>(c, depth, true); break;
  }
}

// ---- re-typing ----
template <typename U, typename S> static void rebind_to(mc::Ctx &c, S const &s, void const *base, size_t bytes)
{
  using E     = std::conditional_t<std::is_void_v<U>, char, std::remove_const_t<U>>;
  bool ok     = bytes % sizeof(E) == 0;
  bool thrown = false;
  try {
    auto t = s.template rebind<U>();
    static_assert(std::is_same_v<decltype(t), MemSpan<U>>);
    MC_CHECK(c, ok, "re-typing %zu bytes to %zu byte elements did not fail", bytes, sizeof(E));
    MC_CHECK(c, t.data() == base && t.size() == bytes / sizeof(E) && t.data_size() == bytes, "re-typing %zu bytes to %zu byte elements gives %zu", bytes, sizeof(E), t.size());
  } catch (std::invalid_argument const &) {
    thrown = true;
  }
  MC_CHECK(c, thrown == !ok, "re-typing %zu bytes to %zu byte elements failed", bytes, sizeof(E));
}
template <typename T> static void rebinds(mc::Ctx &c)
{
  constexpr bool typed = !std::is_void_v<T>;
  using E  = std::conditional_t<std::is_void_v<T>, unsigned char, std::remove_const_t<T>>;
  size_t n = c.choose(typed ? 10 : 34);
  std::unique_ptr<uint64_t[]> store(new uint64_t[n * sizeof(E) / 8 + 2]);
  E *base = reinterpret_cast<E *>(store.get());
  MemSpan<T> s(base, n);
  size_t bytes = n * sizeof(E);
  rebind_to<void const>(c, s, base, bytes);
  if constexpr (!typed || sizeof(E) % 2 == 0 || sizeof(E) == 1) {
    rebind_to<uint64_t const>(c, s, base, bytes);
    rebind_to<int16_t const>(c, s, base, bytes);
    rebind_to<uint32_t const>(c, s, base, bytes);
  }
  if constexpr (!typed || sizeof(E) == 3 || sizeof(E) == 1) rebind_to<T3 const>(c, s, base, bytes);
  rebind_to<char const>(c, s, base, bytes);
  if constexpr (!std::is_const_v<T>) {
    rebind_to<void>(c, s, base, bytes);
    rebind_to<unsigned char>(c, s, base, bytes);
    if constexpr (!typed || sizeof(E) % 2 == 0 || sizeof(E) == 1) {
      rebind_to<uint64_t>(c, s, base, bytes);
      rebind_to<int16_t>(c, s, base, bytes);
      rebind_to<uint32_t>(c, s, base, bytes);
    }
    MemSpan<void> v(s), w;
    MC_CHECK(c, v.data() == base && v.size() == bytes, "conversion to void gives %zu of %zu bytes", v.size(), bytes);
    w = s;
    MC_CHECK(c, w.data() == base && w.size() == bytes, "assignment to void gives %zu of %zu bytes", w.size(), bytes);
  }
  MemSpan<void const> v(s), w;
  MC_CHECK(c, v.data() == base && v.size() == bytes, "conversion to void const gives %zu of %zu bytes", v.size(), bytes);
  w = s;
  MC_CHECK(c, w.data() == base && w.size() == bytes, "assignment to void const gives %zu of %zu bytes", w.size(), bytes);
  if constexpr (typed) {
    auto d = s.rebind();
    MC_CHECK(c, d.data() == base && d.size() == bytes, "default re-typing gives %zu of %zu bytes", d.size(), bytes);
    MemSpan<E const> k(s);
    MC_CHECK(c, k.data() == base && k.size() == n, "conversion to constant elements");
  } else {
    auto as = [&](auto *p) {
      using U     = std::remove_pointer_t<decltype(p)>;
      bool thrown = false;
      try {
        MC_CHECK(c, (void const *)s.template as_ptr<U>() == base && bytes == sizeof(U), "%zu bytes as an object of %zu", bytes, sizeof(U));
      } catch (std::invalid_argument const &) {
        thrown = true;
      }
      MC_CHECK(c, thrown == (bytes != sizeof(U)), "%zu bytes as an object of %zu failed", bytes, sizeof(U));
    };
    as((char *)nullptr), as((int16_t *)nullptr), as((T3 *)nullptr), as((uint32_t *)nullptr), as((uint64_t *)nullptr);
  }
  c.outcome(mc::strf("%d %zu %zu", typed * 2 + std::is_const_v<T>, sizeof(E), n));
}
MC_INPUTS(rebind, 1, "re-typing and converting spans of up to 9 elements of 8 types (33 bytes untyped) to every other type: exact counts or an error")
{
  switch (c.choose(9)) {
  case 0: rebinds<unsigned char>(c); break;
  case 1: rebinds<char const>(c); break;
  case 2: rebinds<int16_t>(c); break;
  case 3: rebinds<int32_t>(c); break;
  case 4: rebinds<uint64_t>(c); break;
  case 5: rebinds<uint64_t const>(c); break;
  case 6: rebinds<T3>(c); break;
  case 7: rebinds<void>(c); break;
  case 8: rebinds<void const>(c); break;
  }
}

// ---- alignment ----
template <typename S> static void aligned(mc::Ctx &c, S const &got, uintptr_t p, size_t n, size_t align, size_t obj)
{
  uintptr_t q = (p + align - 1) / align * align;
  size_t want = q - p < n ? (n - (q - p)) / obj * obj : 0;
  MC_CHECK(c, uintptr_t(got.data()) % align == 0, "aligning %zu bytes at offset %zu to %zu is not aligned", n, size_t(p % 64), align);
  MC_CHECK(c, got.size() == want && (want == 0 || uintptr_t(got.data()) == q), "aligning %zu bytes at offset %zu to %zu (size %zu) gives %zu bytes at +%td, expected %zu at +%zu", n, size_t(p % 64), align, obj, got.size(), ptrdiff_t(uintptr_t(got.data()) - p), want, size_t(q - p));
}
struct alignas(16) A16 { char x[48]; };
MC_INPUTS(align, 2, "every untyped span of up to 70 bytes at every offset up to 33 aligned to 1..32, with object sizes and types")
{
  alignas(64) static char store[256];
  size_t off = c.choose(34), n = c.choose(71);
  uintptr_t p = uintptr_t(store) + off;
  MemSpan<void> s((void *)p, n);
  MemSpan<void const> k(s);
  for (size_t a = 1; a <= 32; a *= 2) {
    aligned(c, s.align(a), p, n, a, 1);
    aligned(c, k.align(a), p, n, a, 1);
    for (size_t obj : {a, 2 * a, 3 * a}) {
      aligned(c, s.align(a, obj), p, n, a, obj);
      aligned(c, k.align(a, obj), p, n, a, obj);
    }
  }
  aligned(c, s.align<char>(), p, n, 1, 1), aligned(c, k.align<char>(), p, n, 1, 1);
  aligned(c, s.align<int32_t>(), p, n, 4, 4), aligned(c, k.align<int32_t>(), p, n, 4, 4);
  aligned(c, s.align<uint64_t>(), p, n, 8, 8), aligned(c, k.align<uint64_t>(), p, n, 8, 8);
  aligned(c, s.align<A16>(), p, n, 16, 48), aligned(c, k.align<A16>(), p, n, 16, 48);
  aligned(c, s.align<T3>(), p, n, 1, 3), aligned(c, k.align<T3>(), p, n, 1, 3);
  c.outcome(mc::strf("%zu %zu", off, n));
}

// ---- copy and set ----
template <typename T> static void copies(mc::Ctx &c, bool large = false)
{
  using swoc::memcpy;
  using swoc::memset;
  static const size_t lens[] = {0, 1, 7, 8, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300};
  size_t total = large ? 300 : 6;
  size_t d0 = c.choose(3), dn = large ? c.pick(lens) : c.choose(int(total - d0 + 1)), sn = large ? c.pick(lens) : c.choose(6);
  if (d0 + dn > total) c.skip();
  Cells<T> dst(total, 0), src(sn, 20);
  MemSpan<T> all(dst.data(), total), d(dst.data() + d0, dn), s(src.data(), sn);
  size_t len = 0;
  int op     = c.choose(sizeof(T) == 1 ? 7 : 4);
  T fill     = value<T>(9);
  void *r    = d.data();
  switch (op) {
  case 0: r = memcpy(d, s), len = std::min(dn, sn); break;
  case 1:
    if (sn < dn) c.skip(); // the source must be large enough
    r = memcpy(d, s.data()), len = dn;
    break;
  case 2:
    if (dn < sn) c.skip();
    r = memcpy(d.data(), s), len = sn;
    break;
  case 3: len = dn, r = (void *)memset(d, fill).data(); break;
  case 4:
    if constexpr (sizeof(T) == 1) {
      MemSpan<void> v(d);
      r = memcpy(v, std::string_view((char const *)s.data(), sn)), len = std::min(dn, sn);
    }
    break;
  case 5:
    if constexpr (std::is_same_v<T, char>) r = memcpy(d, std::string_view(s.data(), sn)), len = std::min(dn, sn);
    else if constexpr (sizeof(T) == 1) {
      MemSpan<void> v(d);
      memset(v, char(0x40 + 63)), len = dn;
    }
    break;
  case 6:
    if constexpr (sizeof(T) == 1) {
      if constexpr (std::is_same_v<T, char>) {
        unsigned char u = static_cast<unsigned char>(fill);
        r = memset(d, u).data();
      } else {
        char u = static_cast<char>(fill);
        r = memset(d, u).data();
      }
      len = dn;
    }
    break;
  }
  MC_CHECK(c, r == d.data(), "copy does not return the destination");
  for (size_t i = 0; i < total; ++i) {
    bool in = i >= d0 && i < d0 + len;
    T want  = !in ? value<T>(int(i)) : (op == 3 || op == 6 || (op == 5 && !std::is_same_v<T, char>)) ? fill : value<T>(20 + int(i - d0));
    MC_CHECK(c, all[i] == want, "operation %d, destination [%zu,%zu), source of %zu %zu byte elements: element %zu is wrong", op, d0, d0 + dn, sn, sizeof(T), i);
  }
  for (size_t i = 0; i < sn; ++i) MC_CHECK(c, s[i] == value<T>(20 + int(i)), "source changed");
  c.outcome(mc::strf("%zu %d %zu %zu %zu", sizeof(T) + 10 * std::is_same_v<T, char>, op, d0, dn, sn));
}
MC_INPUTS(copy, 2, "copying and setting spans at every place in 6 elements from sources of up to 5 elements of 6 types: exactly the common extent changes")
{
  switch (c.choose(5)) {
  case 0: copies<char>(c); break;
  case 1: copies<unsigned char>(c); break;
  case 2: copies<uint16_t>(c); break;
  case 3: copies<int32_t>(c); break;
  case 4: copies<uint64_t>(c); break;
  }
}

MC_INPUTS(copy_scale, 2, "copying and setting spans of up to 300 elements, lengths around powers of two, of 5 types: exactly the common extent changes")
{
  switch (c.choose(5)) {
  case 0: copies<char>(c, true); break;
  case 1: copies<unsigned char>(c, true); break;
  case 2: copies<uint16_t>(c, true); break;
  case 3: copies<int32_t>(c, true); break;
  case 4: copies<uint64_t>(c, true); break;
  }
}

// ---- order ----
template <typename T, typename S> static void orders(mc::Ctx &c)
{
  using swoc::memcmp;
  using B = std::remove_const_t<std::conditional_t<std::is_void_v<T>, unsigned char, T>>;
  static const B digits[] = {B(1), B(0x7f), B(0x80), B(-1), B(0)};
  size_t n = c.choose(4), k = c.choose(4);
  Cells<B> x(n, 0), y(k, 0);
  for (size_t i = 0; i < n; ++i) x.data()[i] = digits[c.choose(5)];
  for (size_t i = 0; i < k; ++i) y.data()[i] = digits[c.choose(5)];
  size_t nb = n * sizeof(B), kb = k * sizeof(B);
  int want  = 0;
  auto px = (unsigned char const *)x.data(), py = (unsigned char const *)y.data();
  for (size_t i = 0; i < nb && i < kb && !want; ++i) want = px[i] < py[i] ? -1 : px[i] > py[i];
  if (!want) want = nb < kb ? -1 : nb > kb;
  MemSpan<T> a(S(x.data()), std::is_void_v<T> ? nb : n), b(S(y.data()), std::is_void_v<T> ? kb : k);
  int got = memcmp(a, b);
  MC_CHECK(c, (got > 0) - (got < 0) == want, "memcmp of spans of %zu and %zu bytes is %d, expected the sign of %d", nb, kb, got, want);
  c.outcome(mc::strf("%zu %zu %d", nb, kb, want));
}
MC_INPUTS(order, 3, "memcmp of all pairs of spans of up to 3 elements over 5 values, 4 element types: bytes in order, then the size")
{
  switch (c.choose(4)) {
  case 0: orders<char, char *>(c); break;
  case 1: orders<unsigned char const, unsigned char const *>(c); break;
  case 2: orders<uint16_t, uint16_t *>(c); break;
  case 3: orders<void const, void const *>(c); break;
  }
}

// ---- construction ----
static int live = 0;
struct Obj {
  int v;
  std::string s;
  Obj(int x, std::string t) : v(x), s(t) { ++live; }
  ~Obj() { --live; }
};
#define SAME(span, ptr, n, what) MC_CHECK(c, (void const *)(span).data() == (void const *)(ptr) && (span).size() == size_t(n), what " gives %zu elements", (span).size())
template <typename T, size_t N> static void arrays(mc::Ctx &c)
{
  T a[N] = {};
  T const(&ca)[N] = a;
  SAME(MemSpan<T>(a), a, N, "array");
  SAME(MemSpan<T const>(ca), a, N, "constant array");
  SAME(MemSpan<void>(a), a, N * sizeof(T), "array as void");
  SAME(MemSpan<void const>(ca), a, N * sizeof(T), "constant array as void");
  std::array<T, N> s;
  std::array<T, N> const &cs = s;
  SAME(MemSpan<T>(s), s.data(), N, "std::array");
  SAME(MemSpan<T const>(cs), s.data(), N, "constant std::array");
  SAME(MemSpan(s), s.data(), N, "deduced std::array");
  SAME(MemSpan(cs), s.data(), N, "deduced constant std::array");
  SAME(MemSpan<void>(s), s.data(), N * sizeof(T), "std::array as void");
  SAME(MemSpan<void const>(cs), s.data(), N * sizeof(T), "constant std::array as void");
  std::vector<T> v(N);
  std::vector<T> const &cv = v;
  SAME(MemSpan<T>(v), v.data(), N, "vector");
  SAME(MemSpan<T const>(cv), v.data(), N, "constant vector");
  SAME(MemSpan(v), v.data(), N, "deduced vector");
  SAME(MemSpan(cv), v.data(), N, "deduced constant vector");
  SAME(MemSpan<void>(v), v.data(), N * sizeof(T), "vector as void");
  SAME(MemSpan<void const>(cv), v.data(), N * sizeof(T), "constant vector as void");
  for (size_t b = 0; b <= N; ++b)
    for (size_t e = b; e <= N; ++e) {
      SAME(MemSpan<T>(a + b, a + e), a + b, e - b, "two pointers");
      SAME(MemSpan<T const>(ca + b, ca + e), a + b, e - b, "two constant pointers");
      SAME(MemSpan<void>((void *)(a + b), (void *)(a + e)), a + b, (e - b) * sizeof(T), "two void pointers");
      SAME(MemSpan<void const>((void const *)(a + b), (void const *)(a + e)), a + b, (e - b) * sizeof(T), "two constant void pointers");
      MemSpan<T> s;
      SAME(s.assign(a + b, a + e), a + b, e - b, "assigned two pointers");
      s.clear();
      SAME(s.assign(a + b, e - b), a + b, e - b, "assigned pointer and size");
      MemSpan<void> w;
      SAME(w.assign((void *)(a + b), (void const *)(a + e)), a + b, (e - b) * sizeof(T), "assigned two void pointers");
      w.clear();
      SAME(w.assign((void *)(a + b), e - b), a + b, e - b, "assigned void pointer and size");
      MemSpan<void const> k;
      SAME(k.assign((void const *)(a + b), (void const *)(a + e)), a + b, (e - b) * sizeof(T), "assigned two constant void pointers");
      k.clear();
      SAME(k.assign((void const *)(a + b), (e - b) * sizeof(T)), a + b, (e - b) * sizeof(T), "assigned constant void pointer and size");
      for (size_t x = 0; x <= N; ++x)
        for (size_t y = x; y <= N; ++y) {
          bool is = b == x && e == y;
          MemSpan<T> ss(a + b, a + e), ts(a + x, a + y);
          MemSpan<T const> cs(ca + b, ca + e), ct(ca + x, ca + y);
          MemSpan<void> vs(ss), vt(ts);
          MemSpan<void const> ks(ss), kt(ts);
          MC_CHECK(c, ss.is_same(ts) == is && cs.is_same(ct) == is && vs.is_same(vt) == is && ks.is_same(kt) == is, "[%zu,%zu) and [%zu,%zu) of %zu byte elements claim to be the same: %d %d %d %d", b, e, x, y, sizeof(T),
                   ss.is_same(ts), cs.is_same(ct), vs.is_same(vt), ks.is_same(kt));
          // All elements are equal here, so that is a matter of the size.
          MC_CHECK(c, (ss == ts) == (e - b == y - x) && (vs == vt) == (e - b == y - x) && (ks == kt) == (e - b == y - x) && (cs == ct) == (e - b == y - x), "equality of [%zu,%zu) and [%zu,%zu)", b, e, x, y);
        }
      MemSpan<void const> w2;
      w2 = w;
      SAME(w2, a + b, e - b, "assigned void");
      SAME(s.clear(), nullptr, 0, "clear");
      SAME(w.clear(), nullptr, 0, "clear");
    }
  c.outcome(mc::strf("%zu %zu", sizeof(T), N));
}
MC_INPUTS(construct, 1, "construction of spans from arrays, containers, pointers, literals and null; construction and destruction of elements")
{
  switch (c.choose(8)) {
  case 0: arrays<int32_t, 1>(c), arrays<int32_t, 4>(c); break;
  case 1: arrays<unsigned char, 1>(c), arrays<unsigned char, 5>(c); break;
  case 2: arrays<uint64_t, 3>(c); break;
  case 3: arrays<T3, 2>(c); break;
  case 4: {
    std::string s = choose_text(c, 3, std::string_view("a\0", 2));
    std::string const &cs = s;
    std::string_view sv(s);
    swoc::TextView tv(s);
    SAME(MemSpan<char>(s), s.data(), s.size(), "string");
    SAME(MemSpan(s), s.data(), s.size(), "deduced string");
    SAME(MemSpan<char const>(cs), s.data(), s.size(), "constant string");
    SAME(MemSpan<char const>(sv), s.data(), s.size(), "string_view");
    SAME(MemSpan(sv), s.data(), s.size(), "deduced string_view");
    SAME(MemSpan(tv), s.data(), s.size(), "deduced text view");
    SAME(MemSpan<void>(s), s.data(), s.size(), "string as void");
    SAME(MemSpan<void const>(sv), s.data(), s.size(), "string_view as void");
    c.outcome("text " + s);
  } break;
  case 5: {
    static char const lit[] = "abc", raw[3] = {'a', 'b', 'c'}, one[1] = {0};
    char buf[] = "abc";
    SAME(MemSpan(lit), lit, 3, "literal");
    SAME(MemSpan<char const>(lit), lit, 3, "literal");
    SAME(MemSpan<void const>(lit), lit, 3, "literal as void");
    SAME(MemSpan(raw), raw, 3, "array without nul");
    SAME(MemSpan<void const>(raw), raw, 3, "array without nul as void");
    SAME(MemSpan(one), one, 0, "empty literal");
    SAME(MemSpan(buf), buf, 4, "writable character array");
    SAME(MemSpan<void>(buf), buf, 4, "writable character array as void");
    c.outcome("literal");
  } break;
  case 6: {
    SAME(MemSpan<int>(nullptr), nullptr, 0, "null");
    SAME(MemSpan<void>(nullptr), nullptr, 0, "null");
    SAME(MemSpan<void const>(nullptr), nullptr, 0, "null");
    SAME(MemSpan<int>(), nullptr, 0, "default");
    SAME(MemSpan<void>(), nullptr, 0, "default");
    SAME(MemSpan<void const>(), nullptr, 0, "default");
    for (size_t k : {size_t(0), size_t(1), BIG}) {
      MemSpan<int> a;
      MemSpan<void> b;
      MC_CHECK(c, a.prefix(k).empty() && a.suffix(k).empty() && a.remove_prefix(k).empty() && a.remove_suffix(k).empty() && a.clip_prefix(k).empty() && a.clip_suffix(k).empty() && a.subspan(k, k).empty(), "slice of null");
      MC_CHECK(c, b.prefix(k).empty() && b.suffix(k).empty() && b.remove_prefix(k).empty() && b.remove_suffix(k).empty() && b.clip_prefix(k).empty() && b.clip_suffix(k).empty() && b.subspan(k, k).empty() && b.align(8).empty() && b.align(8, 8).empty(), "slice of void null");
      MC_CHECK(c, a == MemSpan<int>() && b == MemSpan<void>() && a.rebind<char>().empty() && b.rebind<int>().empty(), "null spans");
    }
    c.outcome("null");
  } break;
  case 7: {
    size_t n = c.choose(5);
    alignas(Obj) char store[sizeof(Obj) * 4 + 1];
    memset(store, 0x55, sizeof store);
    auto s = MemSpan<void>(store, n * sizeof(Obj)).rebind<Obj>();
    live   = 0;
    MC_CHECK(c, &s.make(int(n), "text longer than the small size") == &s && live == int(n), "%d objects made of %zu", live, n);
    int sum = 0;
    MC_CHECK(c, &s.apply([&](Obj &o) { sum += o.v, o.v = 3; }) == &s && sum == int(n * n), "apply");
    for (auto &o : s) MC_CHECK(c, o.v == 3 && o.s == "text longer than the small size", "object");
    s.destroy();
    MC_CHECK(c, live == 0 && store[n * sizeof(Obj)] == 0x55, "%d objects left", live);
    c.outcome(mc::strf("make %zu", n));
  } break;
  }
}
