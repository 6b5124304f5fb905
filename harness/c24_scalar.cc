// C24: scaled quantities against exact integer arithmetic.
#include "text_common.h"
#include <limits>
#include <numeric>
#include <set>
#include <sstream>
#include <swoc/Scalar.h>
#include <swoc/bwf_base.h>
#include <tuple>
using swoc::round_down;
using swoc::round_up;
using swoc::Scalar;
using Int = __int128;

/// A check usable in an expression.
static void MC_CHECK_EXPR(mc::Ctx &c, bool ok, char const *op, std::string const &what) { MC_CHECK(c, ok, "%s %s", op, what.c_str()); }

struct Tag {
  static constexpr std::string_view label{" things"};
};
struct Plain;
template <typename T>
using Types = std::tuple<Scalar<1, long, T>, Scalar<2, short, T>, Scalar<4, unsigned, T>, Scalar<6, int, T>, Scalar<10, long, T>, Scalar<15, int, T>, Scalar<16, uint64_t, T>, Scalar<1024, int, T>, Scalar<1000000, int, T>, Scalar<7168, short, T>>;
static constexpr int N_TYPES = std::tuple_size_v<Types<Plain>>;

template <typename C> static bool fits(Int x) { return x >= Int(std::numeric_limits<C>::min()) && x <= Int(std::numeric_limits<C>::max()); }
static Int floor_div(Int a, Int b) { return a / b - ((a % b != 0) && ((a < 0) != (b < 0))); }
static Int ceil_div(Int a, Int b) { return -floor_div(-a, b); }
static std::string show(Int x) { return mc::strf("%lld", static_cast<long long>(x)); }

/// Interesting counts: around zero, around multiples of the ratios of scales and at the limits.
template <typename A> static std::vector<typename A::Counter> const &counts(bool thorough)
{
  using C = typename A::Counter;
  static std::vector<C> z = [&] {
    std::set<Int> s;
    int near = thorough ? 60 : 17;
    for (int i = -near; i <= near; ++i) s.insert(i);
    for (Int k : {32, 64, 95, 100, 128, 167, 213, 250, 1000, 1024, 2048, 62500, 1000000, 100000000})
      for (int d = -2; d <= 2; ++d) s.insert(k + d), s.insert(-k + d);
    for (int d = 0; d < 3; ++d) {
      s.insert(Int(std::numeric_limits<C>::max()) - d), s.insert(Int(std::numeric_limits<C>::min()) + d);
      s.insert(Int(std::numeric_limits<C>::max()) / A::SCALE - d), s.insert(Int(std::numeric_limits<C>::min()) / A::SCALE + d);
    }
    std::vector<C> v;
    for (Int x : s)
      if (fits<C>(x)) v.push_back(C(x));
    return v;
  }();
  return z;
}

/// Check that @a got - a count at scale @a sb - is as expected.
static void expect(mc::Ctx &c, char const *op, Int n, intmax_t sa, intmax_t sb, Int got, Int want) { MC_CHECK(c, got == want, "%s %s * %ld to scale %ld yields %s, not %s", op, show(n).c_str(), long(sa), long(sb), show(got).c_str(), show(want).c_str()); }

template <typename A, typename B> static void convert(mc::Ctx &c, typename A::Counter n)
{
  using CB = typename B::Counter;
  A a(n);
  Int v = Int(n) * A::SCALE, up = ceil_div(v, B::SCALE), down = floor_div(v, B::SCALE);
  auto ex = [&](char const *op, B const &got, Int want) { expect(c, op, n, A::SCALE, B::SCALE, got.count(), want); };
  if (std::is_unsigned_v<CB> && v < 0) return; // between signed and unsigned types
  if (fits<CB>(up)) {
    B d, e = round_up(a);
    d = round_up(a);
    ex("constructing by rounding up", B(round_up(a)), up);
    ex("assigning by rounding up", d, up);
    ex("initializing by rounding up", e, up);
    for (CB start : {CB(0), CB(5)}) {
      if (fits<CB>(start + up)) ex("adding by rounding up", B(start) += round_up(a), start + up);
      if (fits<CB>(start - up)) ex("subtracting by rounding up", B(start) -= round_up(a), start - up);
    }
  }
  if (fits<CB>(down)) {
    B d, e = round_down(a);
    d = round_down(a);
    ex("constructing by rounding down", B(round_down(a)), down);
    ex("assigning by rounding down", d, down);
    ex("initializing by rounding down", e, down);
    for (CB start : {CB(0), CB(5)}) {
      if (fits<CB>(start + down)) ex("adding by rounding down", B(start) += round_down(a), start + down);
      if (fits<CB>(start - down)) ex("subtracting by rounding down", B(start) -= round_down(a), start - down);
    }
  }
  if constexpr (A::SCALE % B::SCALE == 0) {
    if (fits<CB>(down) && fits<int64_t>(down)) {
      B b(a), d, e = a, f;
      d = a;
      f.assign(a);
      ex("constructing from", b, down);
      ex("assigning from", d, down);
      ex("initializing from", e, down);
      ex("assign from", f, down);
      for (CB start : {CB(0), CB(5)}) {
        if (fits<CB>(start + down)) ex("adding", B(start) += a, start + down);
        if (fits<CB>(start - down)) ex("subtracting", B(start) -= a, start - down);
      }
    }
  }
}

/// Check the comparisons, bits of @a got being the results of < <= > >= == !=.
static void compared(mc::Ctx &c, Int n, intmax_t sa, Int m, intmax_t sb, int got)
{
  Int va = n * sa, vb = m * sb;
  int want = (va < vb) | (va <= vb) << 1 | (va > vb) << 2 | (va >= vb) << 3 | (va == vb) << 4 | (va != vb) << 5;
  MC_CHECK(c, got == want, "%s * %ld and %s * %ld: comparisons (< <= > >= == != from bit 0) are %#x, not %#x", show(n).c_str(), long(sa), show(m).c_str(), long(sb), got, want);
}
static void computed(mc::Ctx &c, char const *op, Int n, intmax_t sa, Int m, intmax_t sb, Int got, Int want, Int or_else) { MC_CHECK(c, got == want || got == or_else, "%s of %s * %ld and %s * %ld is %s, not %s", op, show(n).c_str(), long(sa), show(m).c_str(), long(sb), show(got).c_str(), show(want).c_str()); }

template <typename A, typename B> static void relate(mc::Ctx &c, typename A::Counter n, typename B::Counter m)
{
  A a(n);
  B b(m);
  Int va = Int(n) * A::SCALE, vb = Int(m) * B::SCALE;
  constexpr intmax_t gcd = std::gcd(A::SCALE, B::SCALE);
  bool mixed = (std::is_same_v<typename A::Counter, uint64_t> && m < 0) || (std::is_same_v<typename B::Counter, uint64_t> && n < 0);
  bool narrow = fits<int64_t>(va / gcd) && fits<int64_t>(vb / gcd);
  if (mixed || !narrow) return;
  compared(c, n, A::SCALE, m, B::SCALE, (a < b) | (a <= b) << 1 | (a > b) << 2 | (a >= b) << 3 | (a == b) << 4 | (a != b) << 5);
  using S = std::common_type_t<A, B>;
  static_assert(S::SCALE == gcd);
  using CS = typename S::Counter;
  static_assert(decltype(a + b)::SCALE == gcd && decltype(a - b)::SCALE == gcd);
  auto op = [&](char const *name, Int got, Int want, Int or_else) { computed(c, name, n, A::SCALE, m, B::SCALE, got, want, or_else); };
  if (fits<CS>(va / gcd) && fits<CS>(vb / gcd)) {
    if (fits<CS>((va + vb) / gcd)) op("sum", (a + b).count(), (va + vb) / gcd, (va + vb) / gcd);
    if (fits<CS>((va - vb) / gcd)) op("difference", (a - b).count(), (va - vb) / gcd, (va - vb) / gcd);
  }
  if (m != 0 && fits<CS>(va / vb) && !(va < 0 && std::is_unsigned_v<typename B::Counter>) && !(vb < 0 && std::is_unsigned_v<typename A::Counter>)) {
    op("quotient", a / b, va / vb, floor_div(va, vb));
  }
}

template <typename A, typename B> static void pair(mc::Ctx &c)
{
  auto n = counts<A>(c.thorough)[c.choose(int(counts<A>(c.thorough).size()))];
  convert<A, B>(c, n);
  for (auto m : counts<B>(c.thorough)) relate<A, B>(c, n, m);
  // around equality: counts of B next to the value of this count of A
  for (int d = -2; d <= 2; ++d) {
    Int m = floor_div(Int(n) * A::SCALE, B::SCALE) + d;
    if (fits<typename B::Counter>(m)) relate<A, B>(c, n, typename B::Counter(m));
  }
  c.outcome(mc::strf("%ld/%zu %ld/%zu %s", long(A::SCALE), sizeof(n), long(B::SCALE), sizeof(typename B::Counter), show(n).c_str()));
}

template <typename F, size_t... I> static void dispatch(int i, F &&f, std::index_sequence<I...>) { (void)((int(I) == i && (f(std::integral_constant<size_t, I>{}), true)) || ...); }

MC_INPUTS(pairs, 2, "all pairs of 10 scaled types: conversions with rounding, lossless conversions, comparisons, sums, differences and quotients")
{
  int i = c.choose(N_TYPES), j = c.choose(N_TYPES);
  dispatch(
    i, [&](auto I) { dispatch(j, [&](auto J) { pair<std::tuple_element_t<I, Types<Plain>>, std::tuple_element_t<J, Types<Plain>>>(c); }, std::make_index_sequence<N_TYPES>{}); }, std::make_index_sequence<N_TYPES>{});
}

template <typename A> static void single(mc::Ctx &c)
{
  using C = typename A::Counter;
  MC_CHECK(c, A::scale() == A::SCALE && A().count() == 0, "scale or default count");
  for (C n : counts<A>(c.thorough)) {
    A a(n), b;
    std::string what = mc::strf("%s * %ld", show(n).c_str(), long(A::SCALE));
    b.assign(n);
    MC_CHECK(c, a.count() == n && b.count() == n && a(n).count() == n && A(a).count() == n, "count of %s", what.c_str());
    Int v = Int(n) * A::SCALE;
    if (fits<C>(v) && fits<int64_t>(v)) {
      MC_CHECK(c, a.value() == C(v) && C(a) == C(v), "value of %s is %s", what.c_str(), show(a.value()).c_str());
      MC_CHECK(c, a == C(v) && !(a != C(v)), "comparison of %s to its value", what.c_str());
      std::string got;
      swoc::bwprint(got, "{}", a);
      std::ostringstream s;
      s << a;
      std::string want = show(v) + (std::is_same_v<typename A::Tag, Tag> ? " things" : "");
      MC_CHECK(c, got == want, "%s prints %s", what.c_str(), got.c_str());
      MC_CHECK(c, s.str() == want, "%s streams %s", what.c_str(), s.str().c_str());
      if (v >= 0) {
        swoc::bwprint(got, "{:x}", a);
        MC_CHECK(c, got == mc::strf("%llx", (unsigned long long)(v)), "%s prints %s in hexadecimal", what.c_str(), got.c_str());
      }
    }
    auto step = [&](char const *op, Int want, auto &&f) {
      if (!fits<C>(want)) return;
      A x(n);
      A r = f(x);
      MC_CHECK(c, r.count() == C(want), "%s of %s yields %s, not %s", op, what.c_str(), show(r.count()).c_str(), show(want).c_str());
    };
    step("pre increment", Int(n) + 1, [](A &x) { return ++x; });
    step("post increment", Int(n) + 1, [&](A &x) { A old = x++; MC_CHECK(c, old.count() == n, "post increment of %s", what.c_str()); return x; });
    step("pre decrement", Int(n) - 1, [](A &x) { return --x; });
    step("post decrement", Int(n) - 1, [&](A &x) { A old = x--; MC_CHECK(c, old.count() == n, "post decrement of %s", what.c_str()); return x; });
    for (int k : {-7, -1, 0, 1, 2, 3, 10}) {
      if (std::is_unsigned_v<C> && k < 0) continue;
      step("inc", Int(n) + k, [&](A &x) { return x.inc(C(k)); });
      step("dec", Int(n) - k, [&](A &x) { return x.dec(C(k)); });
      step("plus", Int(n) + k, [&](A &x) { return x.plus(C(k)); });
      step("minus", Int(n) - k, [&](A &x) { return x.minus(C(k)); });
      step("+=", Int(n) + k, [&](A &x) { return x += A(C(k)); });
      step("-=", Int(n) - k, [&](A &x) { return x -= A(C(k)); });
      step("+", Int(n) + k, [&](A &x) { return x + A(C(k)); });
      step("-", Int(n) - k, [&](A &x) { return x - A(C(k)); });
      step("+ rounded", Int(n) + k, [&](A &x) { return x + round_up(A(C(k))); });
      step("rounded +", Int(n) + k, [&](A &x) { return round_down(A(C(k))) + x; });
      step("- rounded", Int(n) - k, [&](A &x) { return x - round_down(A(C(k))); });
      step("rounded -", Int(n) - k, [&](A &x) { return round_up(x) - A(C(k)); });
      step("*=", Int(n) * k, [&](A &x) { return x *= C(k); });
      step("*", Int(n) * k, [&](A &x) { return x * C(k); });
      step("* int", Int(n) * k, [&](A &x) { return x * k; });
      step("int *", Int(n) * k, [&](A &x) { return k * x; });
      if (k > 0 && n >= 0) {
        step("/=", Int(n) / k, [&](A &x) { return x /= C(k); });
        step("/", Int(n) / k, [&](A &x) { return x / k; });
      }
    }
  }
}

MC_INPUTS(singles, 1, "all operations on one quantity of 10 types, with and without label")
{
  int i = c.choose(N_TYPES), tag = i == 3 || i == 4;
  dispatch(
    i,
    [&](auto I) {
      if constexpr (I == 3 || I == 4) single<std::tuple_element_t<I, Types<Tag>>>(c);
      single<std::tuple_element_t<I, Types<swoc::tag::generic>>>(c);
    },
    std::make_index_sequence<N_TYPES>{});
  c.outcome(mc::strf("%d %d", i, tag));
}

template <typename A, typename I> static void units(mc::Ctx &c)
{
  using C = typename A::Counter;
  std::set<Int> values;
  for (int x = -40; x <= 40; ++x) values.insert(x);
  for (int k : {-3, -2, -1, 1, 2, 3, 1000})
    for (int d = -2; d <= 2; ++d) values.insert(Int(k) * A::SCALE + d);
  for (int d = 0; d < 3; ++d) values.insert(Int(std::numeric_limits<I>::max()) - d), values.insert(Int(std::numeric_limits<I>::min()) + d);
  for (Int v : values) {
    if (!fits<I>(v)) continue;
    if (v < 0 && (std::is_unsigned_v<C> || std::is_unsigned_v<I>)) continue;
    I n      = I(v);
    Int up   = ceil_div(v, A::SCALE), down = floor_div(v, A::SCALE);
    std::string what = mc::strf("%s for scale %ld", show(v).c_str(), long(A::SCALE));
    if (fits<C>(up)) {
      A a(round_up(n)), b, d;
      b = round_up(n);
      d.assign(round_up(n));
      MC_CHECK(c, a.count() == C(up) && b.count() == C(up) && d.count() == C(up), "rounding up %s yields %s", what.c_str(), show(a.count()).c_str());
      A e(3), f(3);
      if (fits<C>(3 + up)) e += round_up(n), MC_CHECK_EXPR(c, e.count() == C(3 + up) && (A(3) + round_up(n)).count() == C(3 + up) && (round_up(n) + A(3)).count() == C(3 + up), "adding rounded", what);
      if (fits<C>(3 - up)) f -= round_up(n), MC_CHECK_EXPR(c, f.count() == C(3 - up) && (A(3) - round_up(n)).count() == C(3 - up), "subtracting rounded", what);
      if (fits<C>(up - 3)) MC_CHECK_EXPR(c, (round_up(n) - A(3)).count() == C(up - 3), "subtracting from rounded", what);
    }
    if (fits<C>(down)) {
      A a(round_down(n)), b, d;
      b = round_down(n);
      d.assign(round_down(n));
      MC_CHECK(c, a.count() == C(down) && b.count() == C(down) && d.count() == C(down), "rounding down %s yields %s", what.c_str(), show(a.count()).c_str());
      A e(3), f(3);
      if (fits<C>(3 + down)) e += round_down(n), MC_CHECK_EXPR(c, e.count() == C(3 + down) && (A(3) + round_down(n)).count() == C(3 + down) && (round_down(n) + A(3)).count() == C(3 + down), "adding rounded", what);
      if (fits<C>(3 - down)) f -= round_down(n), MC_CHECK_EXPR(c, f.count() == C(3 - down) && (A(3) - round_down(n)).count() == C(3 - down), "subtracting rounded", what);
      if (fits<C>(down - 3)) MC_CHECK_EXPR(c, (round_down(n) - A(3)).count() == C(down - 3), "subtracting from rounded", what);
    }
    constexpr intmax_t S = A::SCALE;
    if (fits<I>(up * S)) MC_CHECK_EXPR(c, (round_up<S>(n)) == I(up * S), "rounding up to a multiple", what);
    if (fits<I>(down * S)) MC_CHECK_EXPR(c, (round_down<S>(n)) == I(down * S), "rounding down to a multiple", what);
  }
}

MC_INPUTS(plain, 1, "rounding of plain integers of 5 types to all scales")
{
  int i = c.choose(N_TYPES), t = c.choose(5);
  dispatch(
    i,
    [&](auto I) {
      using A = std::tuple_element_t<I, Types<Plain>>;
      switch (t) {
      case 0: units<A, int>(c); break;
      case 1: units<A, long>(c); break;
      case 2: units<A, short>(c); break;
      case 3: units<A, unsigned>(c); break;
      case 4: units<A, uint64_t>(c); break;
      }
    },
    std::make_index_sequence<N_TYPES>{});
  c.outcome(mc::strf("%d %d", i, t));
}
