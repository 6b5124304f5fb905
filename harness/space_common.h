// Shared by the range space checks (C01, C02).
#pragma once
#include "mc.h"
#include <limits>
#include <memory>
#include <string>
#include <swoc/DiscreteRange.h>
#include <vector>

namespace sp {

/// A metric with N values 0..N-1 that wraps like an unsigned integer of that size.
template <int N> struct M {
  uint8_t v = 0;
  constexpr M() = default;
  constexpr explicit M(int x) : v(uint8_t(x)) {}
  constexpr bool operator==(M const &o) const { return v == o.v; }
  constexpr bool operator!=(M const &o) const { return v != o.v; }
  constexpr bool operator<(M const &o) const { return v < o.v; }
  constexpr bool operator<=(M const &o) const { return v <= o.v; }
  constexpr bool operator>(M const &o) const { return v > o.v; }
  constexpr bool operator>=(M const &o) const { return v >= o.v; }
  M &operator++() { v = uint8_t((v + 1) % N); return *this; }
  M &operator--() { v = uint8_t((v + N - 1) % N); return *this; }
};

} // namespace sp

namespace std {
template <int N> class numeric_limits<sp::M<N>> {
public:
  static constexpr bool is_specialized = true;
  static constexpr sp::M<N> min() { return sp::M<N>(0); }
  static constexpr sp::M<N> max() { return sp::M<N>(N - 1); }
};
} // namespace std

namespace sp {

/// Payload that counts live instances, to detect leaks and double destruction.
struct P {
  static constexpr uint32_t ALIVE = 0x600d600d, DEAD = 0xdeadbeef;
  static inline long live         = 0;
  static inline long errors       = 0;
  int v                           = 0;
  uint32_t tag                    = ALIVE;
  P() { ++live; }
  P(int x) : v(x) { ++live; }
  P(P const &o) : v(o.v) { if (o.tag != ALIVE) ++errors; ++live; }
  P &operator=(P const &o) { if (tag != ALIVE || o.tag != ALIVE) ++errors; v = o.v; return *this; }
  ~P() { if (tag != ALIVE) ++errors; *const_cast<uint32_t volatile *>(&tag) = DEAD; --live; }
  bool operator==(P const &o) const { if (tag != ALIVE || o.tag != ALIVE) ++errors; return v == o.v; }
  bool operator!=(P const &o) const { return !(*this == o); }
};

inline int &val(int &x) { return x; }
inline int val(int const &x) { return x; }
inline int &val(P &p) { return p.v; }
inline int val(P const &p) { return p.v; }

/// The blend functions.  @a lhs is updated, false means "remove".
constexpr int N_BLEND = 6;
inline bool blend_fn(int kind, int &lhs, int rhs)
{
  switch (kind) {
  case 0: lhs |= rhs; return true;                              // accumulate
  case 1: lhs = rhs; return true;                               // overwrite
  case 2: lhs ^= rhs; return lhs != 0;                          // toggle, vanish at zero
  case 3: if (lhs == 0) return false; lhs = rhs; return true;   // only recolor what is there
  case 4: lhs = 3; return false;                                // always remove (and scribble)
  default: if (lhs == rhs) return false; lhs = rhs; return true; // remove same color
  }
}
inline char const *blend_name(int k)
{
  static char const *n[] = {"or", "set", "xor", "recolor", "remove", "drop-same"};
  return n[k];
}

struct Op {
  enum Kind { MARK, ERASE, FILL, BLEND } kind;
  int lo, hi, color, fn;
};

/// Payload per point, -1 for none.
using Model = std::vector<int>;

inline void apply(Model &m, Op const &op)
{
  for (int x = op.lo; x <= op.hi; ++x) {
    switch (op.kind) {
    case Op::MARK: m[x] = op.color; break;
    case Op::ERASE: m[x] = -1; break;
    case Op::FILL: if (m[x] < 0) m[x] = op.color; break;
    case Op::BLEND: {
      int lhs = m[x] < 0 ? 0 : m[x]; // default constructed payload where there is none
      m[x]    = blend_fn(op.fn, lhs, op.color) ? lhs : -1;
      break;
    }
    }
  }
}

template <typename MT, typename PT> struct Sys {
  using space_type = swoc::DiscreteSpace<MT, PT>;
  using range_type = swoc::DiscreteRange<MT>;
  space_type s;
  MT (*conv)(int);
  /// Operation with arguments that refer to the payload at @a color_at and (if not negative) the range at @a range_at.
  void apply_own(Op const &op, int color_at, int range_at)
  {
    range_type r{conv(op.lo), conv(op.hi)};
    auto const &range   = range_at < 0 ? r : s.find(conv(range_at))->range();
    PT other(op.color);
    auto const &payload = color_at < 0 ? other : s.find(conv(color_at))->payload();
    switch (op.kind) {
    case Op::MARK: s.mark(range, payload); break;
    case Op::ERASE: s.erase(range); break;
    case Op::FILL: s.fill(range, payload); break;
    case Op::BLEND: s.blend(range, payload, [&](PT &lhs, PT const &rhs) { return blend_fn(op.fn, val(lhs), val(rhs)); }); break;
    }
  }
  void apply(Op const &op)
  {
    range_type r{conv(op.lo), conv(op.hi)};
    switch (op.kind) {
    case Op::MARK: s.mark(r, PT(op.color)); break;
    case Op::ERASE: s.erase(r); break;
    case Op::FILL: s.fill(r, PT(op.color)); break;
    case Op::BLEND: s.blend(r, PT(op.color), [&](PT &lhs, PT const &rhs) { return blend_fn(op.fn, val(lhs), val(rhs)); }); break;
    }
  }
};

inline std::string text(Op const &op)
{
  static char const *n[] = {"mark", "erase", "fill", "blend"};
  return mc::strf("%s[%d,%d] color %d %s", n[op.kind], op.lo, op.hi, op.color, op.kind == Op::BLEND ? blend_name(op.fn) : "");
}

inline std::string text(Model const &m)
{
  std::string s;
  for (int v : m) s += v < 0 ? '.' : char('0' + v);
  return s;
}

/// Every operation over [0..n-1]; colors 1..nc (color 0 too when zero is set).
inline Op choose_op(mc::Ctx &c, int n, int nc, bool zero = false)
{
  Op op{};
  int k = c.choose(3 + N_BLEND);
  op.kind = k < 3 ? Op::Kind(k) : Op::BLEND;
  op.fn   = k < 3 ? 0 : k - 3;
  op.lo   = c.choose(n);
  op.hi   = op.lo + c.choose(n - op.lo);
  op.color = op.kind == Op::ERASE ? 0 : (zero ? c.choose(nc + 1) : 1 + c.choose(nc));
  return op;
}

template <typename S> void construct(mc::Ctx &c, S &sys, Model const &m, int order);

/// Any coloring of N points, then an operation whose arguments are the payload or the range of a range in the space, then another.
template <int N, typename V> static void own_arguments_step(mc::Ctx &c, V &&verify)
{
  P::errors = 0;
  auto sys  = std::make_unique<Sys<M<N>, P>>();
  sys->conv = [](int x) { return M<N>(x); };
  Model m(N);
  for (int i = 0; i < N; ++i) m[i] = c.choose(3) - 1;
  for (auto &v : m) if (v >= 0) v += 1;
  construct(c, *sys, m, c.choose(3));
  Op op     = choose_op(c, N, 1);
  int color = c.choose(N + 1) - 1, range = op.lo == op.hi ? c.choose(2) - 1 : -1;
  if (color < 0 && range < 0) c.skip();
  if (color >= 0 && (m[color] < 0 || op.kind == Op::ERASE || (color && m[color - 1] == m[color]))) c.skip();
  if (range >= 0) {
    range = op.lo;
    if (m[range] < 0 || (range && m[range - 1] == m[range])) c.skip();
    while (op.hi + 1 < N && m[op.hi + 1] == m[range]) ++op.hi;
  }
  if (color >= 0) op.color = m[color];
  c.note("content %s, then %s, color refers to %d, range to %d", text(m).c_str(), text(op).c_str(), color, range);
  sys->apply_own(op, color, range);
  c.step();
  sp::apply(m, op);
  MC_CHECK(c, P::errors == 0, "a payload was used after it was destroyed");
  verify(*sys, m);
  Op next{Op::MARK, 2, 4, 1, 0};
  sys->apply(next);
  sp::apply(m, next);
  verify(*sys, m);
  MC_CHECK(c, P::errors == 0, "a payload was used after it was destroyed");
  c.state(text(m));
}

/// Put coloring @a m in the space with single mark calls, in one of several orders (different tree shapes).
template <typename S> void construct(mc::Ctx &c, S &sys, Model const &m, int order)
{
  std::vector<Op> ops;
  int n = int(m.size());
  for (int i = 0; i < n;) {
    int j = i;
    while (j + 1 < n && m[j + 1] == m[i]) ++j;
    if (m[i] >= 0) ops.push_back(Op{Op::MARK, i, j, m[i], 0});
    i = j + 1;
  }
  int k = int(ops.size());
  std::vector<int> idx;
  if (order == 0) for (int i = 0; i < k; ++i) idx.push_back(i);
  else if (order == 1) for (int i = k - 1; i >= 0; --i) idx.push_back(i);
  else { // from the middle outwards
    int a = k / 2, b = a - 1;
    while (a < k || b >= 0) {
      if (a < k) idx.push_back(a++);
      if (b >= 0) idx.push_back(b--);
    }
  }
  for (int i : idx) {
    c.note("%s", text(ops[i]).c_str());
    sys.apply(ops[i]);
  }
}

// Metric classes as wide as native integers, wrapping at their limits, with the limits as members.
template <typename T> struct Wide {
  T v{};
  static const Wide MIN, MAX;
  constexpr Wide() = default;
  constexpr explicit Wide(T x) : v(x) {}
  bool operator==(Wide const &o) const { return v == o.v; }
  bool operator!=(Wide const &o) const { return v != o.v; }
  bool operator<(Wide const &o) const { return v < o.v; }
  bool operator<=(Wide const &o) const { return v <= o.v; }
  bool operator>(Wide const &o) const { return v > o.v; }
  bool operator>=(Wide const &o) const { return v >= o.v; }
  Wide &operator++() { ++v; return *this; }
  Wide &operator--() { --v; return *this; }
};
template <typename T> const Wide<T> Wide<T>::MIN{std::numeric_limits<T>::min()};
template <typename T> const Wide<T> Wide<T>::MAX{std::numeric_limits<T>::max()};

/// A space of many ranges after two operations, and what each value should have.
template <typename PT> struct Many {
  std::unique_ptr<Sys<Wide<uint16_t>, PT>> s;
  Model m;
};
template <typename PT> Many<PT> many(mc::Ctx &c)
{
  static int const SIZES[] = {15, 48, 64, 130, 257};
  Many<PT> z;
  P::errors = 0;
  int n     = SIZES[c.choose(c.thorough ? 5 : 4)];
  int step  = c.flag() ? 4 : 2; // ranges of 2 values, with or without a gap between them
  int order = c.choose(4);
  z.s       = std::make_unique<Sys<Wide<uint16_t>, PT>>();
  z.s->conv = [](int x) { return Wide<uint16_t>(uint16_t(x)); };
  z.m.assign(n * step + 4, -1);
  c.note("%d ranges of 2 values every %d, order %d", n, step, order);
  for (int k = 0; k < n; ++k) {
    int i = order == 0 ? k : order == 1 ? n - 1 - k : order == 2 ? (k % 2 ? n / 2 + (k + 1) / 2 : n / 2 - k / 2) : (k * 37 + 5) % n; // 37 has no factor in common with the sizes
    if (order == 2 && i >= n) i = 0;
    Op op{Op::MARK, i * step + 1, i * step + 2, 1 + i % 3, 0};
    z.s->apply(op);
    sp::apply(z.m, op);
  }
  for (int d = 0; d < 2; ++d) {
    Op op{};
    int kind = c.choose(d ? 4 : 6);
    op.kind  = Op::Kind(std::min(kind, 3));
    op.fn    = kind == 4 ? 2 : kind == 5 ? 3 : 0;
    op.color = d + 1;
    int at   = c.choose(d ? 3 : 4);
    int len  = c.choose(d ? 3 : 4);
    int off  = c.choose(d ? 2 : 3); // inside a range, at its edge, beyond it
    int lo   = (at == 0 ? 0 : at == 1 ? n / 2 : at == 2 ? n - 1 : n / 3) * step + 1 + (off == 2 ? -1 : off);
    int hi   = std::min(int(z.m.size()) - 1, lo + (len == 0 ? 0 : len == 1 ? step : len == 2 ? 20 * step - 1 : n * step));
    op.lo    = lo;
    op.hi    = hi;
    c.note("%s", text(op).c_str());
    z.s->apply(op);
    sp::apply(z.m, op);
  }
  return z;
}

} // namespace sp
