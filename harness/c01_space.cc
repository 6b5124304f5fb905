// C01: point lookup in a DiscreteSpace agrees with the pointwise model.
#include "space_common.h"
using namespace sp;

template <typename S> static void verify(mc::Ctx &c, S &sys, Model const &m, int lo, int hi)
{
  auto const &cs = sys.s;
  for (int x = lo; x <= hi; ++x) {
    auto spot = sys.s.find(sys.conv(x));
    int got   = spot == sys.s.end() ? -1 : val(spot->payload());
    MC_CHECK(c, got == m[x], "find(%d) gives payload %d, the history gives %d; model %s", x, got, m[x], text(m).c_str());
    if (got >= 0) {
      MC_CHECK(c, spot->range().contains(sys.conv(x)), "find(%d) returned a range that does not contain it", x);
    }
    auto cspot = cs.find(sys.conv(x));
    int cgot   = cspot == cs.end() ? -1 : val(const_cast<std::remove_const_t<std::remove_reference_t<decltype(*cspot)>> &>(*cspot).payload());
    MC_CHECK(c, cgot == m[x], "const find(%d) gives payload %d, the history gives %d", x, cgot, m[x]);
  }
}

// Any coloring of N points, then one arbitrary operation (the induction step over all reachable contents).
template <int N> static void any_content_step(mc::Ctx &c, int nc, bool zero)
{
  auto sys = std::make_unique<Sys<M<N>, int>>();
  sys->conv = [](int x) { return M<N>(x); };
  Model m(N);
  for (int i = 0; i < N; ++i) m[i] = c.choose(nc + 1 + (zero ? 1 : 0)) - 1 + (zero ? 0 : 0);
  if (!zero) for (auto &v : m) if (v >= 0) v += 1;
  int order = c.choose(3);
  construct(c, *sys, m, order);
  Op op = choose_op(c, N, nc, zero);
  c.note("content %s, then %s", text(m).c_str(), text(op).c_str());
  // Lookups in between must not matter: none of them, the last one being the maximum, or one in the range.
  if (order == 1) verify(c, *sys, m, 0, N - 1);
  if (order == 2) sys->s.find(sys->conv((op.lo + op.hi) / 2));
  sys->apply(op);
  c.step();
  sp::apply(m, op);
  verify(c, *sys, m, 0, N - 1);
  c.state(text(m));
  if (order == 2) {
    sys->s.clear();
    m.assign(N, -1);
    c.note("clear");
    verify(c, *sys, m, 0, N - 1);
    Op again{Op::MARK, op.lo, op.lo, 1, 0};
    c.note("%s", text(again).c_str());
    sys->apply(again);
    sp::apply(m, again);
    verify(c, *sys, m, 0, N - 1);
  }
}

MC_HISTORIES(any_content_any_op, 5, "every coloring of a 7 value metric (8 in thorough) with 2 colors, built in 3 orders, then every mark/erase/fill/blend (6 blend functions) over every range, with and without lookups before it; find() of every value against the pointwise model; cleared and used again")
{
  if (c.thorough) any_content_step<8>(c, 2, false);
  else any_content_step<7>(c, 2, false);
}

MC_HISTORIES(any_content_any_op_default_color, 5, "as any_content_any_op on 5 (6) values with colors 0..2 where 0 equals a default constructed payload")
{
  if (c.thorough) any_content_step<6>(c, 2, true);
  else any_content_step<5>(c, 2, true);
}

// All histories from the empty space.
template <int N> static void histories(mc::Ctx &c, int depth)
{
  auto sys = std::make_unique<Sys<M<N>, int>>();
  sys->conv = [](int x) { return M<N>(x); };
  Model m(N, -1);
  for (int d = 0; d < depth; ++d) {
    Op op = choose_op(c, N, 2);
    c.note("%s", text(op).c_str());
    sys->apply(op);
    c.step();
    sp::apply(m, op);
    if (d + 1 == depth || c.pos > c.fresh_from) {
      verify(c, *sys, m, 0, N - 1);
      c.state(text(m));
    }
  }
}
MC_HISTORIES(histories_3, 4, "every history of 3 operations from empty over a 4 value metric, no state matching")
{
  histories<4>(c, 3);
}
static void histories_4_body(mc::Ctx &c) { histories<3>(c, c.thorough ? 4 : 3); }
static mc::Reg reg_h4("histories_3values", "every history of 3 (4 in thorough) operations over a 3 value metric, no state matching", 4, true, histories_4_body);

// Larger trees: seven separated singletons inserted in every order, then one operation.
MC_HISTORIES(tree_shapes, 4, "6 (7) separated ranges inserted in every order (every tree shape and recolouring path), one removed or none, then one operation of 5 kinds over every range of a 15 value metric")
{
  constexpr int N = 15;
  int k           = c.thorough ? 7 : 6;
  auto sys        = std::make_unique<Sys<M<N>, int>>();
  sys->conv       = [](int x) { return M<N>(x); };
  Model m(N, -1);
  std::vector<int> left;
  for (int i = 0; i < k; ++i) left.push_back(2 * i + 1);
  while (!left.empty()) {
    int i = c.choose(int(left.size()));
    Op op{Op::MARK, left[i], left[i], 1 + (left[i] / 2) % 2, 0};
    left.erase(left.begin() + i);
    c.note("%s", text(op).c_str());
    sys->apply(op);
    sp::apply(m, op);
  }
  int gone = c.choose(k + 1) - 1;
  if (gone >= 0) {
    Op op{Op::ERASE, 2 * gone + 1, 2 * gone + 1, 0, 0};
    c.note("%s", text(op).c_str());
    sys->apply(op);
    sp::apply(m, op);
  }
  Op op{};
  int kind = c.choose(5);
  op.kind  = kind < 3 ? Op::Kind(kind) : Op::BLEND;
  op.fn    = kind == 3 ? 0 : 2;
  op.color = 1;
  op.lo    = c.choose(N);
  op.hi    = op.lo + c.choose(N - op.lo);
  c.note("%s", text(op).c_str());
  sys->apply(op);
  c.step();
  sp::apply(m, op);
  verify(c, *sys, m, 0, N - 1);
  c.state(text(m));
}

template <typename T> static Wide<T> edge(int x) // 0,1,2 -> lowest values, 3 -> middle, 4,5,6 -> highest
{
  if (x < 3) return Wide<T>(T(std::numeric_limits<T>::min() + x));
  if (x == 3) return Wide<T>(17);
  return Wide<T>(T(std::numeric_limits<T>::max() - (6 - x)));
}
template <typename T> static void native(mc::Ctx &c)
{
  auto sys  = std::make_unique<Sys<Wide<T>, P>>();
  sys->conv = &edge<T>;
  Model m(7, -1);
  // Points 2..3 and 3..4 stand for long stretches; a range [2,3] covers everything between.  The model keeps the
  // sample points and the verification looks at them and at one point inside each stretch.
  Model gap(7, -1); // gap[i]: content strictly between point i and i+1
  int depth = 2;
  for (int d = 0; d < depth; ++d) {
    Op op = choose_op(c, 7, 2);
    c.note("%s", text(op).c_str());
    sys->apply(op);
    c.step();
    sp::apply(m, op);
    if (op.hi > op.lo) {
      Op g = op;
      g.hi = op.hi - 1;
      sp::apply(gap, g);
    }
    verify(c, *sys, m, 0, 6);
    for (int i : {2, 3}) {
      Wide<T> mid(T(edge<T>(i).v + (edge<T>(i + 1).v - edge<T>(i).v) / 2));
      auto spot = sys->s.find(mid);
      int got   = spot == sys->s.end() ? -1 : spot->payload().v;
      MC_CHECK(c, got == gap[i], "find(%lld) gives payload %d, the history gives %d", (long long)mid.v, got, gap[i]);
    }
    c.state(text(m) + text(gap));
  }
  MC_CHECK(c, P::errors == 0, "payload used after destruction");
}
MC_HISTORIES(native_u8, 4, "every history of 2 operations over 7 sample points of an 8 bit metric class including both limits")
{
  native<uint8_t>(c);
}
MC_HISTORIES(native_i32, 4, "every history of 2 operations over 7 sample points of a wrapping 32 bit unsigned metric including both limits")
{
  native<uint32_t>(c);
}

MC_HISTORIES(many, 4, "spaces of 15..130 (257) ranges, separated or touching, built in 4 orders, then 2 operations over 1, 2, 20 or all ranges at the ends, in the middle and off by one: find() of every value")
{
  auto sys = many<P>(c);
  c.step();
    c.step();
  for (int x = 0; x < int(sys.m.size()); ++x) {
    auto spot = sys.s->s.find(sys.s->conv(x));
    int got   = spot == sys.s->s.end() ? -1 : spot->payload().v;
    MC_CHECK(c, got == sys.m[x], "find(%d) gives payload %d, the history gives %d", x, got, sys.m[x]);
  }
  c.outcome(text(sys.m));
  MC_CHECK(c, P::errors == 0, "payload used after destruction");
}

MC_HISTORIES(own_arguments, 5, "every coloring of a 5 value metric (6 in thorough) built in 3 orders, then every operation with a payload or range that is a reference to one in the space, then a mark")
{
  auto v = [&](auto &s, Model const &m) { verify(c, s, m, 0, int(m.size()) - 1); };
  if (c.thorough) own_arguments_step<6>(c, v);
  else own_arguments_step<5>(c, v);
}
