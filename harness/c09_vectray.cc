// C09: Vectray against std::vector, with element life time tracking.
#include "mc.h"
#include <memory>
#include <memory_resource>
#include <set>
#include <swoc/Vectray.h>
#include <vector>
using swoc::Vectray;

static std::set<void const *> *registry; // elements alive
static int errors;
static int throw_in; // throw from the n-th constructor call from now

struct Boom {};

template <size_t ALIGN> struct alignas(ALIGN) Elem {
  int v;
  Elem const *self; // a bytewise copy is detected
  void born(bool may_throw = true)
  {
    if (may_throw && throw_in > 0 && --throw_in == 0) throw Boom{};
    self = this;
    if (!registry->insert(this).second) ++errors;
    if (uintptr_t(this) % alignof(Elem)) ++errors;
  }
  void check() const { if (self != this || !registry->count(this)) ++errors; }
  Elem() : v(7) { born(); }
  Elem(int x) : v(x) { born(); }
  Elem(int a, int b) : v(a * 10 + b) { born(); }
  Elem(Elem const &o) : v(o.v) { o.check(); born(); }
  Elem(Elem &&o) noexcept(ALIGN < 16) : v(o.v) { o.check(); born(ALIGN >= 16); o.v = -1; }
  Elem &operator=(Elem const &o) { check(); o.check(); v = o.v; return *this; }
  Elem &operator=(Elem &&o) { check(); o.check(); v = o.v; if (&o != this) o.v = -1; return *this; }
  ~Elem()
  {
    check();
    registry->erase(this);
    self = nullptr;
    v    = -99;
  }
};

template <typename V, typename E> static std::vector<int> content(mc::Ctx &c, V &v)
{
  V const &cv = v;
  size_t n    = v.size();
  MC_CHECK(c, n < 100000, "size is %zu", n);
  MC_CHECK(c, cv.size() == n && v.empty() == (n == 0) && cv.empty() == (n == 0), "size and empty disagree");
  std::vector<int> out;
  for (size_t i = 0; i < n; ++i) {
    registry->count(&v[i]) ? void() : c.fail("element %zu of %zu is not a live object", i, n);
    MC_CHECK(c, v[i].self == &v[i], "element %zu was copied as raw bytes", i);
    MC_CHECK(c, &cv[i] == &v[i] && v.data() + i == &v[i] && cv.data() + i == &v[i], "element access %zu by index and pointer disagree", i);
    out.push_back(v[i].v);
  }
  size_t k = 0;
  for (auto &e : v) {
    MC_CHECK(c, k < n && &e == &v[k], "iteration position %zu of %zu", k, n);
    ++k;
  }
  MC_CHECK(c, k == n, "iteration visits %zu of %zu elements", k, n);
  k = 0;
  for (auto const &e : cv) {
    MC_CHECK(c, k < n && &e == &v[k], "const iteration position %zu of %zu", k, n);
    ++k;
  }
  MC_CHECK(c, k == n, "const iteration visits %zu of %zu elements", k, n);
  swoc::MemSpan<E> span        = v;
  swoc::MemSpan<E const> cspan = cv;
  MC_CHECK(c, span.count() == n && cspan.count() == n, "span view has %zu/%zu elements of %zu", span.count(), cspan.count(), n);
  if (n) {
    MC_CHECK(c, span.data() == v.data() && cspan.data() == v.data(), "span view is elsewhere");
    MC_CHECK(c, &v.front() == &v[0] && &cv.front() == &v[0] && &v.back() == &v[n - 1] && &cv.back() == &v[n - 1], "front/back");
  }
  return out;
}

template <typename V> static bool is_inline(V &v)
{
  auto p = reinterpret_cast<char const *>(v.data());
  return p >= reinterpret_cast<char const *>(&v) && p < reinterpret_cast<char const *>(&v) + sizeof(v);
}

static std::string text(std::vector<int> const &v)
{
  std::string s = "[";
  for (int x : v) s += mc::strf("%d ", x);
  return s + "]";
}

/// Two containers of inline capacity N and one of inline capacity M.
template <size_t N, size_t M, typename E> static void run(mc::Ctx &c, int depth, int max_size, bool faults)
{
  std::set<void const *> reg;
  registry = &reg;
  errors   = 0;
  throw_in = 0;
  using V  = Vectray<E, N>;
  using W  = Vectray<E, M>;
  {
    auto a = std::make_unique<V>(), b = std::make_unique<V>();
    std::vector<int> ma, mb;
    size_t reserved = 0; // a may hold that many elements without relocating them
    E *base         = nullptr;
    for (int d = 0; d < depth; ++d) {
      int op    = c.choose(faults ? 24 : 20);
      bool full = int(ma.size()) >= max_size;
      int val   = 100 + int(ma.size());
      switch (op) {
      case 0: {
        if (full) c.skip();
        c.note("push_back copy %d", val);
        E e(val);
        a->push_back(e);
        MC_CHECK(c, e.v == val, "push_back by copy changed its argument");
        ma.push_back(val);
      } break;
      case 1: {
        if (full) c.skip();
        c.note("push_back move %d", val);
        E e(val);
        a->push_back(std::move(e));
        MC_CHECK(c, e.v == -1, "push_back by move did not move");
        ma.push_back(val);
      } break;
      case 2:
        if (full) c.skip();
        c.note("emplace_back(2, 3)");
        a->emplace_back(2, 3);
        ma.push_back(23);
        break;
      case 3:
        if (full || ma.empty()) c.skip();
        c.note("push_back(own first element)");
        a->push_back((*a)[0]);
        ma.push_back(ma[0]);
        break;
      case 4:
        if (full || ma.empty()) c.skip();
        c.note("emplace_back(own last element)");
        a->emplace_back(a->back());
        ma.push_back(ma.back());
        break;
      case 5:
        if (ma.empty()) c.skip();
        c.note("pop_back");
        a->pop_back();
        ma.pop_back();
        break;
      case 6:
      case 7: {
        size_t n = op == 6 ? N : N + 2;
        c.note("reserve %zu", n);
        a->reserve(n);
        reserved = n;
        base     = a->data();
      } break;
      case 8: {
        c.note("copy construct b from a");
        auto t = std::make_unique<V>(*a);
        b      = std::move(t);
        mb     = ma;
      } break;
      case 9: {
        c.note("move construct b from a");
        E *store = is_inline(*a) ? nullptr : a->data();
        auto t   = std::make_unique<V>(std::move(*a));
        b        = std::move(t);
        MC_CHECK(c, !store || b->data() == store, "elements in dynamic storage were relocated by the move of the container");
        mb     = ma;
        ma     = content<V, E>(c, *a); // unspecified but valid
      } break;
      case 10: c.note("b = a"); *b = *a; mb = ma; break;
      case 11:
        c.note("b = move(a)");
        *b = std::move(*a);
        mb = ma;
        ma = content<V, E>(c, *a);
        break;
      case 12: c.note("self assignment"); *a = static_cast<V const &>(*a); break;
      case 13: c.note("swap roles of a and b"); std::swap(a, b); std::swap(ma, mb); break;
      case 14: {
        c.note("through a container of different inline size");
        E *store = is_inline(*a) ? nullptr : a->data();
        W w(std::move(*a));
        MC_CHECK(c, !store || w.data() == store, "elements in dynamic storage were relocated by the move to a container of inline size %zu", M);
        auto got = content<W, E>(c, w);
        MC_CHECK(c, got == ma, "moved to inline size %zu: %s, expected %s", M, text(got).c_str(), text(ma).c_str());
        a = std::make_unique<V>(std::move(w));
      } break;
      case 15:
        if (ma.empty()) c.skip();
        c.note("write to first and last");
        (*a)[0].v    = 55;
        a->back().v  = 56;
        ma[0]        = 55;
        ma.back()    = 56;
        break;
      case 16: {
        size_t n = N + 1;
        c.note("a constructed with %zu elements", n);
        a  = std::make_unique<V>(n);
        ma = std::vector<int>(n, 7);
      } break;
      case 17: {
        c.note("a constructed with %zu elements", N);
        a  = std::make_unique<V>(N);
        ma = std::vector<int>(N, 7);
      } break;
      case 18: {
        c.note("move with allocator");
        auto t = std::make_unique<V>(std::move(*a), std::allocator<E>{});
        b      = std::move(t);
        mb     = ma;
        ma     = content<V, E>(c, *a);
      } break;
      case 19:
        c.note("copy of a moved into b by value");
        {
          V t(*a);
          *b = std::move(t);
        }
        mb = ma;
        break;
      case 20:
      case 21:
      case 22:
      case 23: { // a constructor of an element throws
        int k   = 1 + c.choose(3);
        int how = op - 20;
        if (how == 3 && alignof(E) >= 16) c.skip(); // assignment with throwing moves: std::variant gives no guarantee
        c.note("operation %d with constructor call %d throwing", how, k);
        bool thrown = false;
        E e(val), f(val);
        throw_in = k;
        try {
          if (how == 0) a->push_back(e);
          else if (how == 1) a->push_back(std::move(f));
          else if (how == 2) a->emplace_back(2, 3);
          else *b = *a;
        } catch (Boom) {
          thrown = true;
        }
        throw_in = 0;
        if (how < 3 && !thrown) {
          ma.push_back(how == 2 ? 23 : val);
        } else if (how == 3) {
          if (!thrown) mb = ma;
          else mb = content<V, E>(c, *b); // basic guarantee
        } else {
          // The fixed to dynamic switch moves elements, so values are unspecified if a move threw, but none may be lost track of.
          auto now = content<V, E>(c, *a);
          if (k == 1) MC_CHECK(c, now == ma, "failed append changed the content from %s to %s", text(ma).c_str(), text(now).c_str());
          ma = now;
        }
      } break;
      }
      c.step();
      if (op < 8 || op == 15 || (op >= 20 && op < 23)) {
        if (reserved && ma.size() <= reserved) MC_CHECK(c, a->data() == base, "%zu elements were relocated although %zu were reserved", ma.size(), reserved);
        else reserved = 0;
      } else {
        reserved = 0;
      }
      auto ca = content<V, E>(c, *a), cb = content<V, E>(c, *b);
      MC_CHECK(c, ca == ma, "content is %s, a vector has %s", text(ca).c_str(), text(ma).c_str());
      MC_CHECK(c, cb == mb, "content of the other is %s, a vector has %s", text(cb).c_str(), text(mb).c_str());
      MC_CHECK(c, errors == 0, "element life time error");
      MC_CHECK(c, reg.size() == ma.size() + mb.size(), "%zu elements alive, containers have %zu", reg.size(), ma.size() + mb.size());
      if (c.pos > c.fresh_from) {
        auto s = text(ca) + text(cb) + (is_inline(*a) ? "i" : "d") + (is_inline(*b) ? "i" : "d") + std::to_string(reserved);
        c.state(s);
        c.prune(s, depth - d - 1);
      }
    }
  }
  MC_CHECK(c, errors == 0 && reg.empty(), "%zu elements left, %d life time errors after destruction", reg.size(), errors);
}

MC_HISTORIES(inline1, 2, "inline capacity 1 (and 2), all histories of 6 (7) of 20 operations on two containers of non-trivial elements")
{
  run<1, 2, Elem<8>>(c, c.thorough ? 7 : 6, 4, false);
}
MC_HISTORIES(inline2, 2, "inline capacity 2 (and 1), all histories of 6 (7) of 20 operations")
{
  run<2, 1, Elem<8>>(c, c.thorough ? 7 : 6, 5, false);
}
MC_HISTORIES(inline3_aligned, 2, "inline capacity 3 (and 5), over-aligned elements, all histories of 5 (6) of 20 operations")
{
  run<3, 5, Elem<32>>(c, c.thorough ? 6 : 5, 7, false);
}
MC_HISTORIES(throwing, 2, "inline capacity 2, all histories of 4 (5) of 24 operations with element constructors that throw at each call")
{
  if (c.flag()) run<2, 3, Elem<8>>(c, c.thorough ? 5 : 4, 5, true); // moves do not throw
  else run<2, 3, Elem<16>>(c, c.thorough ? 5 : 4, 5, true);
}
MC_HISTORIES(long_growth, 1, "appends up to 3 (4) times the inline capacity 1..8 with a pop after every position, trivial and string elements")
{
  int which = c.choose(2), pops = c.choose(4), at = c.choose(26);
  auto go = [&](auto &v, auto mk) {
    std::vector<std::decay_t<decltype(mk(0))>> m;
    for (int i = 0; i < 24; ++i) {
      if (i == at)
        for (int k = 0; k < pops && !m.empty(); ++k) v.pop_back(), m.pop_back();
      v.push_back(mk(i));
      m.push_back(mk(i));
      c.step();
      MC_CHECK(c, v.size() == m.size(), "size %zu, expected %zu", v.size(), m.size());
      for (size_t k = 0; k < m.size(); ++k) MC_CHECK(c, v[k] == m[k], "element %zu differs", k);
    }
    auto copy = v;
    MC_CHECK(c, copy.size() == m.size() && std::equal(m.begin(), m.end(), copy.begin()), "copy differs");
    c.state(mc::strf("%d %d %d %zu", which, pops, at, m.size()));
  };
  auto str = [](int i) { return std::string(20 + i, char('a' + i)); };
  auto num = [](int i) { return i * 3; };
  auto all = [&](auto mk) {
    using T = std::decay_t<decltype(mk(0))>;
    Vectray<T, 1> v1;
    Vectray<T, 2> v2;
    Vectray<T, 4> v4;
    Vectray<T, 8> v8;
    go(v1, mk), go(v2, mk), go(v4, mk), go(v8, mk);
  };
  if (which) all(str);
  else all(num);
}
MC_INPUTS(allocator, 1, "memory of the dynamic storage comes from the given allocator and is all returned")
{
  struct Res : std::pmr::memory_resource {
    size_t out = 0, total = 0;
    void *do_allocate(size_t n, size_t a) override { out += n, total += n; return std::pmr::new_delete_resource()->allocate(n, a); }
    void do_deallocate(void *p, size_t n, size_t a) override { out -= n; std::pmr::new_delete_resource()->deallocate(p, n, a); }
    bool do_is_equal(std::pmr::memory_resource const &o) const noexcept override { return this == &o; }
  } res;
  int n   = c.choose(6);
  int how = c.choose(3);
  {
    using V = Vectray<int, 2, std::pmr::polymorphic_allocator<int>>;
    V v     = how == 0 ? V(std::pmr::polymorphic_allocator<int>(&res)) : V(size_t(n), std::pmr::polymorphic_allocator<int>(&res));
    if (how == 0)
      for (int i = 0; i < n; ++i) v.push_back(i);
    if (how == 2) v.push_back(1), v.push_back(2), v.push_back(3);
    c.step();
    size_t sz = how == 2 ? n + 3 : n;
    MC_CHECK(c, v.size() == sz, "size %zu", v.size());
    if (sz > 2) MC_CHECK(c, res.total >= sz * sizeof(int), "dynamic storage is not from the given allocator");
    else MC_CHECK(c, res.total == 0, "memory allocated for %zu elements", sz);
    c.outcome(mc::strf("%d %d %zu", n, how, res.total));
  }
  MC_CHECK(c, res.out == 0, "memory not returned");
  static_assert(std::is_same_v<Vectray<int, 1>::reference, int &> && std::is_same_v<Vectray<int, 1>::const_pointer, int const *>);
}

MC_HISTORIES(allocator_histories, 2, "all histories of 6 (7) of 8 operations on a container with an allocator: it is the source of all its memory")
{
  struct Res : std::pmr::memory_resource {
    size_t out = 0, total = 0;
    void *do_allocate(size_t n, size_t a) override { out += n, total += n; return std::pmr::new_delete_resource()->allocate(n, a); }
    void do_deallocate(void *p, size_t n, size_t a) override { out -= n; std::pmr::new_delete_resource()->deallocate(p, n, a); }
    bool do_is_equal(std::pmr::memory_resource const &o) const noexcept override { return this == &o; }
  } res, other;
  struct Default {
    std::pmr::memory_resource *was;
    ~Default() { std::pmr::set_default_resource(was); }
  } def{std::pmr::set_default_resource(&other)};
  using A = std::pmr::polymorphic_allocator<int>;
  using V = Vectray<int, 2, A>;
  {
    auto v = std::make_unique<V>(A(&res));
    std::vector<int> m;
    bool dynamic = false;
    for (int i = 0, n = c.thorough ? 7 : 6; i < n; ++i) {
      int op = c.choose(8);
      c.note("operation %d", op);
      switch (op) {
      case 0: v->push_back(i), m.push_back(i); break;
      case 1: v->emplace_back(i), m.push_back(i); break;
      case 2: {
        int k = i;
        v->push_back(std::move(k)), m.push_back(i);
      } break;
      case 3:
        if (m.empty()) return c.skip();
        v->pop_back(), m.pop_back();
        break;
      case 4: v->reserve(1); break;
      case 5: v->reserve(5), dynamic = true; break;
      case 6: v = std::make_unique<V>(std::move(*v)); break;
      case 7: {
        A alloc(&res);
        V w(alloc);
        w.push_back(1);
        w  = std::move(*v); // the content moves, of either kind
        v  = std::make_unique<V>(std::move(w));
      } break;
      }
      dynamic = dynamic || m.size() > 2;
      c.step();
      MC_CHECK(c, v->size() == m.size() && std::equal(m.begin(), m.end(), v->begin()), "content after operation %d", i);
      MC_CHECK(c, other.total == 0, "%zu bytes are not from the allocator after operation %d", other.total, i);
      MC_CHECK(c, dynamic == (res.total > 0), "%zu bytes allocated after operation %d", res.total, i);
    }
    c.outcome(mc::strf("%zu %zu %zu", m.size(), res.total, res.out));
  }
  MC_CHECK(c, res.out == 0, "memory not returned");
}

template <size_t N, typename E> static void big(mc::Ctx &c)
{
  std::set<void const *> reg;
  registry = &reg;
  errors   = 0;
  throw_in = 0;
  using V  = Vectray<E, N>;
  int n    = std::vector<int>{31, 64, 130, 300, 1500}[c.choose(c.thorough ? 5 : 4)];
  int how = c.choose(5), reserve = c.choose(3), after = c.choose(6);
  c.note("inline %zu, %d elements, variant %d, reserve %d, then %d", N, n, how, reserve, after);
  {
    auto a = how == 4 ? std::make_unique<V>(size_t(n)) : std::make_unique<V>();
    std::vector<int> m(how == 4 ? n : 0, 7);
    if (reserve) a->reserve(reserve == 1 ? n : n / 2);
    E *base = a->data();
    for (int i = 0; i < n; ++i) {
      switch (how) {
      case 0: { E e(i); a->push_back(e); m.push_back(i); } break;
      case 1: a->push_back(E(i)); m.push_back(i); break;
      case 2: a->emplace_back(i, 1); m.push_back(i * 10 + 1); break;
      case 3:
        if (i < 3) a->emplace_back(i), m.push_back(i);
        else a->push_back((*a)[i / 2]), m.push_back(m[i / 2]); // an own element while growing
        break;
      case 4: a->emplace_back(i); m.push_back(i); break;
      }
      if (reserve == 1 && how < 4) MC_CHECK(c, a->data() == base, "%zu elements were relocated although %d were reserved", m.size(), n);
      if (i % 13 == 12) a->pop_back(), m.pop_back();
      c.step();
      if (i % 11 == 0 || i + 1 == n) {
        auto got = content<V, E>(c, *a);
        MC_CHECK(c, got == m, "content of %zu elements differs", m.size());
      }
      if (how == 3 && i > 3 && i >= int(m.size())) break;
    }
    auto b = std::make_unique<V>();
    b->emplace_back(99);
    std::vector<int> mb{99};
    switch (after) {
    case 0: b = std::make_unique<V>(*a); mb = m; break;
    case 1: b = std::make_unique<V>(std::move(*a)); mb = m; m = content<V, E>(c, *a); break;
    case 2: *b = *a; mb = m; break;
    case 3: *b = std::move(*a); mb = m; m = content<V, E>(c, *a); break;
    case 4: {
      Vectray<E, N + 70> w(std::move(*a));
      auto got = content<Vectray<E, N + 70>, E>(c, w);
      MC_CHECK(c, got == m, "moved to another inline size: %zu elements of %zu, or other content", got.size(), m.size());
      b  = std::make_unique<V>(std::move(w));
      mb = m;
      m  = content<V, E>(c, *a);
    } break;
    case 5:
      while (!m.empty()) {
        a->pop_back(), m.pop_back();
        if (m.size() % 16 == 0) MC_CHECK(c, (content<V, E>(c, *a)) == m, "content of %zu elements differs", m.size());
      }
      break;
    }
    MC_CHECK(c, (content<V, E>(c, *a)) == m && (content<V, E>(c, *b)) == mb, "content after the operation differs");
    MC_CHECK(c, errors == 0, "element life time error");
    MC_CHECK(c, reg.size() == m.size() + mb.size(), "%zu elements alive, containers have %zu", reg.size(), m.size() + mb.size());
    c.outcome(mc::strf("%zu %d %d", N, n, how));
  }
  MC_CHECK(c, errors == 0 && reg.empty(), "%zu elements left, %d life time errors after destruction", reg.size(), errors);
}
MC_HISTORIES(scale, 2, "31..300 (1500) elements appended in 5 ways with 3 reservations and pops in between, inline capacities 1 to 290, then copied, moved, or emptied")
{
  switch (c.choose(6)) {
  case 5: big<290, Elem<8>>(c); break;
  case 0: big<1, Elem<8>>(c); break;
  case 1: big<8, Elem<32>>(c); break;
  case 2: big<64, Elem<8>>(c); break;
  case 3: big<100, Elem<16>>(c); break;
  case 4: big<16, Elem<64>>(c); break;
  }
}
MC_HISTORIES(inline_capacity, 1, "trivial elements: filled to just below, exactly and beyond inline capacities of 255, 256, 65535 and 65536, copied, moved and emptied")
{
  auto run = [&](auto cap, int over) {
    constexpr size_t N = decltype(cap)::value;
    using V = Vectray<uint8_t, N>;
    auto n = int(N) + over;
    c.note("inline %zu, %d elements", size_t(N), n);
    auto v = std::make_unique<V>();
    for (int i = 0; i < n; ++i) {
      v->push_back(uint8_t(i * 7));
      c.step();
      if (v->size() != size_t(i + 1)) c.fail("size is %zu after %d elements", size_t(v->size()), i + 1);
    }
    auto same = [&](V &w, size_t count, char const *what) {
      MC_CHECK(c, w.size() == count && !w.empty() == (count > 0), "%s has %zu elements, expected %zu", what, size_t(w.size()), count);
      size_t i = 0;
      for (auto x : w) {
        if (x != uint8_t(i * 7) || w[i] != x) c.fail("%s has another element %zu", what, i);
        ++i;
      }
      MC_CHECK(c, i == count, "iteration of %s has %zu elements", what, i);
    };
    same(*v, n, "the container");
    bool own = reinterpret_cast<char *>(v->data()) >= reinterpret_cast<char *>(v.get()) && reinterpret_cast<char *>(v->data()) < reinterpret_cast<char *>(v.get() + 1);
    MC_CHECK(c, own == (over <= 0), "%d elements are %sinside", n, own ? "" : "not ");
    auto w = std::make_unique<V>(*v);
    same(*w, n, "a copy");
    auto x = std::make_unique<V>(std::move(*v));
    same(*x, n, "a moved container");
    while (x->size()) x->pop_back();
    same(*x, 0, "an emptied container");
    *x = *w;
    same(*x, n, "an assigned container");
    c.outcome(mc::strf("%zu %d", size_t(N), over));
  };
  int over = c.choose(3) - 1;
  switch (c.choose(4)) {
  case 0: run(std::integral_constant<size_t, 255>(), over); break;
  case 1: run(std::integral_constant<size_t, 256>(), over); break;
  case 2: run(std::integral_constant<size_t, 65535>(), over); break;
  case 3: run(std::integral_constant<size_t, 65536>(), over); break;
  }
}
