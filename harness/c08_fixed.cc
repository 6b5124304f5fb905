// C08: FixedArena object life time, and the owning pointer of MemArena.
#include "mc.h"
#include <algorithm>
#include <memory>
#include <swoc/MemArena.h>
#include <vector>
using swoc::FixedArena;
using swoc::MemArena;

struct Counter {
  std::vector<void const *> live;
  int made = 0, died = 0, bad = 0;
  void born(void const *p)
  {
    ++made;
    if (std::find(live.begin(), live.end(), p) != live.end()) ++bad;
    live.push_back(p);
  }
  void gone(void const *p)
  {
    ++died;
    auto spot = std::find(live.begin(), live.end(), p);
    if (spot == live.end()) ++bad;
    else live.erase(spot);
  }
};
static Counter *counter;

template <size_t SIZE, size_t ALIGN> struct alignas(ALIGN) Obj {
  unsigned char body[SIZE];
  Obj() : Obj(1, 2) {}
  Obj(int a, int b)
  {
    for (size_t i = 0; i < SIZE; ++i) body[i] = static_cast<unsigned char>(a * 31 + b * 7 + i);
    counter->born(this);
  }
  Obj(std::unique_ptr<int> p) : Obj(*p, 3) {}
  ~Obj() { counter->gone(this); }
  bool good(int a, int b) const
  {
    for (size_t i = 0; i < SIZE; ++i)
      if (body[i] != static_cast<unsigned char>(a * 31 + b * 7 + i)) return false;
    return true;
  }
};

template <typename T> struct Pool {
  FixedArena<T> fa;
  struct Item {
    T *p;
    int a, b;
  };
  std::vector<Item> live;
  std::vector<T *> slots; // every storage location seen
  std::vector<T *> dead;  // destroyed and not yet reused, in order of destruction
  explicit Pool(MemArena &a) : fa(a) {}

  void make(mc::Ctx &c, MemArena &arena, int how, int id)
  {
    size_t size = arena.size();
    T *t;
    int a = id, b = id + 1;
    switch (how) {
    case 0: t = fa.make(a, b); break;
    case 1: t = fa.make(std::make_unique<int>(id)), b = 3; break;
    default: t = fa.make(), a = 1, b = 2; break;
    }
    c.note("make variant %d", how);
    MC_CHECK(c, t, "make returned nothing");
    MC_CHECK(c, uintptr_t(t) % alignof(T) == 0, "object is not aligned to %zu", alignof(T));
    for (auto const &i : live)
      MC_CHECK(c, reinterpret_cast<char *>(t) + sizeof(T) <= reinterpret_cast<char *>(i.p) || reinterpret_cast<char *>(i.p) + sizeof(T) <= reinterpret_cast<char *>(t), "object made on top of a live one");
    MC_CHECK(c, arena.contains(t) && arena.contains(reinterpret_cast<char *>(t) + sizeof(T) - 1), "object is outside of the arena");
    auto spot = std::find(dead.begin(), dead.end(), t);
    if (!dead.empty()) {
      MC_CHECK(c, spot != dead.end(), "destroyed storage was not reused");
      MC_CHECK(c, arena.size() == size, "arena grew although storage could be reused");
    } else {
      MC_CHECK(c, arena.size() == size + sizeof(T), "arena grew from %zu to %zu for an object of %zu", size, arena.size(), sizeof(T));
    }
    if (spot != dead.end()) dead.erase(spot);
    live.push_back({t, a, b});
    if (std::find(slots.begin(), slots.end(), t) == slots.end()) slots.push_back(t);
  }
  void destroy(mc::Ctx &c, int i)
  {
    c.note("destroy %d", i);
    T *t = live[i].p;
    fa.destroy(t);
    live.erase(live.begin() + i);
    dead.push_back(t);
  }
  void verify(mc::Ctx &c)
  {
    for (auto const &i : live) {
      MC_CHECK(c, i.p->good(i.a, i.b), "a live object was changed");
      MC_CHECK(c, std::count(counter->live.begin(), counter->live.end(), i.p) == 1, "object is not constructed once");
    }
  }
  std::string canon()
  {
    std::string s;
    for (auto const &i : live) s += mc::strf("L%d", int(std::find(slots.begin(), slots.end(), i.p) - slots.begin()));
    for (auto t : dead) s += mc::strf("D%d", int(std::find(slots.begin(), slots.end(), t) - slots.begin()));
    return s + mc::strf("#%zu", slots.size());
  }
};

static void run(mc::Ctx &c, int depth, int max_live)
{
  Counter k;
  counter = &k;
  alignas(64) char buf[256];
  int kind = c.choose(3);
  {
    auto arena = kind == 0 ? std::make_unique<MemArena>() : kind == 1 ? std::make_unique<MemArena>(16) : std::make_unique<MemArena>(swoc::MemSpan<void>(buf, sizeof(buf)));
    Pool<Obj<24, 8>> p(*arena);
    Pool<Obj<64, 32>> q(*arena);
    MC_CHECK(c, &p.fa.arena() == arena.get(), "arena() access");
    std::string extra;
    for (int d = 0; d < depth; ++d) {
      int mp = int(p.live.size()) < max_live ? 2 : 0, mq = int(q.live.size()) < max_live ? 1 : 0;
      int np = int(p.live.size()), nq = int(q.live.size());
      int op = c.choose(mp + mq + np + nq + 4);
      if (op < mp) {
        p.make(c, *arena, op, d);
      } else if ((op -= mp) < mq) {
        q.make(c, *arena, op * 2, d);
      } else if ((op -= mq) < np) {
        p.destroy(c, op);
      } else if ((op -= np) < nq) {
        q.destroy(c, op);
      } else if ((op -= nq) == 0) {
        c.note("clear of the first free list");
        p.fa.clear();
        p.dead.clear();
      } else if (op == 1) {
        c.note("clear of the second free list");
        q.fa.clear();
        q.dead.clear();
      } else if (op == 2) {
        c.note("alloc 5 from the arena");
        memset(arena->alloc(5).data(), 0xFF, 5);
        extra = std::to_string(arena->remaining());
      } else {
        c.note("destroy(nullptr), make by default");
        p.fa.destroy(nullptr);
        if (np < max_live) p.make(c, *arena, 2, d);
      }
      c.step();
      p.verify(c);
      q.verify(c);
      MC_CHECK(c, k.bad == 0, "object constructed twice or destroyed twice");
      MC_CHECK(c, k.live.size() == p.live.size() + q.live.size(), "%zu objects constructed, %zu live", k.live.size(), p.live.size() + q.live.size());
      if (c.pos > c.fresh_from) {
        auto s = mc::strf("%d|%zu|%zu|", kind, arena->size(), arena->remaining()) + p.canon() + "/" + q.canon();
        c.state(s);
        c.prune(s, depth - d - 1);
      }
    }
    for (auto &i : p.live) p.fa.destroy(i.p);
    for (auto &i : q.live) q.fa.destroy(i.p);
    MC_CHECK(c, k.bad == 0 && k.live.empty() && k.made == k.died, "%d constructions, %d destructions", k.made, k.died);
  }
}

MC_HISTORIES(two_pools, 3, "all histories of 8 (9) makes (3 argument forms), destroys of any live object, free list clears and foreign allocations on two pools of different size and alignment in one arena")
{
  run(c, c.thorough ? 9 : 8, 3);
}

MC_HISTORIES(single_pool, 3, "all histories of 12 (14) makes and destroys of any of up to 5 (6) live objects of pointer size, with all orders of reuse")
{
  Counter k;
  counter = &k;
  MemArena arena;
  Pool<Obj<8, 8>> p(arena);
  int depth = c.thorough ? 14 : 12, max = c.thorough ? 6 : 5;
  for (int d = 0; d < depth; ++d) {
    int n = int(p.live.size()), m = n < max ? 1 : 0;
    int op = c.choose(n + m);
    if (op < m) p.make(c, arena, 0, d);
    else p.destroy(c, op - m);
    c.step();
    p.verify(c);
    MC_CHECK(c, k.bad == 0 && k.live.size() == p.live.size(), "constructions and live objects disagree");
    if (c.pos > c.fresh_from) {
      auto s = p.canon();
      c.state(s);
      c.prune(s, depth - d - 1);
    }
  }
  for (auto &i : p.live) p.fa.destroy(i.p);
}

MC_HISTORIES(owning_pointer, 2, "all histories of 6 (8) creations, resets, swaps, moves and releases of two owning arena pointers: each arena destroyed exactly once, all memory returned")
{
  size_t base = mc::heap_bytes();
  int depth   = c.thorough ? 8 : 6;
  {
    MemArena::unique_ptr a(nullptr, MemArena::destroyer), b(nullptr, MemArena::destroyer);
    size_t na = 0, nb = 0;
    for (int d = 0; d < depth; ++d) {
      switch (c.choose(6)) {
      case 0: a.reset(MemArena::construct_self_contained()), na = sizeof(MemArena); break;
      case 1: a.reset(), na = 0; break;
      case 2: std::swap(a, b), std::swap(na, nb); break;
      case 3: b = std::move(a), nb = na, na = 0; break;
      case 4:
        if (!a) c.skip();
        a->alloc(5000), na += 5000;
        break;
      case 5:
        if (!a) c.skip();
        a->freeze();
        a.reset(a->make<MemArena>(std::move(*a)));
        a->thaw();
        na = sizeof(MemArena);
        break;
      }
      c.step();
      MC_CHECK(c, !a == (na == 0) && !b == (nb == 0), "pointer state");
      if (a) MC_CHECK(c, a->size() == na && a->contains(a.get()), "size %zu, expected %zu", a->size(), na);
      if (b) MC_CHECK(c, b->size() == nb && b->contains(b.get()), "size %zu, expected %zu", b->size(), nb);
      if (!a && !b) MC_CHECK(c, mc::heap_bytes() <= base, "%zu bytes leaked", mc::heap_bytes() - base);
      if (c.pos > c.fresh_from) c.state(mc::strf("%zu %zu", na, nb));
    }
  }
  MC_CHECK(c, mc::heap_bytes() <= base, "%zu bytes leaked", mc::heap_bytes() - base);
}

/// An object that makes objects in its constructor and destroys them in its destructor.
struct Tree {
  static inline FixedArena<Tree> *fa;
  Tree *child[2] = {nullptr, nullptr};
  int id;
  Tree(int shape, int n) : id(n)
  {
    counter->born(this);
    // shape: bits 0 and 1 for the children, the rest for their shapes
    for (int i = 0; i < 2; ++i)
      if (shape >> i & 1) child[i] = fa->make(shape >> 2, n * 3 + i + 1);
  }
  ~Tree()
  {
    for (auto t : child) fa->destroy(t);
    counter->gone(this);
  }
  bool good(int shape, int n) const
  {
    if (id != n) return false;
    for (int i = 0; i < 2; ++i)
      if (shape >> i & 1 ? !child[i] || !child[i]->good(shape >> 2, n * 3 + i + 1) : child[i] != nullptr) return false;
    return true;
  }
};
static size_t nodes(int shape) { return 1 + ((shape & 1) + (shape >> 1 & 1)) * (shape & 3 ? nodes(shape >> 2) : 0); }

MC_HISTORIES(nested, 3, "all histories of 6 (8) makes of trees of 4 (7) shapes and destroys of any of up to 4: the constructor of each object makes its children in the same arena, the destructor destroys them")
{
  Counter k;
  counter = &k;
  MemArena arena;
  FixedArena<Tree> fa(arena);
  Tree::fa = &fa;
  struct Root {
    Tree *t;
    int shape, id;
  };
  std::vector<Root> roots;
  static int const SHAPES[] = {0, 1, 3, 5, 2, 7, 15};
  int depth = c.thorough ? 8 : 6, shapes = c.thorough ? 7 : 4;
  size_t live = 0, peak = 0;
  std::string canon;
  for (int d = 0; d < depth; ++d) {
    int n = int(roots.size()), m = n < 4 ? shapes : 0;
    int op = c.choose(n + m);
    if (op < m) {
      c.note("make a tree of shape %d", SHAPES[op]);
      roots.push_back({fa.make(SHAPES[op], d), SHAPES[op], d});
      live += nodes(SHAPES[op]);
    } else {
      auto r = roots[op - m];
      c.note("destroy a tree of shape %d", r.shape);
      fa.destroy(r.t);
      live -= nodes(r.shape);
      roots.erase(roots.begin() + (op - m));
    }
    peak = std::max(peak, live);
    c.step();
    MC_CHECK(c, k.bad == 0 && k.live.size() == live, "%zu objects are alive, expected %zu; %d made over live ones or destroyed twice", k.live.size(), live, k.bad);
    for (auto &r : roots) MC_CHECK(c, r.t->good(r.shape, r.id), "tree %d was changed", r.id);
    for (size_t i = 0; i < k.live.size(); ++i) {
      MC_CHECK(c, arena.contains(k.live[i]), "object outside of the arena");
      for (size_t j = 0; j < i; ++j) MC_CHECK(c, size_t(std::abs(static_cast<char const *>(k.live[i]) - static_cast<char const *>(k.live[j]))) >= sizeof(Tree), "objects overlap");
    }
    MC_CHECK(c, arena.size() == peak * sizeof(Tree), "arena of %zu bytes for at most %zu objects of %zu at a time", arena.size(), peak, sizeof(Tree));
    canon.clear();
    for (auto &r : roots) canon += mc::strf("%d,", r.shape);
    c.state(canon + mc::strf(" %zu", peak));
  }
  for (auto &r : roots) fa.destroy(r.t);
  MC_CHECK(c, k.bad == 0 && k.live.empty(), "objects are alive at the end");
}

MC_HISTORIES(scale, 1, "400 (2000) makes with destroys of the oldest, newest, middle or every other object in 4 patterns and rounds: reuse, life time and content")
{
  Counter k;
  counter = &k;
  MemArena arena;
  Pool<Obj<24, 8>> p(arena);
  int n = c.thorough ? 2000 : 400, which = c.choose(5), batch = std::vector<int>{1, 3, 70, 300}[c.choose(4)];
  c.note("%d makes, destroys of pattern %d in batches of %d", n, which, batch);
  size_t peak = 0;
  for (int i = 0; i < n; ++i) {
    if (i % batch == batch - 1)
      for (int j = 0; j < batch && p.live.size() > 20; ++j) {
        int z = int(p.live.size());
        p.destroy(c, which == 0 ? 0 : which == 1 ? z - 1 : which == 2 ? z / 2 : which == 3 ? (j % 2 ? z - 1 : 0) : j * 37 % z);
      }
    p.make(c, arena, i % 3, i);
    peak = std::max(peak, p.live.size());
    c.step();
    if (i % 20 == 0) {
      p.verify(c);
      MC_CHECK(c, k.bad == 0 && k.live.size() == p.live.size(), "constructions and live objects disagree");
      MC_CHECK(c, arena.size() == peak * sizeof(Obj<24, 8>), "%zu bytes used for at most %zu objects at a time", arena.size(), peak);
    }
  }
  p.verify(c);
  for (auto &i : p.live) p.fa.destroy(i.p);
  MC_CHECK(c, k.bad == 0 && k.live.empty() && k.made == k.died, "%d constructions, %d destructions", k.made, k.died);
  c.outcome(mc::strf("%zu", peak));
}
