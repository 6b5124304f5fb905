// Driver and reference model for MemArena, shared by C06 (integrity of spans) and C07 (accounting, release).
#pragma once
#include "mc.h"
#include <cstdlib>
#include <list>
#include <memory>
#include <swoc/MemArena.h>
#include <vector>
using swoc::MemArena;
using swoc::MemSpan;

struct Live {
  char *p;
  size_t n;
  bool frozen;
  unsigned char tag;
};

struct BlockInfo {
  char const *data;
  size_t size, allocated;
  bool frozen;
};

struct Buffers { // static blocks, freed after the arenas
  std::list<void *> v;
  ~Buffers() { for (auto p : v) free(p); }
  MemSpan<void> make(size_t n)
  {
    void *p = aligned_alloc(64, (n + 63) / 64 * 64);
    v.push_back(p);
    return {p, n};
  }
};

struct alignas(32) Wide {
  unsigned char b[32];
};

struct ArenaModel {
  mc::Ctx &c;
  Buffers bufs; // destroyed last
  std::unique_ptr<MemArena> a;
  bool accounting; // C07 rather than C06
  std::vector<Live> live;
  unsigned tag = 0;
  // documented hint for the next block: its usable size is at least this
  size_t hint = 0;
  bool has_static = false;
  void const *static_buf = nullptr;
  size_t active_sum = 0, frozen_sum = 0;
  bool fresh = false, was_fresh = false; // the last operation was the allocation of live.back()

  ArenaModel(mc::Ctx &ctx, bool acc) : c(ctx), accounting(acc) {}

  static unsigned char byte(unsigned char t, size_t i) { return static_cast<unsigned char>(t * 37 + i * 11 + (i >> 8)); }

  std::vector<BlockInfo> blocks()
  {
    std::vector<BlockInfo> out;
    for (auto spot = a->begin(); spot != a->end() && out.size() < 4000; ++spot) {
      out.push_back({spot->data(), size_t(spot->allocated_data_end() - spot->data()) + spot->remaining(), size_t(spot->allocated_data_end() - spot->data()), false});
    }
    for (auto spot = a->frozen_begin(); spot != a->frozen_end() && out.size() < 4000; ++spot) {
      out.push_back({spot->data(), size_t(spot->allocated_data_end() - spot->data()) + spot->remaining(), size_t(spot->allocated_data_end() - spot->data()), true});
    }
    return out;
  }
  size_t active_blocks()
  {
    size_t n = 0;
    for (auto spot = a->begin(); spot != a->end() && n < 4000; ++spot) ++n;
    return n;
  }

  void add(char *p, size_t n, size_t want, size_t align)
  {
    if (!accounting) {
      MC_CHECK(c, n == want, "allocation of %zu bytes returned a span of %zu bytes", want, n);
      MC_CHECK(c, (uintptr_t(p) & (align - 1)) == 0, "allocation of %zu bytes is not aligned to %zu", want, align);
      for (auto const &l : live)
        MC_CHECK(c, n == 0 || l.n == 0 || p + n <= l.p || l.p + l.n <= p, "allocation of %zu bytes overlaps a live span of %zu bytes", n, l.n);
      if (n) MC_CHECK(c, a->contains(p) && a->contains(p + n - 1), "allocated span is not inside the arena");
    }
    ++tag;
    for (size_t i = 0; i < n; ++i) p[i] = char(byte(tag, i));
    live.push_back({p, n, false, static_cast<unsigned char>(tag)});
    active_sum += want;
    fresh = n > 0;
  }

  size_t expected_hint() // documented lower bound for the usable size of the next new block
  {
    if (hint) return hint;
    if (active_blocks() == 0) return frozen_sum;
    return 0;
  }

  template <typename F> void allocate(F &&f, size_t n, size_t align)
  {
    size_t nb       = blocks().size();
    size_t act      = active_blocks();
    size_t want     = expected_hint();
    size_t reserved = a->reserved_size();
    size_t rem      = a->remaining();
    size_t pad      = 0;
    if (nb) {
      auto r = a->remnant();
      pad    = size_t(-uintptr_t(r.data())) & (align - 1);
    }
    size_t widest = 0; // if all blocks are empty, one that is wide enough must be used
    bool empty    = true;
    for (auto const &b : blocks())
      if (!b.frozen) widest = std::max(widest, b.size), empty &= b.allocated == 0;
    size_t heap = mc::heap_bytes();
    auto span   = f();
    size_t heap2 = mc::heap_bytes();
    auto after  = blocks();
    if (accounting) {
      if (act && n + pad <= rem) {
        MC_CHECK(c, after.size() == nb && a->reserved_size() == reserved, "%zu bytes aligned %zu fit the remnant of %zu but a block was added", n, align, rem);
        MC_CHECK(c, heap2 <= heap, "%zu bytes fit the remnant of %zu but memory was taken from the system", n, rem);
      }
      if (act && empty && n + align - 1 <= widest)
        MC_CHECK(c, after.size() == nb && heap2 <= heap, "%zu bytes aligned %zu fit an empty block of %zu but a block was added", n, align, widest);
      if (after.size() > nb) {
        MC_CHECK(c, after.size() == nb + 1, "one allocation added %zu blocks", after.size() - nb);
        // the new block has the allocation in it
        size_t sz = 0;
        for (auto const &b : after)
          if (!b.frozen && b.data <= span.data() && span.data() <= b.data + b.size) sz = std::max(sz, b.size);
        if (n) MC_CHECK(c, sz >= want, "new block has %zu bytes, at least %zu were asked for", sz, want);
      }
    }
    if (after.size() > nb) hint = 0;
    add(span.data(), span.size(), n, align);
  }

  void alloc(size_t n, size_t align)
  {
    c.note("alloc(%zu, %zu)", n, align);
    allocate([&] { auto s = a->alloc(n, align); return MemSpan<char>(static_cast<char *>(s.data()), s.size()); }, n, align);
  }
  void pmr_alloc(size_t n, size_t align)
  {
    c.note("pmr allocate(%zu, %zu)", n, align);
    std::pmr::memory_resource *r = a.get();
    allocate([&] { return MemSpan<char>(static_cast<char *>(r->allocate(n, align)), n); }, n, align);
    r->deallocate(live.back().p, n, align); // documented to do nothing
    if (!accounting) MC_CHECK(c, r->is_equal(*a) && !r->is_equal(*std::pmr::new_delete_resource()), "memory resource identity");
  }
  void make_object()
  {
    c.note("make<Wide>, alloc_span<double>(3)");
    allocate([&] { return MemSpan<char>(reinterpret_cast<char *>(a->make<Wide>()), sizeof(Wide)); }, sizeof(Wide), alignof(Wide));
    allocate([&] { auto s = a->alloc_span<double>(3); return MemSpan<char>(reinterpret_cast<char *>(s.data()), s.size() * sizeof(double)); }, 3 * sizeof(double), alignof(double));
  }
  void localize(bool cstr)
  {
    c.note(cstr ? "localize_c" : "localize");
    auto src = std::make_unique<char[]>(5); // exact size, so reading past it is reported
    memcpy(src.get(), "abcde", 5);
    MemSpan<char const> view{src.get(), 5};
    swoc::MemSpan<char> r;
    allocate([&] {
      bool terminated = live.size() & 1; // the forms for C strings
      r = terminated ? (cstr ? a->localize_c("abcde") : a->localize("abcde")) : cstr ? a->localize_c(view) : a->localize(view);
      if (!accounting) MC_CHECK(c, r.size() == 5 && memcmp(r.data(), "abcde", 5) == 0 && (!cstr || r.data()[5] == 0), "localized text is %s", mc::show(r.data(), r.size()).c_str());
      return MemSpan<char>(r.data(), cstr ? 6 : r.size());
    }, cstr ? 6 : 5, 1);
  }
  void require(size_t n, size_t align)
  {
    c.note("require(%zu, %zu) then remnant", n, align);
    size_t nb   = blocks().size();
    size_t want = expected_hint();
    a->require(n, align);
    auto after = blocks();
    auto r     = a->remnant();
    size_t pad = size_t(-uintptr_t(r.data())) & (align - 1);
    if (accounting) {
      MC_CHECK(c, a->remaining() == r.size(), "remaining() is %zu, the remnant has %zu bytes", a->remaining(), r.size());
      MC_CHECK(c, r.size() >= n + pad, "require(%zu, %zu) left a remnant of %zu bytes with padding %zu", n, align, r.size(), pad);
      if (after.size() > nb) MC_CHECK(c, r.size() >= want, "new block has %zu bytes, at least %zu were asked for", r.size(), want);
    } else if (r.size()) {
      MC_CHECK(c, a->contains(r.data()) && a->contains(static_cast<char *>(r.data()) + r.size() - 1), "remnant is not inside the arena");
      for (auto const &l : live)
        MC_CHECK(c, l.n == 0 || static_cast<char *>(r.data()) + r.size() <= l.p || l.p + l.n <= r.data(), "remnant overlaps a live span");
      memset(r.data(), 0xEE, r.size()); // scratch use of the remnant is allowed
    }
    if (after.size() > nb) hint = 0;
  }
  void remnant(int which)
  {
    c.note("remnant variant %d then allocation of the same", which);
    size_t nb = blocks().size();
    void *p;
    size_t n, want, align;
    if (which == 0) {
      auto s = a->remnant_span<uint64_t>(5);
      p = s.data(), n = s.size() * 8, want = 40, align = 8;
    } else if (which == 1) {
      auto s = a->remnant(48, 64);
      p = s.data(), n = s.size(), want = 48, align = 64;
    } else {
      auto s = a->remnant_span<void>(33);
      p = s.data(), n = s.size(), want = 33, align = 1;
    }
    if (blocks().size() > nb) hint = 0;
    if (!accounting) {
      MC_CHECK(c, n == want, "remnant of %zu bytes requested, got %zu", want, n);
      MC_CHECK(c, (uintptr_t(p) & (align - 1)) == 0, "remnant is not aligned to %zu", align);
    }
    size_t res = a->reserved_size();
    alloc(want, align);
    if (!accounting) {
      MC_CHECK(c, live.back().p == p, "allocation after remnant is not at the remnant");
    } else {
      MC_CHECK(c, res == a->reserved_size(), "allocation of the remnant needed new memory");
    }
  }
  void drop_frozen()
  {
    std::vector<Live> l;
    for (auto &x : live)
      if (!x.frozen) l.push_back(x);
    live       = l;
    frozen_sum = 0;
  }
  void freeze(size_t n)
  {
    c.note("freeze(%zu)", n);
    a->freeze(n);
    drop_frozen();
    for (auto &x : live) x.frozen = true;
    frozen_sum = active_sum;
    active_sum = 0;
    hint       = n;
    if (accounting) {
      MC_CHECK(c, a->begin() == a->end(), "active blocks after freeze");
      MC_CHECK(c, a->remaining() == 0 && a->remnant().size() == 0, "remnant after freeze");
    }
  }
  void thaw()
  {
    c.note("thaw()");
    bool any     = false;
    size_t heap  = mc::heap_bytes();
    size_t freed = 0;
    for (auto const &b : blocks())
      if (b.frozen && !is_static(b.data)) any = true, freed += b.size;
    a->thaw();
    size_t heap2 = mc::heap_bytes();
    drop_frozen();
    if (accounting) {
      MC_CHECK(c, a->frozen_begin() == a->frozen_end(), "frozen blocks after thaw");
      if (any) MC_CHECK(c, heap2 + freed <= heap, "thaw did not release the frozen memory");
      else MC_CHECK(c, heap2 == heap, "thaw of nothing changed the heap");
    }
  }
  void discard_all(size_t h)
  {
    c.note("discard(%zu)", h);
    size_t res = a->reserved_size();
    a->discard(h);
    std::vector<Live> l;
    for (auto &x : live)
      if (x.frozen) l.push_back(x);
    live       = l;
    active_sum = 0;
    hint       = h;
    if (accounting) {
      MC_CHECK(c, a->reserved_size() == res, "discard changed the reserved size");
      for (auto const &b : blocks()) // documented: all active blocks are empty and used again
        MC_CHECK(c, b.frozen || b.allocated == 0, "a block of %zu bytes has %zu bytes allocated after discarding everything", b.size, b.allocated);
    }
  }
  void discard_last()
  {
    if (live.empty() || live.back().frozen) c.skip();
    Live x = live.back();
    c.note("discard(last span, %zu bytes)", x.n);
    size_t before = a->size();
    auto in_block = [&]() -> size_t {
      for (auto const &b : blocks())
        if (b.data <= x.p && x.p + x.n <= b.data + b.size) return b.allocated;
      return 0;
    };
    size_t used = in_block();
    a->discard(MemSpan<void const>(x.p, x.n));
    if (accounting && was_fresh) { // documented: always works if nothing was allocated since
      MC_CHECK(c, a->size() == before - x.n, "the last allocation of %zu bytes was discarded, the size was %zu and is %zu", x.n, before, a->size());
      MC_CHECK(c, in_block() == used - x.n, "the last allocation of %zu bytes was discarded, its block had %zu bytes allocated and has %zu", x.n, used, in_block());
    }
    // best effort: either taken back or not
    live.pop_back();
    if (a->size() != before || x.n == 0) {
      active_sum -= x.n;
      if (accounting) MC_CHECK(c, a->size() == before - x.n, "discard of %zu bytes changed the size from %zu to %zu", x.n, before, a->size());
    }
  }
  void discard_first() // not at the end of its block, in general: must not give away live memory
  {
    if (live.empty()) c.skip();
    Live x        = live.front();
    c.note("discard(first span, %zu bytes)", x.n);
    size_t before = a->size();
    a->discard(MemSpan<void const>(x.p, x.n));
    if (a->size() != before) {
      if (accounting) MC_CHECK(c, !x.frozen && a->size() == before - x.n, "discard changed the size from %zu to %zu", before, a->size());
      active_sum -= x.n;
      live.erase(live.begin());
    }
  }
  void clear(size_t h)
  {
    c.note("clear(%zu)", h);
    a->clear(h);
    hint = h ? h : active_sum + frozen_sum;
    live.clear();
    active_sum = frozen_sum = 0;
    if (accounting) MC_CHECK(c, a->size() == 0 && a->allocated_size() == 0, "size after clear");
  }
  bool is_static(void const *data) const
  {
    for (void *p : bufs.v)
      if (data >= p && data < static_cast<char *>(p) + 64) return true;
    return false;
  }
  void moved_from(MemArena &x)
  {
    if (accounting) {
      MC_CHECK(c, x.size() == 0 && x.allocated_size() == 0 && x.reserved_size() == 0 && x.begin() == x.end() && x.frozen_begin() == x.frozen_end(),
               "moved-from arena is not empty");
    }
    auto s = x.alloc(24, 8);
    if (!accounting) {
      MC_CHECK(c, s.size() == 24 && x.contains(s.data()) && !a->contains(s.data()), "allocation from a moved-from arena");
      memset(s.data(), 0x55, 24);
    }
    x.thaw();
  }
  void move(int which)
  {
    std::unique_ptr<MemArena> b;
    if (which == 0) {
      c.note("move construct");
      b = std::make_unique<MemArena>(std::move(*a));
    } else if (which == 1) {
      c.note("move assign to a used arena");
      b = std::make_unique<MemArena>();
      b->alloc(10);
      b->freeze();
      b->alloc(20);
      *b = std::move(*a);
    } else {
      c.note("move assign to an arena with a full static block");
      b = std::make_unique<MemArena>(bufs.make(128));
      b->alloc(100);
      b->alloc(1000);
      *b = std::move(*a);
    }
    std::swap(a, b);
    moved_from(*b);
  }

  void verify()
  {
    auto bl = blocks();
    if (bl.size() >= 4000) c.fail("endless block list");
    if (!accounting) {
      for (auto const &l : live) {
        for (size_t i = 0; i < l.n; ++i)
          MC_CHECK(c, static_cast<unsigned char>(l.p[i]) == byte(l.tag, i), "byte %zu of a live %sspan of %zu bytes changed", i, l.frozen ? "frozen " : "", l.n);
        if (l.n == 0) continue;
        MC_CHECK(c, a->contains(l.p) && a->contains(l.p + l.n - 1), "live %sspan of %zu bytes is not inside the arena", l.frozen ? "frozen " : "", l.n);
        int in = 0;
        for (auto const &b : bl)
          if (b.data <= l.p && l.p + l.n <= b.data + b.allocated && b.frozen == l.frozen) ++in;
        MC_CHECK(c, in == 1, "live %sspan of %zu bytes is in the allocated part of %d blocks", l.frozen ? "frozen " : "", l.n, in);
      }
      char local;
      MC_CHECK(c, !a->contains(&local), "arena claims to contain a local variable");
      for (auto const &b : bl)
        MC_CHECK(c, a->contains(b.data) && a->contains(b.data + b.size - 1) && !a->contains(b.data - 1) && !a->contains(b.data + b.size), "contains() at the edges of a block");
    } else {
      MC_CHECK(c, a->size() == active_sum, "size() is %zu, %zu bytes allocated", a->size(), active_sum);
      MC_CHECK(c, a->allocated_size() == active_sum + frozen_sum, "allocated_size() is %zu, expected %zu", a->allocated_size(), active_sum + frozen_sum);
      MC_CHECK(c, a->reserved_size() >= a->allocated_size(), "reserved %zu < allocated %zu", a->reserved_size(), a->allocated_size());
      size_t sum = 0;
      for (auto const &b : bl) sum += b.size;
      MC_CHECK(c, a->reserved_size() == sum, "reserved_size() is %zu, blocks have %zu bytes", a->reserved_size(), sum);
      MC_CHECK(c, a->remaining() == a->remnant().size(), "remaining() is %zu, remnant %zu", a->remaining(), a->remnant().size());
      bool any = false;
      for (auto const &b : bl) any |= b.frozen;
      size_t k = 0;
      MemArena const &ca = *a; // the same blocks through the constant arena
      for (auto spot = ca.begin(); spot != ca.end() && k < bl.size(); ++spot, ++k)
        MC_CHECK(c, spot->data() == bl[k].data && size_t(spot->allocated_data_end() - spot->data()) == bl[k].allocated, "block %zu differs in the constant arena", k);
      for (auto spot = ca.frozen_begin(); spot != ca.frozen_end() && k < bl.size(); ++spot, ++k)
        MC_CHECK(c, spot->data() == bl[k].data && size_t(spot->allocated_data_end() - spot->data()) == bl[k].allocated, "frozen block %zu differs in the constant arena", k - 1);
      MC_CHECK(c, k == bl.size(), "the constant arena has %zu blocks, the arena %zu", k, bl.size());
      if (!any) MC_CHECK(c, frozen_sum == 0, "frozen blocks vanished");
    }
  }
  std::string canon()
  {
    std::string s = mc::strf("%zu|%zu|%zu|%d%d", hint, active_sum, frozen_sum, int(has_static), int(fresh));
    auto bl       = blocks();
    for (auto const &b : bl) s += mc::strf("/%d%d:%zu:%zu@%zu", int(b.frozen), int(is_static(b.data)), b.size, b.allocated, size_t(uintptr_t(b.data) & 63));
    for (auto const &l : live) {
      for (size_t i = 0; i < bl.size(); ++i)
        if (bl[i].data <= l.p && l.p <= bl[i].data + bl[i].size) s += mc::strf(",%zu+%zu:%zu", i, size_t(l.p - bl[i].data), l.n);
    }
    return s;
  }
};

inline void arena_construct(ArenaModel &m, int kind)
{
  switch (kind) {
  case 0: m.c.note("MemArena()"); m.a = std::make_unique<MemArena>(); break;
  case 1: m.c.note("MemArena(200)"); m.a = std::make_unique<MemArena>(200); m.hint = 200; break;
  case 2: m.c.note("MemArena(0)"); m.a = std::make_unique<MemArena>(size_t(0)); break;
  case 3: m.c.note("static 96"); m.a = std::make_unique<MemArena>(m.bufs.make(96)); m.has_static = true; break;
  default: m.c.note("static 192"); m.a = std::make_unique<MemArena>(m.bufs.make(192)); m.has_static = true; break;
  }
}

constexpr int ARENA_OPS = 29;
inline void arena_op(ArenaModel &m, int op)
{
  size_t rem  = m.a->remaining();
  m.was_fresh = m.fresh;
  m.fresh     = false;
  switch (op) {
  case 0: m.alloc(1, 1); break;
  case 1: m.alloc(rem, 1); break;
  case 2: m.alloc(rem + 1, 1); break;
  case 3: m.alloc(rem > 15 ? rem - 15 : 0, 1); break;
  case 4: m.alloc(rem > 16 ? rem - 16 : 16, 1); break;
  case 5: m.alloc(40, 64); break;
  case 6: m.alloc(900, 8); break;
  case 7: m.alloc(4040, 64); break;
  case 8: m.make_object(); break;
  case 9: m.freeze(0); break;
  case 10: m.thaw(); break;
  case 11: m.discard_last(); break;
  case 12: m.discard_all(0); break;
  case 13: m.clear(0); break;
  case 14: m.move(0); break;
  case 15: m.move(2); break;
  case 16: m.require(100, 1); break;
  case 17: m.require(rem + 1, 32); break;
  // the following are used at smaller depth
  case 18: m.freeze(3000); break;
  case 19: m.clear(500); break;
  case 20: m.discard_all(2000); break;
  case 21: m.move(1); break;
  case 22: m.localize(false); break;
  case 23: m.localize(true); break;
  case 24: m.pmr_alloc(20, 16); break;
  case 25: m.remnant(0); break;
  case 26: m.remnant(1); break;
  case 27: m.remnant(2); break;
  case 28: m.discard_first(); break;
  }
}

inline void arena_history(mc::Ctx &c, bool accounting, int kinds, int ops, int depth)
{
  size_t base = mc::heap_bytes();
  {
    ArenaModel m(c, accounting);
    arena_construct(m, c.choose(kinds));
    for (int d = 0; d < depth; ++d) {
      int op = c.choose(ops);
      arena_op(m, op);
      c.step();
      if (c.pos > c.fresh_from) {
        m.verify();
        auto k = m.canon();
        c.state(k);
        if (d >= 1) c.prune(k, depth - d - 1);
      }
    }
    if (accounting) { // with nothing frozen or active every block must be gone
      m.clear(0);
      size_t bl = 0;
      for (auto const &b : m.blocks()) bl += m.is_static(b.data) ? 0 : 1;
      MC_CHECK(c, bl == 0, "%zu heap blocks left after clear", bl);
    }
  }
  if (accounting) {
    size_t now = mc::heap_bytes();
    MC_CHECK(c, now <= base, "%zu bytes leaked", now - base);
  }
}

/// Long structured histories: many blocks, many spans, several generations.
inline void arena_scale(mc::Ctx &c, bool accounting)
{
  size_t base = mc::heap_bytes();
  {
    ArenaModel m(c, accounting);
    arena_construct(m, c.choose(5));
    int sizes = c.choose(6), extra = c.choose(6), period = c.pick(std::array<int, 3>{7, 40, 1000});
    int n     = c.thorough ? 400 : 130;
    c.note("%d allocations, size pattern %d, other operation %d every %d", n, sizes, extra, period);
    for (int i = 0; i < n; ++i) {
      size_t align = size_t(1) << (i * 5 % 7);
      size_t rem   = m.a->remaining();
      m.was_fresh  = m.fresh;
      m.fresh      = false;
      bool big     = m.a->reserved_size() > 2000000; // blocks double in size as they are filled
      switch (big ? 0 : sizes) {
      case 0: m.alloc(1 + i % 3, 1); break;
      case 1: m.alloc(i * 7 % 300, align); break;
      case 2: m.alloc(i % 4 ? rem : rem + 1, 1); break;
      case 3: m.alloc(i % 2 ? 900 : 30, align); break;
      case 4: m.alloc(size_t(1) << (i % 15), 1); break;
      case 5: m.alloc(3500 + i * 37 % 1200, 16); break;
      }
      c.step();
      if (i % period == period - 1) {
        m.was_fresh = m.fresh;
        m.fresh     = false;
        switch (big && extra == 5 ? 4 : extra) {
        case 0: m.freeze(i % 3 * 1000); break;
        case 1: m.thaw(); break;
        case 2: m.discard_all(i % 2 * 5000); break;
        case 3:
          m.discard_last();
          if (!m.live.empty() && !m.live.back().frozen) m.was_fresh = false, m.discard_last();
          break;
        case 4: m.move(i / period % 3); break;
        case 5: m.require(rem + 10, 8); break;
        }
        c.step();
        if (extra == 0 && i / period % 3 == 2) m.thaw();
      }
      if (i % 9 == 0 || i + 1 == n) m.verify();
    }
    m.freeze(0);
    m.verify();
    m.alloc(10, 1);
    m.verify();
    m.thaw();
    m.verify();
    m.move(0);
    m.alloc(5000, 1);
    m.verify();
    m.discard_all(0);
    m.alloc(10, 1);
    m.verify();
    c.outcome(mc::strf("%zu %zu", m.a->reserved_size(), m.blocks().size()));
  }
  if (accounting) MC_CHECK(c, mc::heap_bytes() <= base, "%zu bytes leaked", mc::heap_bytes() - base);
}

/// Blocks beyond the range of 32 bit counters. The memory is reserved but only its ends are touched.
inline void arena_huge(mc::Ctx &c, bool accounting)
{
  static const size_t sizes[] = {0x7FFFE000, 0x7FFFF000, 0x7FFFFFC0, 0x80000000, 0x80001000, 0xFFFFE000, 0xFFFFFFF0, 0x100000000, 0x100001000};
  size_t base = mc::heap_bytes();
  size_t n    = c.pick(sizes);
  int how     = c.choose(4);
  c.note("%zu bytes by %s", n, how == 0 ? "alloc" : how == 1 ? "require" : how == 2 ? "hint" : "freeze hint");
  {
    MemArena a(how == 2 ? n : 0);
    auto s = a.alloc(10);
    memset(s.data(), 1, 10);
    if (how == 3) a.freeze(n), a.alloc(5);
    if (how == 1) a.require(n);
    if (how) MC_CHECK(c, a.remaining() >= n - 10, "%zu bytes were asked for, %zu remain", n, a.remaining());
    size_t res = a.reserved_size();
    auto big   = a.alloc(n - 10);
    c.step();
    if (!accounting) {
      MC_CHECK(c, big.size() == n - 10, "allocation of %zu bytes has %zu", n - 10, big.size());
      auto p     = static_cast<char *>(big.data());
      p[0]       = 5;
      p[n - 11]  = 6;
      p[n / 2]   = 7;
      MC_CHECK(c, a.contains(p) && a.contains(p + n - 11) && !a.contains(p + n + 100000), "contains() of the big span");
      MC_CHECK(c, static_cast<char *>(s.data())[9] == 1 && p[0] == 5 && p[n - 11] == 6, "bytes changed");
    } else {
      size_t sum = how == 3 ? n - 5 : n;
      MC_CHECK(c, a.size() == sum, "size() is %zu of %zu", a.size(), sum);
      MC_CHECK(c, a.reserved_size() >= sum && (how == 0 || a.reserved_size() == res), "reserved size is %zu, was %zu", a.reserved_size(), res);
      a.freeze();
      MC_CHECK(c, a.size() == 0 && a.allocated_size() == sum, "allocated size is %zu of %zu when frozen", a.allocated_size(), sum);
      a.thaw();
      MC_CHECK(c, a.allocated_size() == 0 && mc::heap_bytes() <= base + 4096, "the memory was not released");
    }
    c.outcome(mc::strf("%zu %d", n, how));
  }
  if (accounting) MC_CHECK(c, mc::heap_bytes() <= base, "%zu bytes leaked", mc::heap_bytes() - base);
}
