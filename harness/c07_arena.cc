// C07: accounting of MemArena, life time of frozen memory, release of blocks.
#include "arena_common.h"

MC_HISTORIES(histories, 3, "all histories of 5 (6) operations out of 18 over 5 arenas (two static blocks): sizes, hints, remnants, frozen memory and released heap after each operation")
{
  arena_history(c, true, 5, 18, c.thorough ? 6 : 5);
}
MC_HISTORIES(wide, 2, "all histories of 4 (5) operations out of 29, adding hints, string copies, pmr use, remnant access, discard of inner spans")
{
  arena_history(c, true, 5, ARENA_OPS, c.thorough ? 5 : 4);
}
// The arena inside its own memory: documented refresh is freeze, move into new memory, thaw.
MC_HISTORIES(self_contained, 2, "all histories of 6 (7) operations on a self contained arena: allocation, refresh by freeze/move/thaw, destruction; content kept, heap released")
{
  size_t base = mc::heap_bytes();
  {
    static const size_t hints[] = {0, 100, 5000};
    size_t h = c.pick(hints);
    MemArena::unique_ptr a(MemArena::construct_self_contained(h), MemArena::destroyer);
    MC_CHECK(c, a->contains(a.get()), "self contained arena is not in its own memory");
    MC_CHECK(c, a->size() == sizeof(MemArena), "initial size %zu", a->size());
    MC_CHECK(c, a->remaining() >= h, "%zu bytes available, %zu requested", a->remaining(), h);
    std::vector<std::pair<char *, size_t>> live;
    size_t sum = sizeof(MemArena);
    int depth = c.thorough ? 7 : 6;
    for (int d = 0; d < depth; ++d) {
      int op = c.choose(5);
      if (op < 3) {
        size_t n = op == 0 ? 10 : op == 1 ? a->remaining() : 3000;
        c.note("alloc %zu", n);
        auto s = a->alloc(n);
        memset(s.data(), int(live.size() + 1), n);
        live.emplace_back(static_cast<char *>(s.data()), n);
        sum += n;
      } else if (op == 3) {
        c.note("refresh");
        a->freeze();
        a.reset(a->make<MemArena>(std::move(*a)));
        for (size_t i = 0; i < live.size(); ++i) // still readable while frozen
          for (size_t k = 0; k < live[i].second; ++k) MC_CHECK(c, live[i].first[k] == char(i + 1), "frozen byte changed");
        MC_CHECK(c, a->allocated_size() == sum + sizeof(MemArena), "allocated size %zu after refresh, expected %zu", a->allocated_size(), sum + sizeof(MemArena));
        a->thaw();
        live.clear();
        sum = sizeof(MemArena);
      } else {
        c.note("delete and recreate");
        a.reset(MemArena::construct_self_contained(h));
        live.clear();
        sum = sizeof(MemArena);
      }
      c.step();
      MC_CHECK(c, a->size() == sum && a->contains(a.get()), "size %zu, expected %zu", a->size(), sum);
      for (size_t i = 0; i < live.size(); ++i)
        for (size_t k = 0; k < live[i].second; ++k) MC_CHECK(c, live[i].first[k] == char(i + 1), "byte of a live span changed");
      if (c.pos > c.fresh_from) c.state(mc::strf("%zu %zu %zu %zu", h, sum, a->reserved_size(), a->remaining()));
    }
  }
  MC_CHECK(c, mc::heap_bytes() <= base, "%zu bytes leaked", mc::heap_bytes() - base);
}
// Hints of the constructor, freeze, clear and discard over a grid of sizes.
MC_INPUTS(hints, 2, "every size hint of a grid around the rounding boundaries, given to the constructor, freeze, clear or discard: the next block is at least that large and is exactly released")
{
  static const size_t sizes[] = {0, 1, 15, 16, 17, 100, 900, 975, 976, 977, 991, 992, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 3000, 3023, 3024, 3025, 3039, 3040, 3071, 3072, 3073, 4000, 4031, 4032, 4048, 4049, 4063, 4064, 4079, 4080, 4081, 4095, 4096, 4097, 8000, 8143, 8144, 8145, 8191, 8192, 8193, 65536};
  size_t base = mc::heap_bytes();
  {
    size_t n = c.pick(sizes), k = c.pick(sizes);
    int how = c.choose(5);
    ArenaModel m(c, true);
    if (how == 0) {
      c.note("MemArena(%zu)", n);
      m.a    = std::make_unique<MemArena>(n);
      m.hint = n;
    } else {
      m.a = std::make_unique<MemArena>(64);
      m.hint = 64;
      m.alloc(k, 1);
      if (how == 1) m.freeze(n);
      else if (how == 2) m.clear(n);
      else if (how == 3) m.discard_all(n);
      else m.freeze(0), m.thaw();
    }
    m.alloc(how == 0 ? k : 1, 1);
    m.require(m.a->remaining() + 1, 1);
    m.verify();
    c.step();
    c.outcome(mc::strf("%d %zu %zu %zu", how, n, k, m.a->reserved_size()));
  }
  MC_CHECK(c, mc::heap_bytes() <= base, "%zu bytes leaked", mc::heap_bytes() - base);
}
// A static block is used up to its end and never beyond, blocks that are too small are refused.
MC_INPUTS(static_blocks, 1, "static blocks of every size up to 200, filled by allocations of every size up to 12")
{
  size_t base = mc::heap_bytes();
  {
    size_t n = c.choose(201), step = 1 + c.choose(12);
    Buffers bufs;
    auto m = bufs.make(n);
    std::unique_ptr<char, decltype(&free)> exact(static_cast<char *>(malloc(n ? n : 1)), free); // nothing behind it
    MemSpan<void> block{exact.get(), n};
    size_t least = (sizeof(MemArena::Block) + MemArena::Block::MIN_FREE_SPACE + 15) / 16 * 16;
    bool refused = false;
    try {
      MemArena a(block);
      size_t room = a.remaining(), used = 0;
      MC_CHECK(c, room == n - sizeof(MemArena::Block) && a.reserved_size() == room && a.size() == 0, "%zu bytes are available in a static block of %zu", room, n);
      while (used + step <= room) {
        auto s = a.alloc(step);
        auto p = static_cast<char *>(s.data());
        MC_CHECK(c, p >= exact.get() && p + step <= exact.get() + n, "allocation of %zu after %zu is not in the static block of %zu", step, used, n);
        memset(p, 0x77, step);
        used += step;
        MC_CHECK(c, a.remaining() == room - used, "%zu bytes are left of %zu", a.remaining(), room - used);
      }
      auto s = a.alloc(room - used + 1); // must be another block
      auto p = static_cast<char *>(s.data());
      MC_CHECK(c, p + s.size() <= exact.get() || p >= exact.get() + n, "allocation of %zu in the static block of %zu with %zu left", s.size(), n, room - used);
      memset(p, 0x77, s.size());
      a.clear();
    } catch (std::domain_error const &) {
      refused = true;
    }
    if (n >= least || n <= sizeof(MemArena::Block)) MC_CHECK(c, refused == (n < least), "static block of %zu bytes, at least %zu are required, is %s", n, least, refused ? "refused" : "accepted");
    c.outcome(mc::strf("%zu %zu", n, step));
  }
  MC_CHECK(c, mc::heap_bytes() <= base, "%zu bytes leaked", mc::heap_bytes() - base);
}

MC_HISTORIES(scale, 2, "histories of 130 (400) allocations in 6 size patterns over 5 arenas, with one of 6 other operations every 7, 40 or no allocations, then freeze, thaw, move and discard of everything")
{
  arena_scale(c, true);
}

MC_INPUTS(huge, 1, "blocks of sizes around 2^31 and 2^32 bytes, by allocation, requirement, constructor hint and freeze hint, and many blocks that double up to there")
{
  arena_huge(c, true);
}
