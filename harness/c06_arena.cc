// C06: integrity of the spans handed out by MemArena.
#include "arena_common.h"

MC_HISTORIES(histories, 3, "all histories of 5 (6) operations out of 18 over 5 arenas (two static blocks): size, alignment, disjointness, containment and bytes of every live span after each operation")
{
  arena_history(c, false, 5, 18, c.thorough ? 6 : 5);
}
MC_HISTORIES(wide, 2, "all histories of 4 (5) operations out of 29, adding hints, string copies, pmr use, remnant access, discard of inner spans")
{
  arena_history(c, false, 5, ARENA_OPS, c.thorough ? 5 : 4);
}
MC_INPUTS(alignment, 2, "every size 0..130 and around the page boundaries after every offset 0..33 with every alignment 1..64, in heap and static blocks")
{
  static const size_t big[] = {1008, 1023, 1024, 1025, 3000, 3040, 3072, 4000, 4016, 4032, 4048, 4064, 4080, 4096, 4097, 8100, 8160, 8192};
  ArenaModel m(c, false);
  arena_construct(m, c.choose(5));
  size_t align = size_t(1) << c.choose(7);
  size_t off   = c.choose(34);
  int k        = c.choose(131 + int(std::size(big)));
  size_t n     = k < 131 ? k : big[k - 131];
  m.alloc(off, 1);
  m.alloc(n, align);
  m.alloc(1, align);
  m.verify();
  c.step();
  c.outcome(mc::strf("%zu %zu %zu %zu", align, off, n, m.blocks().size()));
}

MC_HISTORIES(scale, 2, "histories of 130 (400) allocations in 6 size patterns over 5 arenas, with one of 6 other operations every 7, 40 or no allocations, then freeze, thaw, move and discard of everything")
{
  arena_scale(c, false);
}

MC_INPUTS(huge, 1, "blocks of sizes around 2^31 and 2^32 bytes, by allocation, requirement, constructor hint and freeze hint, and many blocks that double up to there")
{
  arena_huge(c, false);
}
