// Controlled execution of operations as threads of their own, with every memory access observed.
//
// The library and the harness are compiled with the compiler's access instrumentation; monitor.cc supplies
// what the instrumentation calls.  Each operation runs on a stack of its own and is preempted only at accesses
// to memory another thread could see, so all interleavings of two operations are enumerated by enumerating
// the preemption points, and operations that never write such memory are independent of each other: all
// their interleavings have the same result.
#pragma once
#include <cstdint>
#include <functional>
#include <string>

namespace mon {

constexpr int SHARED = -1; ///< Readable by all.
/// Owner of the memory allocated from here on (0: nobody in particular, treated as shared).
void tag(int owner);
struct Tag {
  explicit Tag(int owner) { tag(owner); }
  ~Tag() { tag(0); }
};
/// Memory not from the heap that belongs to @a owner.
void own(void const *p, size_t n, int owner);
/// Forget what @c own said, and every violation.
void reset();

using Op = std::function<std::string()>;

struct Run {
  std::string value;   ///< What the operation computed.
  std::string bad;     ///< First access that another thread could notice, empty if there is none.
  uint64_t points = 0; ///< Accesses to memory that is not private to the operation.
  uint64_t writes = 0; ///< Observed writes, private ones included.
  uint64_t unknown_frees = 0;
};

/// Run @a op as thread @a id. A write of memory that does not belong to @a id is bad, an access to memory of another
/// positive owner is bad too.
Run solo(int id, Op const &op);
/// Run @a a as thread 1 up to its access @a i, then @a b as thread 2 up to its access @a j, then the rest of @a a and the rest of @a b.
/// @a j beyond the end runs @a b completely.
void pair(Op const &a, Op const &b, uint64_t i, uint64_t j, Run &ra, Run &rb);

} // namespace mon
