// Stateless model checker for sequential C++ code.
//
// A suite is a function body(Ctx&).  Every decision in it goes through Ctx::choose(n); the explorer runs
// the body once for every possible sequence of answers (depth first, odometer order), so every
// combination of operations and arguments the body can produce is executed on the real code.  A case is
// identified by its choice sequence, which is all that a replay needs.
//
// Work is split over processes by hashing the first `shard_depth` choices.  The choice stack of each
// worker lives in shared memory, so a crash, sanitizer abort or hang is attributed to the exact case.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace mc {

struct Violation {
  std::string msg;
};
struct Skip {};   // case belongs to another worker / pruned by the body

constexpr int MAX_CHOICES = 2048;

/// Lives in shared memory, one per worker.
struct Shared {
  uint64_t evals;       // complete executions
  uint64_t steps;       // transitions executed for the first time
  uint64_t pruned;      // executions cut short because their state had been explored already
  uint64_t skipped;
  uint64_t heartbeat;
  uint64_t n_states, n_outcomes;
  int32_t suite;
  int32_t n;            // number of choices made so far
  int32_t done;
  int32_t failed;
  uint16_t choice[MAX_CHOICES];
  uint16_t arity[MAX_CHOICES];
  char msg[8192];
  char known[4096];     // known-finding keys hit, newline separated
};

struct Ctx {
  Shared *sh = nullptr;
  int pos = 0;          // next choice index
  int prefix = 0;       // number of choices that are replayed
  int fresh_from = 0;   // choices at or beyond this index are new in this execution
  int shard_depth = 3;
  uint32_t shard = 0, shards = 1, salt = 0;
  bool tracing = false;
  bool thorough = false;
  bool replay = false;
  std::string trace;
  std::unordered_set<uint64_t> *states = nullptr, *outcomes = nullptr;
  std::unordered_map<uint64_t, int> *memo = nullptr;

  int choose(int n);
  /// Choose an element of a container / array.
  template <typename C> auto pick(C const &c) -> decltype(c[0]) { return c[choose(int(std::size(c)))]; }
  bool flag() { return choose(2) != 0; }

  /// Human readable trace, only kept when replaying / sampling.
  void note(char const *fmt, ...) __attribute__((format(printf, 2, 3)));
  [[noreturn]] void fail(char const *fmt, ...) __attribute__((format(printf, 2, 3)));
  /// A failure that is tolerated (and reported as a known finding) only if @a key is listed.
  void fail_known(char const *key, char const *fmt, ...) __attribute__((format(printf, 3, 4)));
  /// One transition of the system under test was executed.
  void step() { if (pos > fresh_from || pos == 0) ++sh->steps; }
  /// Record the state reached.
  void state(uint64_t h);
  void state(std::string const &s);
  /// Record a distinct, non-trivial observed outcome.
  void outcome(uint64_t h);
  void outcome(std::string const &s);
  /// Cut this execution if an identical state was explored with at least @a remaining operations left.
  void prune(std::string const &canon, int remaining);
  [[noreturn]] void skip() { throw Skip{}; }
};

struct Suite {
  char const *name;
  char const *what;   // one line: alphabet, bound, oracle
  std::function<void(Ctx &)> body;
  int shard_depth;
  bool stateful;      // report it as a state/transition exploration
  bool thorough_only;
};

std::vector<Suite> &suites();
struct Reg {
  Reg(char const *name, char const *what, int shard_depth, bool stateful, std::function<void(Ctx &)> body, bool thorough_only = false)
  {
    suites().push_back(Suite{name, what, std::move(body), shard_depth, stateful, thorough_only});
  }
};

uint64_t hash(void const *p, size_t n, uint64_t seed = 0xcbf29ce484222325ull);
inline uint64_t hash(std::string const &s) { return hash(s.data(), s.size()); }
std::string strf(char const *fmt, ...) __attribute__((format(printf, 1, 2)));
/// Printable version of a byte string.
std::string show(char const *p, size_t n);
inline std::string show(std::string_view s) { return show(s.data(), s.size()); }

/// Bytes currently allocated on the heap (sanitizer allocator), without what the explorer allocated for its bookkeeping.
size_t heap_bytes();

} // namespace mc

#define MC_CHECK(c, cond, ...)                                                    \
  do {                                                                            \
    if (!(cond)) (c).fail(__VA_ARGS__);                                           \
  } while (0)

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
/// Exhaustive input enumeration.
#define MC_INPUTS(name, shard_depth, what)                                        \
  static void MC_CAT(mc_body_, name)(mc::Ctx & c);                                \
  static mc::Reg MC_CAT(mc_reg_, name)(#name, what, shard_depth, false, MC_CAT(mc_body_, name)); \
  static void MC_CAT(mc_body_, name)([[maybe_unused]] mc::Ctx & c)
/// Exhaustive operation sequence enumeration.
#define MC_HISTORIES(name, shard_depth, what)                                     \
  static void MC_CAT(mc_body_, name)(mc::Ctx & c);                                \
  static mc::Reg MC_CAT(mc_reg_, name)(#name, what, shard_depth, true, MC_CAT(mc_body_, name)); \
  static void MC_CAT(mc_body_, name)([[maybe_unused]] mc::Ctx & c)
