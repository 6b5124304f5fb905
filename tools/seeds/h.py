BWC = "code/src/bw_format.cc"
DRH = "code/include/swoc/DiscreteRange.h"
LXH = "code/include/swoc/Lexicon.h"
ARC = "code/src/MemArena.cc"
ARH = "code/include/swoc/MemArena.h"
HMH = "code/include/swoc/IntrusiveHashMap.h"
FLC = "code/src/swoc_file.cc"
THREADS = r"""
#include <atomic>
#include <cstdio>
#include <thread>
template <typename F> int in_threads(F const &f) {
  std::atomic<int> bad{0};
  std::atomic<bool> go{false};
  std::thread a([&] { while (!go) ; for (int i = 0; i < 400000 && !bad; ++i) bad += f(0, i); });
  std::thread b([&] { while (!go) ; for (int i = 0; i < 400000 && !bad; ++i) bad += f(1, i); });
  go = true;
  a.join();
  b.join();
  printf("bad %d\n", int(bad));
  return bad != 0;
}
"""
bug("c37-integer-buffer", "C37",
    [(BWC, "  char buff[std::numeric_limits<uintmax_t>::digits + 1];\n\n  if (spec._sign != Spec::SIGN_NEVER) {\n    if (neg_p) {", "  static char buff[std::numeric_limits<uintmax_t>::digits + 1];\n\n  if (spec._sign != Spec::SIGN_NEVER) {\n    if (neg_p) {")],
    r"""
#include <swoc/BufferWriter.h>
#include <swoc/bwf_base.h>""" + THREADS + r"""
int main() {
  return in_threads([](int k, int) {
    swoc::LocalBufferWriter<100> w;
    w.print("{:b}", k ? 0x55555555 : 0x7fffffff);
    return w.view() != (k ? "1010101010101010101010101010101" : "1111111111111111111111111111111");
  });
}""", "two threads that print integers to writers of their own at the same time", "the digits of one are printed by the other")
bug("c37-find-cache", "C37",
    [(DRH, "  auto n = _root; // current node to test.\n  while (n) {\n    if (metric < n->min()) {\n      if (n->_hull.contains(metric)) {", "  auto n = _root; // current node to test.\n  if (_recent && _recent->range().contains(metric)) {\n    return _list.iterator_for(_recent); // locality of reference\n  }\n  while (n) {\n    if (metric < n->min()) {\n      if (n->_hull.contains(metric)) {"),
     (DRH, "    } else {\n      return _list.iterator_for(n);\n    }\n  }\n  return this->end();", "    } else {\n      return _list.iterator_for(_recent = n);\n    }\n  }\n  return this->end();"),
     (DRH, "  _root = static_cast<Node *>(node->remove());\n", "  _root   = static_cast<Node *>(node->remove());\n  _recent = nullptr;\n"),
     (DRH, "DiscreteSpace<METRIC, PAYLOAD>::clear() {\n", "DiscreteSpace<METRIC, PAYLOAD>::clear() {\n  _recent = nullptr;\n"),
     (DRH, "  Node *_root = nullptr;                        ///< Root node.", "  Node *_root = nullptr;                        ///< Root node.\n  Node *_recent = nullptr;                      ///< Result of the most recent search.")],
    r"""
#include <swoc/swoc_ip.h>""" + THREADS + r"""
int main() {
  swoc::IPSpace<int> space;
  for (int i = 0; i < 4; ++i) {
    swoc::IP4Addr a{in_addr_t(i)};
    space.mark(swoc::IPRange{a, a}, i);
  }
  swoc::IPSpace<int> const &s = space;
  return in_threads([&](int k, int i) {
    int n = 2 * k + i / 2 % 2;
    auto spot = s.find(swoc::IP4Addr(in_addr_t(n)));
    return spot == s.end() || spot->payload() != n;
  });
}""", "two threads that search the same space at the same time, alternating between ranges", "the result of one search is that of the other")
bug("c37-localtime", "C37",
    [(BWC, "      localtime_r(&date._epoch, &t);", "      t = *localtime(&date._epoch);")],
    r"""
#include <swoc/BufferWriter.h>
#include <swoc/bwf_base.h>
#include <swoc/bwf_ex.h>
#include <cstdlib>
#include <ctime>""" + THREADS + r"""
int main() {
  setenv("TZ", "UTC", 1);
  tzset();
  return in_threads([](int k, int) {
    swoc::LocalBufferWriter<100> w;
    w.print("{::local}", swoc::bwf::Date(k ? 1 : 2000000000, "%Y-%m-%d %H:%M:%S"));
    return w.view() != (k ? "1970-01-01 00:00:01" : "2033-05-18 03:33:20");
  });
}""", "two threads that print dates in local time at the same time", "the date of one is that of the other")
bug("c37-what-buffer", "C37",
    [(LXH, "  std::string zret;\n  return swoc::bwprint_v(zret, fmt, std::forward_as_tuple(args...));", "  static std::string zret; // keep the memory for the next message\n  return swoc::bwprint_v(zret, fmt, std::forward_as_tuple(args...));")],
    r"""
#include <swoc/Lexicon.h>
#include <string>""" + THREADS + r"""
enum class E { A };
int main() {
  swoc::Lexicon<E> lex;
  lex.define(E::A, "a");
  std::string x(20, 'x'), y(50, 'y');
  return in_threads([&](int k, int) {
    try {
      lex[swoc::TextView(k ? x : y)];
    } catch (std::exception const &e) {
      return std::string(e.what()).find(k ? "yyy" : "xxx") != std::string::npos || std::string(e.what()).find(k ? x : y) == std::string::npos;
    }
    return true;
  });
}""", "two threads that look up unknown names at the same time", "the message of one is that of the other")
bug("c37-spare-block", "C37",
    [(ARC, "  auto free_space   = n - sizeof(Block);\n  _active_reserved += free_space;\n  return new (::malloc(n)) Block(free_space);", "  auto free_space   = n - sizeof(Block);\n  _active_reserved += free_space;\n  if (auto spare = _spare; spare && spare->size == free_space) {\n    _spare = nullptr;\n    return new (spare) Block(free_space);\n  }\n  return new (::malloc(n)) Block(free_space);"),
     (ARC, "MemArena::Block *\nMemArena::make_block(", "static MemArena::Block *_spare = nullptr; // Most recently released block, kept for the next arena.\n\nvoid\nMemArena::Block::recycle(Block *b) {\n  auto spare = _spare;\n  _spare     = b;\n  delete spare;\n}\n\nMemArena::Block *\nMemArena::make_block("),
     (ARC, "  auto sb = _static_block; // C++20 nonsense - capture of @a this is incompatible with C++17.\n  _active\n    .apply([=](Block *b) {\n      if (b != sb) {\n        delete b;", "  auto sb = _static_block; // C++20 nonsense - capture of @a this is incompatible with C++17.\n  _active\n    .apply([=](Block *b) {\n      if (b != sb) {\n        Block::recycle(b);"),
     (ARH, "    bool contains(const void *ptr) const;", "    bool contains(const void *ptr) const;\n\n    /// Release a block, keeping it for reuse.\n    static void recycle(Block *b);")],
    r"""
#include <swoc/MemArena.h>
#include <cstring>""" + THREADS + r"""
static std::atomic<int> arrived{0}, done{0}, round_no{0};
static void *mine[2];
int main() {
  int const N = 3000000;
  std::atomic<int> bad{0};
  auto f = [&](int k) {
    for (int r = 0; r < N && !bad; ++r) {
      {
        swoc::MemArena a{500};
        ++arrived;
        while (arrived < 2 * (r + 1)) ;
        for (volatile int d = 0; d < (k ? r % 60 : 30); d = d + 1) ;
        mine[k] = a.alloc(400).data();
        ++done;
        while (done < 2 * (r + 1)) ;
        if (mine[0] == mine[1]) { bad = 1; printf("both have %p\n", mine[0]); fflush(stdout); _Exit(1); }
        if (k == 0) ++round_no;
        while (round_no < r + 1) ;
        a.clear();
      }
    }
  };
  std::thread a(f, 0), b(f, 1);
  a.join();
  b.join();
  return 0;
}""", "two threads that each clear and use an arena of their own at the same time", "both arenas use the same block")
bug("c37-cwd-buffer", "C37",
    [(FLC, "  char buff[PATH_MAX + 1];", "  static char buff[PATH_MAX + 1];\n  buff[0] = 0;")],
    r"""
#include <swoc/swoc_file.h>""" + THREADS + r"""
int main() {
  auto here = swoc::file::current_path();
  return in_threads([&](int, int) { return swoc::file::current_path() != here; });
}""", "two threads that ask for the current directory at the same time", "one gets an empty path")
