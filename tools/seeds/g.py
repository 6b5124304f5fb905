SVU = "code/src/string_view_util.cc"
TVH = "code/include/swoc/TextView.h"
TVS = "code/src/TextView.cc"
MSP = "code/include/swoc/MemSpan.h"
ARC = "code/src/MemArena.cc"
SRV = "code/include/swoc/IPSrv.h"
bug("c14-same-memory", "C14",
    [(SVU, "    n    = lhs.size();\n  } else if (lhs.size() > rhs.size()) {\n    zret = 1;\n  } else if (lhs.data() == rhs.data()) { // the same", "    n    = lhs.size();\n  } else if (lhs.size() > rhs.size() && lhs.data() != rhs.data()) {\n    zret = 1;\n  } else if (lhs.data() == rhs.data()) { // the same")],
    r"""
#include <swoc/TextView.h>
#include <cstdio>
int main() {
  swoc::TextView t{"Alpha"};
  int a = strcasecmp(t, t.prefix(3)), b = strcasecmp(t.prefix(3), t);
  printf("%d %d\n", a, b);
  return a != 1 || b != -1;
}""", "a view compared without case to a shorter view of the same memory", "the longer view is equal to the shorter one, in one direction only")
bug("c12-take-suffix-set", "C12",
    [(TVH, """TextView::take_suffix_at(std::string_view const &delimiters) {
  auto idx = this->find_last_of(delimiters);""", """TextView::take_suffix_at(std::string_view const &delimiters) {
  auto idx = delimiters.empty() ? npos : this->rfind(delimiters.front());
  for (char c : delimiters) {
    idx = std::max(idx + 1, this->rfind(c) + 1) - 1;
  }
  idx = idx == 0 ? npos : idx;""")],
    r"""
#include <swoc/TextView.h>
#include <cstdio>
int main() {
  swoc::TextView t{",abc"};
  auto z = t.take_suffix_at(";,");
  printf("'%.*s' '%.*s'\n", int(z.size()), z.data(), int(t.size()), t.data());
  return z != "abc" || !t.empty();
}""", "a set of delimiters, the last of them at the start of the text", "the delimiter is not found, all of the text is taken")
bug("c15-generic-limit", "C15",
    [(TVS, "        if (zret <= OVERFLOW_LIMIT && uintmax_t(v) <= (MAX - (zret *= base))) {\n          zret += v;", "        if (zret <= OVERFLOW_LIMIT) {\n          zret = zret * base + v;")],
    r"""
#include <swoc/TextView.h>
#include <cstdio>
int main() {
  swoc::TextView p;
  auto n = swoc::svtou("3w5e11264sgsg", &p, 36); // one more than the largest
  printf("%llx %zu\n", (unsigned long long)n, p.size());
  return n != UINTMAX_MAX;
}""", "a number just above the largest in a base without special support", "the number wraps around instead of being the largest")
bug("c30-family-alias", "C30",
    [(SRV, "inline bool\noperator==(IPSrv const &lhs, IP4Srv const &rhs) {\n  return lhs.is_ip4() && lhs.ip4() == rhs;", "inline bool\noperator==(IPSrv const &lhs, IP4Srv const &rhs) {\n  return lhs.is_valid() && lhs.ip4() == rhs;")],
    r"""
#include <swoc/swoc_ip.h>
#include <cstdio>
int main() {
  swoc::IPSrv s(swoc::IP6Addr("::1"), 80);
  swoc::IP4Srv t(swoc::IP4Addr("0.0.0.0"), 0);
  printf("%d\n", s == t);
  return s == t;
}""", "an IPv6 service whose leading bytes in memory are those of an IPv4 service", "services of different families are equal")
bug("c07-discard-blocks", "C07",
    [(ARC, "  for (auto &block : _active) {\n    block.discard();\n  }\n  _active_allocated = 0;", "  for (auto &block : _active) {\n    if (&block != _active.tail() || !block.is_full()) {\n      block.discard();\n    }\n  }\n  _active_allocated = 0;")],
    r"""
#include <swoc/MemArena.h>
#include <cstdio>
int main() {
  swoc::MemArena a{200};
  a.alloc(10);
  a.alloc(a.remaining() + 1);
  a.alloc(a.remaining()); // block is full and goes to the end of the list
  a.discard();
  size_t size = 0;
  for (auto spot = a.begin(); spot != a.end(); ++spot) size += spot->allocated_data_end() - spot->data();
  printf("%zu %zu\n", a.size(), size);
  return a.size() != size;
}""", "discard of everything while the last block of the list is full", "the memory of that block is never used again")
