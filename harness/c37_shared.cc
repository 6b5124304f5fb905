// C37: operations that only read an object write nothing another thread could see, operations on distinct objects share nothing.
//
// Every operation runs on a stack of its own under the monitor (mc/monitor.h), which sees each access of the library.  Two operations
// are explored in all interleavings with a bounded number of preemptions; the absence of conflicting accesses makes all others equivalent.
#include "mc.h"
#include "monitor.h"
#include "space_common.h"
#include <cmath>
#include "swoc/ArenaWriter.h"
#include "swoc/BufferWriter.h"
#include "swoc/DiscreteRange.h"
#include "swoc/Errata.h"
#include "swoc/IPEndpoint.h"
#include "swoc/IPRange.h"
#include "swoc/IPSrv.h"
#include "swoc/IntrusiveDList.h"
#include "swoc/IntrusiveHashMap.h"
#include "swoc/Lexicon.h"
#include "swoc/MemArena.h"
#include "swoc/MemSpan.h"
#include "swoc/Scalar.h"
#include "swoc/TextView.h"
#include "swoc/Vectray.h"
#include "swoc/bwf_ex.h"
#include "swoc/bwf_ip.h"
#include "swoc/bwf_std.h"
#include "swoc/swoc_file.h"
#include "swoc/swoc_ip.h"
#include <fcntl.h>
#include <memory>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>

using swoc::Errata;
using swoc::IP4Addr;
using swoc::IP4Range;
using swoc::IP6Addr;
using swoc::IP6Range;
using swoc::IPAddr;
using swoc::IPRange;
using swoc::MemArena;
using swoc::MemSpan;
using swoc::TextView;
using std::string;
using std::string_view;

struct NamedOp {
  string name;
  mon::Op op;
};
using Ops = std::vector<NamedOp>;

static string fmt(char const *f, ...) __attribute__((format(printf, 1, 2)));
static string fmt(char const *f, ...)
{
  char buff[512];
  va_list ap;
  va_start(ap, f);
  int n = vsnprintf(buff, sizeof(buff), f, ap);
  va_end(ap);
  return string(buff, n < int(sizeof(buff)) ? n : int(sizeof(buff)) - 1);
}
template <typename... Args> static string print(string_view f, Args &&...args)
{
  swoc::LocalBufferWriter<1000> w;
  w.print(f, std::forward<Args>(args)...);
  return string(w.view());
}

/// Two of @a ops as threads, in all interleavings.
static void readers(mc::Ctx &c, string const &what, Ops const &ops)
{
  auto const &a = ops[c.choose(int(ops.size()))];
  auto const &b = ops[c.choose(int(ops.size()))];
  c.note("%s: %s and %s", what.c_str(), a.name.c_str(), b.name.c_str());
  c.state(what);
  // The first to run finds whatever the objects were left in by those that built them.
  mon::Run ra = mon::solo(1, a.op);
  MC_CHECK(c, ra.bad.empty(), "%s: %s %s", what.c_str(), a.name.c_str(), ra.bad.c_str());
  mon::Run rb = mon::solo(2, b.op);
  MC_CHECK(c, rb.bad.empty(), "%s: %s after %s %s", what.c_str(), b.name.c_str(), a.name.c_str(), rb.bad.c_str());
  uint64_t last = 0;
  // A second preemption, where b has got as far as a fraction of its accesses.
  std::vector<uint64_t> cuts{UINT64_MAX};
  if (c.thorough) cuts.insert(cuts.end(), {0, rb.points / 4, rb.points / 2, 3 * rb.points / 4});
  for (uint64_t i = 0; i <= ra.points; ++i) {
    for (uint64_t j : cuts) {
      mon::Run pa, pb;
      mon::pair(a.op, b.op, i, j, pa, pb);
      ++last;
      MC_CHECK(c, pa.bad.empty(), "%s: %s preempted at access %llu by %s: %s", what.c_str(), a.name.c_str(), (unsigned long long)i, b.name.c_str(), pa.bad.c_str());
      MC_CHECK(c, pa.value == ra.value && pb.value == rb.value, "%s: %s preempted at access %llu by %s: %s and %s instead of %s and %s", what.c_str(), a.name.c_str(),
               (unsigned long long)i, b.name.c_str(), mc::show(pa.value).c_str(), mc::show(pb.value).c_str(), mc::show(ra.value).c_str(), mc::show(rb.value).c_str());
    }
  }
  c.sh->steps += last;
  c.outcome(a.name + ra.value);
}

// --- range spaces -----------------------------------------------------------
using Space = swoc::IPSpace<int>;
static char const *const RANGES[] = {"10.0.0.0-10.0.0.9", "10.0.0.5-10.0.1.0", "0.0.0.0-255.255.255.255", "10.0.0.10", "::-::5", "::3-1::", "ffff::-ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"};
static char const *const ADDRS[] = {"0.0.0.0", "10.0.0.5", "255.255.255.255", "::4", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"};

template <typename I> static string show_at(I const &spot, I const &end)
{
  if (spot == end) return "none";
  auto &&[r, p] = *spot;
  return print("{}={}", r, p);
}
static Ops space_ops(Space const &s)
{
  Ops ops;
  for (auto t : ADDRS) {
    IPAddr a{t};
    ops.push_back({string("find ") + t, [&s, a] { return show_at(s.find(a), s.end()); }});
    if (a.is_ip4()) ops.push_back({string("find IPv4 ") + t, [&s, a] { return show_at(s.find(a.ip4()), s.end()); }});
    else ops.push_back({string("find IPv6 ") + t, [&s, a] { return show_at(s.find(a.ip6()), s.end()); }});
  }
  ops.push_back({"iterate", [&s] {
    string z;
    for (auto const &[r, p] : s) z += print("{}={} ", r, p);
    return z;
  }});
  ops.push_back({"iterate backwards", [&s] {
    string z;
    auto spot = s.end();
    while (spot != s.begin()) {
      --spot;
      auto &&[r, p] = *spot;
      z += print("{}={} ", r, p);
    }
    return z;
  }});
  ops.push_back({"count", [&s] { return fmt("%zu %zu %zu %zu %d", s.count(), s.count_ip4(), s.count_ip6(), s.count(AF_INET), s.empty()); }});
  ops.push_back({"families", [&s] {
    string z;
    for (auto spot = s.begin_ip4(), e = s.end_ip4(); spot != e; ++spot) z += print("{} ", std::get<0>(spot->tuple()));
    for (auto spot = s.begin(AF_INET6), e = s.end(AF_INET6); spot != e; spot++) z += print("{} ", spot->payload());
    return z;
  }});
  return ops;
}
static string fill_space(mc::Ctx &c, Space &s, int depth)
{
  string what = "space";
  int n       = c.choose(depth + 1);
  for (int i = 0; i < n; ++i) {
    auto t = c.pick(RANGES);
    IPRange r{t};
    switch (c.choose(4)) {
    case 0: s.mark(r, i + 1), what += string(" mark ") + t; break;
    case 1: s.fill(r, i + 1), what += string(" fill ") + t; break;
    case 2:
      s.blend(r, 10 * (i + 1), [](int &x, int y) { return x += y, true; });
      what += string(" blend ") + t;
      break;
    default: s.erase(r), what += string(" erase ") + t; break;
    }
  }
  return what;
}
MC_HISTORIES(space, 4, "const operations on IPSpace after every history of 2 operations: all pairs, all interleavings")
{
  mon::reset();
  std::unique_ptr<Space> s;
  string what;
  {
    mon::Tag t(mon::SHARED);
    s    = std::make_unique<Space>();
    what = fill_space(c, *s, 2);
    if (what.size() > 5) s->mark(IPRange{"10.0.2.0/24"}, 7);
  }
  readers(c, what, space_ops(*s));
}
MC_HISTORIES(space_tree, 4, "const operations on a DiscreteSpace and an IPRangeSet of many ranges: all pairs, all interleavings")
{
  mon::reset();
  using DS = swoc::DiscreteSpace<sp::M<100>, int>;
  std::unique_ptr<DS> s;
  std::unique_ptr<swoc::IPRangeSet> set;
  int n = c.choose(c.thorough ? 16 : 8), order = c.choose(3);
  {
    mon::Tag t(mon::SHARED);
    s   = std::make_unique<DS>();
    set = std::make_unique<swoc::IPRangeSet>();
    for (int i = 0; i < n; ++i) {
      int k = order == 0 ? i : order == 1 ? n - 1 - i : (i * 5) % 16;
      s->mark({sp::M<100>(4 * k), sp::M<100>(4 * k + 1)}, k);
      set->mark(IPRange{IP4Range{IP4Addr(in_addr_t(4 * k)), IP4Addr(in_addr_t(4 * k + 1))}});
      set->fill(IPRange{IP6Range{IP6Addr{fmt("::%x", 4 * k)}, IP6Addr{fmt("::%x", 4 * k + 1)}}});
    }
  }
  DS const &cs              = *s;
  swoc::IPRangeSet const &cr = *set;
  Ops ops;
  for (int v : {0, 5, 6, 13, 28, 60, 99}) {
    ops.push_back({fmt("find %d", v), [&cs, v] {
      auto spot = cs.find(sp::M<100>(v));
      return spot == cs.end() ? string("none") : fmt("%d-%d", spot->min().v, spot->max().v);
    }});
  }
  for (char const *t : {"0.0.0.4", "::5", "0.0.0.60"}) {
    IPAddr a{t};
    ops.push_back({string("set contains ") + t, [&cr, a] { return fmt("%d", cr.contains(a)); }});
  }
  ops.push_back({"iterate", [&cs] {
    string z;
    for (auto const &n : cs) z += fmt("%d-%d ", n.range().min().v, n.range().max().v);
    return z + fmt("%zu %d", cs.count(), cs.empty());
  }});
  ops.push_back({"iterate set", [&cr] {
    string z;
    for (auto const &r : cr) z += print("{} ", r);
    return z + fmt("%zu %d", cr.count(), cr.empty());
  }});
  readers(c, fmt("%d ranges, order %d", n, order), ops);
}

// --- lexicon ----------------------------------------------------------------
enum class Val { A = 0, B = 7, C = -1, X = 99 };
using Lex = swoc::Lexicon<Val>;
MC_HISTORIES(lexicon, 4, "const operations on lexicons of every size and kind of default: all pairs, all interleavings")
{
  mon::reset();
  std::unique_ptr<Lex> lex;
  int n = c.choose(5), d = c.choose(3);
  {
    mon::Tag t(mon::SHARED);
    lex = std::make_unique<Lex>();
    if (n > 0) lex->define(Val::A, "alpha");
    if (n > 1) lex->define(Val::B, {"bravo", "BEE", "second"});
    if (n > 2) lex->define(Val::C, "charlie");
    if (n > 3) {
      for (int i = 100; i < 130; ++i) lex->define(Val(i), {fmt("value-%d", i), fmt("alias-%d", i)});
    }
    if (d == 1) lex->set_default(Val::X).set_default("unknown");
    if (d == 2) {
      lex->set_default([](TextView n) { return n.empty() ? Val::B : Val::A; });
      lex->set_default([](Val v) { return v == Val::X ? TextView("ex") : TextView("other"); });
    }
  }
  Lex const &l = *lex;
  Ops ops;
  for (Val v : {Val::A, Val::B, Val::X, Val(110)}) ops.push_back({fmt("name of %d", int(v)), [&l, v] { return string(l[v]); }});
  for (char const *t : {"alpha", "Bee", "", "alias-120", "none"}) ops.push_back({string("value of ") + t, [&l, t] { return fmt("%d", int(l[TextView(t, strlen(t))])); }});
  ops.push_back({"iterate", [&l] {
    string z;
    for (auto const &p : l) z += fmt("%d=%.*s ", int(std::get<0>(p)), int(std::get<1>(p).size()), std::get<1>(p).data());
    return z + fmt("%zu", l.count());
  }});
  ops.push_back({"iterate names", [&l] {
    // The order of names is that of hashing.
    string z;
    for (auto const &p : l.by_names()) z += fmt("%d=%.*s ", int(std::get<0>(p)), int(std::get<1>(p).size()), std::get<1>(p).data());
    for (auto spot = l.begin_names(); spot != l.end_names(); ++spot) z += string(std::get<1>(*spot));
    return z;
  }});
  ops.push_back({"print", [&l] {
    swoc::LocalBufferWriter<4000> w;
    w.print("{} {}", l[Val::A], l[Val::B]);
    return string(w.view());
  }});
  readers(c, fmt("lexicon %d default %d", n, d), ops);
}

// --- errata -----------------------------------------------------------------
struct Category : std::error_category {
  char const *name() const noexcept override { return "test"; }
  string message(int v) const override { return v == 1 ? "One" : "Two"; }
} static const category;
static std::array<TextView, 3> const SEVERITIES{{"Info", "Warning", "Error"}};

static Ops errata_ops(Errata const &e)
{
  Ops ops;
  ops.push_back({"state", [&e] { return fmt("%d %d %d %d %d %zu %d %d", bool(e), !e, e.is_ok(), e.has_severity(), int(e.severity()), e.length(), e.empty(), e.code().value()); }});
  ops.push_back({"iterate", [&e] {
    string z;
    for (auto const &a : e) z += fmt("%d:%d:%d:%.*s ", a.level(), a.has_severity(), int(a.severity(Errata::Severity(9))), int(a.text().size()), a.text().data());
    return z;
  }});
  ops.push_back({"ends", [&e] { return e.empty() ? string("-") : string(e.front().text()) + "|" + string(e.back().text()); }});
  ops.push_back({"settings", [&e] {
    return string(e.annotation_glue_text()) + "|" + string(e.annotation_severity_glue_text()) + "|" + string(e.severity_glue_text()) + "|" + string(e.indent_text());
  }});
  ops.push_back({"print", [&e] { return print("{}", e); }});
  ops.push_back({"print short", [&e] { return print("{:.7}", e); }});
  ops.push_back({"write", [&e] {
    std::ostringstream s;
    e.write(s);
    return s.str();
  }});
  return ops;
}
MC_HISTORIES(errata, 4, "const operations on errata after every history of 2 operations, alone and in a result: all pairs, all interleavings")
{
  mon::reset();
  Errata::SEVERITY_NAMES = MemSpan<TextView const>(SEVERITIES.data(), SEVERITIES.size());
  swoc::Rv<int> rv{17};
  string what = "errata";
  {
    mon::Tag t(mon::SHARED);
    auto &e = rv.errata();
    int n   = c.choose(c.thorough ? 4 : 3);
    for (int i = 0; i < n; ++i) {
      int k = c.choose(8);
      what += fmt(" %d", k);
      switch (k) {
      case 0: e.note("plain text"); break;
      case 1: e.note(Errata::Severity(1), "severe"); break;
      case 2: e.note("formatted {} {}", 5, "x"); break;
      case 3: e.note(Errata::Severity(2)); break;
      case 4: e.note(std::error_code(1, category)); break;
      case 5: e.note(Errata(std::error_code(2, category), Errata::Severity(2), "nested")); break;
      case 6: e.assign_annotation_glue_text("; ", true).assign_severity_glue_text("> ").assign_indent_text("__"); break;
      default: e.assign(std::error_code(EINVAL, std::generic_category())); break;
      }
    }
  }
  auto const &crv = rv;
  Ops ops         = errata_ops(crv.errata());
  ops.push_back({"result", [&crv] { return fmt("%d %d", crv.result(), crv.is_ok()); }});
  ops.push_back({"result as value", [&crv] {
    int const &r = crv;
    return fmt("%d", r);
  }});
  readers(c, what, ops);
}

// --- containers -------------------------------------------------------------
struct Item {
  int id = 0, key = 0;
  Item *_next = nullptr, *_prev = nullptr;
};
struct Links {
  static Item *&next_ptr(Item *i) { return i->_next; }
  static Item *&prev_ptr(Item *i) { return i->_prev; }
};
struct Desc : Links {
  static int key_of(Item *i) { return i->key; }
  static uint64_t hash_of(int k) { return uint64_t(k % 5) * 7; }
  static bool equal(int a, int b) { return a == b; }
};
using List = swoc::IntrusiveDList<Links>;
using Hash = swoc::IntrusiveHashMap<Desc>;

MC_HISTORIES(containers, 4, "const operations on Vectray, IntrusiveDList, IntrusiveHashMap, MemArena and MemSpan of every size up to 5: all pairs, all interleavings")
{
  mon::reset();
  int n = c.choose(c.thorough ? 13 : 6);
  struct World {
    swoc::Vectray<string, 2> v;
    List list;
    Hash hash{2};
    MemArena arena{64};
    std::vector<Item> items;
    std::vector<void *> mem;
    ~World() { hash.clear(), list.clear(); }
  };
  std::unique_ptr<World> w;
  {
    mon::Tag t(mon::SHARED);
    w = std::make_unique<World>();
    w->items.resize(2 * n);
    for (int i = 0; i < n; ++i) {
      w->v.push_back(fmt("element %d of the vector, not short", i));
      w->items[i].id = i, w->items[n + i].id = i, w->items[n + i].key = i / 2;
      w->list.append(&w->items[i]);
      w->hash.insert(&w->items[n + i]);
      w->mem.push_back(w->arena.alloc(30 + 20 * i).data());
      if (i == 2) w->arena.freeze();
    }
  }
  World const &x = *w;
  Ops ops;
  ops.push_back({"vector", [&x] {
    string z = fmt("%zu %d ", x.v.size(), x.v.empty());
    for (auto const &s : x.v) z += s;
    if (!x.v.empty()) z += x.v.front() + x.v.back() + x.v[0] + fmt("%d", x.v.data() == &x.v[0]);
    MemSpan<string const> span = x.v;
    return z + fmt("%zu", span.size());
  }});
  ops.push_back({"list", [&x] {
    string z = fmt("%zu %d ", x.list.count(), x.list.empty());
    for (auto const &i : x.list) z += fmt("%d ", i.id);
    for (auto spot = x.list.end(); spot != x.list.begin();) --spot, z += fmt("%d", spot->id);
    if (x.list.head()) z += fmt("%d %d %d", x.list.head()->id, x.list.tail()->id, x.list.contains(x.list.head()));
    return z;
  }});
  ops.push_back({"list position", [&x] {
    if (!x.list.head()) return string("-");
    auto spot = x.list.iterator_for(x.list.tail());
    return fmt("%d %d %d", spot->id, spot.has_next(), spot.has_prev());
  }});
  ops.push_back({"table", [&x] {
    string z = fmt("%zu %zu ", x.hash.count(), x.hash.bucket_count());
    for (auto const &i : x.hash) z += fmt("%d ", i.id);
    return z;
  }});
  for (int k : {0, 2, 9}) {
    ops.push_back({fmt("table find %d", k), [&x, k] {
      auto spot = x.hash.find(k);
      return spot == x.hash.end() ? string("none") : fmt("%d", spot->id);
    }});
    ops.push_back({fmt("table range %d", k), [&x, k] {
      string z;
      for (auto const &i : x.hash.equal_range(k)) z += fmt("%d ", i.id);
      return z;
    }});
  }
  ops.push_back({"arena", [&x] {
    string z = fmt("%zu %zu %zu %zu ", x.arena.size(), x.arena.remaining(), x.arena.allocated_size(), x.arena.reserved_size());
    for (auto const &b : x.arena) z += fmt("%zu %d ", b.remaining(), b.is_full());
    for (auto spot = x.arena.frozen_begin(); spot != x.arena.frozen_end(); ++spot) z += fmt("%zu ", spot->remaining());
    for (void *p : x.mem) z += fmt("%d", x.arena.contains(p));
    return z + fmt("%d", x.arena.contains(&x));
  }});
  readers(c, fmt("containers of %d", n), ops);
}

// --- output -----------------------------------------------------------------
struct Shared {
  swoc::bwf::Format f1{"{:>8}|{:<8}|{:^8}|"}, f2{"{0:x} {1:#X} {2:b} {nobody} {0:d}"}, f3{"{} {}"};
  std::array<int, 6> numbers{{0, -1, 7, 1 << 20, -2147483647 - 1, 2147483647}};
  string text = "some text", hex = "4576696c";
  IPAddr a4{"10.1.2.3"}, a6{"2001:db8::1:0:0:ff"};
  IPRange r4{"10.0.0.0/24"}, r6{"::1-::ffff"};
  swoc::IPNet net{"10.0.0.0/9"};
  swoc::IPEndpoint ep{"[1::2]:8080"};
  swoc::IPSrv srv{IPAddr{"10.1.1.1"}, 80};
  swoc::bwf::ExternalNames names;
  std::error_code ec{ENOENT, std::system_category()};
  std::vector<char> bytes{'a', 'b', '\x01', '\xff'};
  MemSpan<char> span{bytes.data(), bytes.size()};
  std::tuple<int, string> args{5, "five"};
  char buffer[40] = "buffer";
  Shared()
  {
    names.assign("me", [](swoc::BufferWriter &w, swoc::bwf::Spec const &spec) -> swoc::BufferWriter & { return bwformat(w, spec, "myself"); });
    names.assign("num", [](swoc::BufferWriter &w, swoc::bwf::Spec const &spec) -> swoc::BufferWriter & { return bwformat(w, spec, 42); });
  }
};
static Ops print_ops(Shared const &x)
{
  using namespace swoc::bwf;
  Ops ops;
  auto add = [&](char const *n, auto f) { ops.push_back({n, mon::Op(f)}); };
  add("compiled text", [&x] {
    swoc::LocalBufferWriter<200> w;
    w.print(x.f1, x.text, x.numbers[2], 'c');
    return string(w.view());
  });
  add("compiled numbers", [&x] {
    swoc::LocalBufferWriter<200> w;
    w.print(x.f2, x.numbers[2], x.numbers[3], x.numbers[4]);
    return string(w.view());
  });
  add("compiled format", [&x] {
    swoc::LocalBufferWriter<200> w;
    w.print(x.f3, x.text, x.numbers[1]);
    return string(w.view());
  });
  add("numbers", [&x] { return print("{} {:x} {:+d} {:#o} {:b} {:08} {:>12}", x.numbers[1], x.numbers[3], x.numbers[5], x.numbers[3], x.numbers[2], x.numbers[4], x.numbers[5]); });
  add("floats", [] { return print("{} {:.3} {:.0} {} {} {}", 3.14159, -2.5, 1e3, 1e300, 1.0 / 3, 0.0); });
  add("special floats", [] { return print("{} {} {}", INFINITY, -INFINITY, NAN); });
  add("text", [&x] { return print("{:>12} {:^12.3} {:*<12} {:s} {:S}", x.text, x.text, x.text, x.text.c_str(), string_view(x.text)); });
  add("bool and pointer", [&x] { return print("{} {:s} {:p} {}", true, false, reinterpret_cast<void const *>(0x1234), nullptr) + fmt("%d", x.a4.is_ip4()); });
  add("addresses", [&x] { return print("{} {} {::=} {::a}", x.a4, x.a6, x.a4, x.a6); });
  add("ranges", [&x] { return print("{} {} {::c} {}", x.r4, x.r6, x.r4, x.net); });
  add("endpoint", [&x] { return print("{} {::ap} {::f} {}", x.ep, x.ep, x.ep, x.srv); });
  add("names", [&x] {
    swoc::LocalBufferWriter<200> w;
    w.print_n(x.names, "{me:>10} {num:x} {other}");
    return string(w.view());
  });
  add("bound names", [&x] {
    swoc::LocalBufferWriter<200> w;
    w.print_n(x.names.bind(), "{num} {me}");
    return string(w.view());
  });
  add("global names", [] {
    swoc::LocalBufferWriter<200> w;
    w.print("{nothing} {}", 1);
    return string(w.view());
  });
  add("errors", [&x] { return print("{} {} {}", x.ec, Errno(EPERM), Errno(ENOENT)) + print("{:s} {:d}", Errno(5000), Errno(EINTR)); });
  add("date", [] { return print("{} {::local}", Date(1'000'000'000, "%Y-%m-%d %H:%M:%S"), Date(7, "%c")); });
  add("wrappers", [&x] {
    return print("{} {} {} {}", If(true, "if {}", x.text), Optional(" <{}>", x.text), FirstOf("", x.text, "z"), Pattern{3, "ab"}) + print("{}", UnHex(x.hex)) + print("{}", As_Hex(x.text));
  });
  add("dump", [&x] { return print("{:x} {}", MemSpan<char const>(x.bytes.data(), x.bytes.size()), swoc::bwf::HexDump(x.bytes.data(), x.bytes.size())); });
  add("bad index", [&x] { return print("{5} {}", x.text); });
  add("bad format", [&x] { return print("{", x.text); });
  add("to string", [&x] {
    string s;
    swoc::bwprint(s, "{} {}", x.text, x.numbers[3]);
    swoc::bwprint_v(s, "{1} {0}", x.args);
    swoc::bwappend(s, "{}", x.numbers[4]);
    return s;
  });
  add("to stream", [&x] {
    std::ostringstream s;
    s << x.a4 << ' ' << x.r6 << ' ' << TextView(x.text);
    swoc::LocalBufferWriter<20> w;
    w << x.text << ' ' << x.numbers[2];
    s << w;
    return s.str();
  });
  add("measure", [&x] {
    char small[5];
    swoc::FixedBufferWriter w(small, sizeof(small));
    w.print("{} {}", x.text, x.numbers[5]);
    return fmt("%zu %zu %.*s", w.extent(), w.size(), int(w.size()), w.data());
  });
  add("parse format", [] {
    Format f{"x {0:>3} {{}} {name:d:ext}"};
    return fmt("%d", f.is_literal());
  });
  return ops;
}
MC_HISTORIES(output, 2, "printing of shared arguments and shared compiled formats, each to a writer of its own: all pairs, all interleavings")
{
  mon::reset();
  std::unique_ptr<Shared> x;
  {
    mon::Tag t(mon::SHARED);
    x = std::make_unique<Shared>();
  }
  readers(c, "output", print_ops(*x));
}

// --- input and conversions --------------------------------------------------
static string text_of(IPAddr const &a) { return print("{}", a); }
static Ops input_ops(Shared const &x)
{
  Ops ops;
  auto add = [&](string const &n, auto f) { ops.push_back({n, mon::Op(f)}); };
  for (char const *t : {"10.1.2.3", "::1", "2001:db8::1:2", "1.2.3", "x"}) {
    add(string("address ") + t, [t] {
      IPAddr a;
      bool ok = a.load(t);
      return fmt("%d %s", ok, text_of(a).c_str());
    });
  }
  for (char const *t : {"10.0.0.0/8", "1.1.1.1-2.2.2.2", "::/12", "::1-::2", "10.0.0.0/255.0.0.0", "bad"}) {
    add(string("range ") + t, [t] {
      IPRange r;
      bool ok = r.load(t);
      string z;
      if (ok) {
        z = print("{} {}", r, r.min());
        int n = 0;
        for (auto const &net : r.networks()) {
          z += print(" {}", net);
          if (++n > 3) break;
        }
      }
      return fmt("%d ", ok) + z;
    });
  }
  add("endpoint", [] {
    swoc::IPEndpoint ep;
    bool ok = ep.parse("[::1]:99");
    return fmt("%d %d ", ok, ep.host_order_port()) + print("{}", ep);
  });
  add("service", [] {
    swoc::IPSrv s;
    bool ok = s.load("10.2.3.4:7");
    return fmt("%d ", ok) + print("{}", s);
  });
  add("network", [] {
    swoc::IPNet n;
    bool ok = n.load("10.0.0.0/7");
    return fmt("%d ", ok) + print("{}", n);
  });
  add("address arithmetic", [&x] {
    auto r = x.r4.ip4();
    auto m = x.r6.ip6();
    IP4Addr a{x.a4.ip4()};
    ++a;
    IP6Addr b{x.a6.ip6()};
    --b;
    b <<= 3;
    return fmt("%d %d %d ", r.contains(a), m.contains(b), x.r4 == x.r6) + print("{} {} {}", a, b, a & swoc::IPMask(9));
  });
  for (char const *t : {"123", "-0x7f", "99999999999999999999", "0b11", "z"}) {
    add(string("integer ") + t, [t] {
      TextView rest;
      auto v = swoc::svtoi(TextView(t, strlen(t)), &rest);
      TextView u{t, strlen(t)};
      auto w = swoc::svto_radix<16>(u);
      return fmt("%ld %.*s %lu", long(v), int(rest.size()), rest.data(), (unsigned long)w);
    });
  }
  for (char const *t : {"1.5", "-3e10", "1e400", ".5x"}) {
    add(string("float ") + t, [t] {
      TextView rest;
      auto v = swoc::svtod(TextView(t, strlen(t)), &rest);
      return fmt("%a %zu", v, rest.size());
    });
  }
  add("text pieces", [&x] {
    TextView t{x.text};
    string z;
    while (t) z += string(t.take_prefix_at(' ')) + "|";
    t = x.text;
    z += string(t.split_suffix_if([](char ch) { return ch == 'e'; })) + string(t.ltrim("os").rtrim_if(isspace)) + string(t.prefix(3)) + string(TextView(x.text).clip_suffix_of(isalpha));
    return z;
  });
  add("text compare", [&x] {
    TextView t{x.text};
    return fmt("%d %d %d %zu %zu", strcasecmp(t, "SOME TEXT"), t.starts_with_nocase("Some"), t.ends_with("t"), t.find('t'), std::hash<TextView>{}(t));
  });
  add("memory", [&x] {
    MemSpan<char const> s(x.bytes.data(), x.bytes.size());
    return fmt("%d %zu %d %zu", memcmp(s, s), s.prefix(2).size(), s.is_same(s), s.rebind<uint16_t const>().size());
  });
  add("scalar", [] {
    using KB = swoc::Scalar<1024>;
    KB k     = swoc::round_up(5000);
    swoc::Scalar<1> b = k;
    return fmt("%jd %jd %d", intmax_t(k.count()), intmax_t(b.value()), k < b);
  });
  add("hash", [&x] {
    return fmt("%d", std::hash<IPAddr>{}(x.a4) == std::hash<IPAddr>{}(x.a4));
  });
  return ops;
}
MC_HISTORIES(input, 2, "parsing and conversions of shared text and values: all pairs, all interleavings")
{
  mon::reset();
  std::unique_ptr<Shared> x;
  {
    mon::Tag t(mon::SHARED);
    x = std::make_unique<Shared>();
  }
  readers(c, "input", input_ops(*x));
}

// --- files ------------------------------------------------------------------
MC_HISTORIES(files, 2, "queries of shared paths and of the file system: all pairs, all interleavings")
{
  namespace sf = swoc::file;
  mon::reset();
  char const *base = getenv("MC_SCRATCH");
  string dir       = string(base ? base : "/tmp") + "/c37";
  mkdir(dir.c_str(), 0755);
  string name = dir + "/file";
  if (int fd = open(name.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0644); fd >= 0) {
    (void)!write(fd, "content\n", 8);
    close(fd);
  }
  struct Paths {
    sf::path file, dir, rel{"a/b/c.txt"}, none, root{"/"}, empty;
  };
  std::unique_ptr<Paths> p;
  {
    mon::Tag t(mon::SHARED);
    p       = std::make_unique<Paths>();
    p->file = sf::path(name), p->dir = sf::path(dir), p->none = sf::path(dir + "/none");
  }
  Paths const &x = *p;
  Ops ops;
  auto add = [&](char const *n, auto f) { ops.push_back({n, mon::Op(f)}); };
  add("paths", [&x] {
    string z;
    for (auto q : {&x.file, &x.dir, &x.rel, &x.root, &x.empty}) {
      z += fmt("%d %d %d ", q->empty(), q->is_absolute(), q->is_relative()) + q->parent_path().string() + "|" + q->filename().string() + "|" + q->relative_path().c_str() + "|" + string(q->view());
    }
    return z;
  });
  add("join", [&x] { return (x.dir / x.rel).string() + (x.rel / "d").string() + fmt("%d", x.rel == x.rel); });
  add("print", [&x] { return print("{}", x.rel); });
  add("status", [&x] {
    std::error_code ec, ec2;
    auto s = sf::status(x.file, ec);
    sf::status(x.none, ec2);
    return fmt("%d %d %d %d %zu %d", ec.value(), ec2.value(), sf::is_regular_file(s), sf::is_dir(s), size_t(sf::file_size(s)), int(s.mode()));
  });
  add("times", [&x] {
    std::error_code ec;
    auto s = sf::status(x.file, ec);
    return fmt("%d", sf::last_write_time(s) == sf::last_write_time(s) && sf::status_time(s) == sf::status_time(s));
  });
  add("exists", [&x] { return fmt("%d %d %d %d", sf::exists(x.file), sf::exists(x.none), sf::is_readable(x.file), sf::is_readable(x.none)); });
  add("absolute", [&x] {
    std::error_code ec;
    return sf::absolute(x.rel, ec).string() + sf::absolute(x.file, ec).string();
  });
  add("canonical", [&x] {
    std::error_code ec;
    return sf::canonical(x.dir, ec).string();
  });
  add("places", [] { return sf::current_path().string() + sf::temp_directory_path().string(); });
  add("load", [&x] {
    std::error_code ec, ec2;
    string t = sf::load(x.file, ec), u = sf::load(x.none, ec2);
    return t + fmt("%d %d", ec.value(), ec2.value());
  });
  readers(c, "files", ops);
}

// --- distinct objects -------------------------------------------------------
// Objects 1 and 2 are each changed by a thread of their own.
template <typename T> struct Kind {
  char const *name;
  std::function<std::unique_ptr<T>()> make;
  std::vector<std::pair<char const *, std::function<string(T &)>>> ops;
  std::function<std::unique_ptr<T>(T &)> from; ///< Make one from another, which stays in use.
  bool moves = false;                               ///< It gets all the memory the other had.
};

template <typename T> static void separate(mc::Ctx &c, Kind<T> const &k)
{
  int const n = int(k.ops.size());
  std::vector<int> setup, one, two;
  bool derived = k.from && c.flag();
  int s        = derived ? 1 + c.choose(2) : c.choose(2);
  for (int i = 0; i < s; ++i) setup.push_back(c.choose(n));
  for (int i = 0; i < (c.thorough ? 2 : 1); ++i) one.push_back(c.choose(n));
  for (int i = 0; i < 1; ++i) two.push_back(c.choose(n));
  string what = string(k.name) + (derived ? ", one made from the other" : "");
  for (int i : setup) what += string(" ") + k.ops[i].first;
  string names1, names2;
  for (int i : one) names1 += string(names1.empty() ? "" : ", ") + k.ops[i].first;
  for (int i : two) names2 += string(names2.empty() ? "" : ", ") + k.ops[i].first;
  c.note("%s: %s and %s", what.c_str(), names1.c_str(), names2.c_str());

  auto run = [&](T &t, std::vector<int> const &seq) {
    string z;
    for (int i : seq) z += k.ops[i].second(t) + "\n";
    return z;
  };
  struct World {
    std::unique_ptr<T> a, b;
  };
  auto build = [&] {
    mon::reset();
    auto w = std::make_unique<World>();
    mon::tag(1);
    w->a = k.make();
    if (derived && k.moves) mon::tag(2);
    run(*w->a, setup);
    mon::tag(2);
    w->b = derived ? k.from(*w->a) : k.make();
    if (!derived) run(*w->b, setup);
    mon::tag(0);
    return w;
  };
  // Each of the two may be the first to be destroyed, which is part of what it does.
  auto w     = build();
  mon::Op f1 = [&] { return run(*w->a, one); }, f2 = [&] { return run(*w->b, two); };
  auto alone = [&](int id, mon::Op const &f, string const &n) {
    auto r = mon::solo(id, f);
    MC_CHECK(c, r.bad.empty(), "%s: %s of object %d %s", what.c_str(), n.c_str(), id, r.bad.c_str());
    return r;
  };
  auto destroy = [&](int id, std::unique_ptr<T> &p, string const &n) {
    T *t = p.release();
    alone(id, [t] { return delete t, string(); }, n + " and destruction");
  };
  mon::Run r1 = alone(1, f1, names1);
  destroy(1, w->a, names1);
  mon::Run r2 = alone(2, f2, names2 + " after the destruction of the other");
  destroy(2, w->b, names2);
  w.reset();
  w           = build();
  mon::Run q2 = alone(2, f2, names2);
  destroy(2, w->b, names2);
  mon::Run q1 = alone(1, f1, names1);
  destroy(1, w->a, names1);
  MC_CHECK(c, r1.value == q1.value && r2.value == q2.value, "%s: %s and %s depend on their order: %s %s, %s %s", what.c_str(), names1.c_str(), names2.c_str(), mc::show(r1.value).c_str(),
           mc::show(r2.value).c_str(), mc::show(q1.value).c_str(), mc::show(q2.value).c_str());
  uint64_t points = std::max(r1.points, q1.points);
  for (uint64_t i = 0; i <= points; ++i) {
    w.reset();
    w = build();
    mon::Run pa, pb;
    mon::pair(f1, f2, i, UINT64_MAX, pa, pb);
    MC_CHECK(c, pa.bad.empty(), "%s: %s preempted at access %llu by %s of another object: %s", what.c_str(), names1.c_str(), (unsigned long long)i, names2.c_str(), pa.bad.c_str());
    MC_CHECK(c, pa.value == r1.value && pb.value == r2.value, "%s: %s preempted at access %llu by %s of another object: %s and %s instead of %s and %s", what.c_str(), names1.c_str(),
             (unsigned long long)i, names2.c_str(), mc::show(pa.value).c_str(), mc::show(pb.value).c_str(), mc::show(r1.value).c_str(), mc::show(r2.value).c_str());
  }
  c.sh->steps += points + 5;
  c.state(what);
  c.outcome(what + r1.value);
}

using SSpace = swoc::IPSpace<string>;
static string dump(SSpace const &s)
{
  string z;
  for (auto const &[r, p] : s) z += print("{}={} ", r, p);
  return z;
}
static Kind<SSpace> space_kind()
{
  Kind<SSpace> k{"IPSpace", [] { return std::make_unique<SSpace>(); }, {}, {}};
  k.ops = {
    {"mark", [](SSpace &s) { return dump(s.mark(IPRange{"10.0.0.5-10.0.0.20"}, "marked with a longer text")); }},
    {"mark 6", [](SSpace &s) { return dump(s.mark(IPRange{"::5-::9"}, "six")); }},
    {"fill", [](SSpace &s) { return dump(s.fill(IPRange{"10.0.0.0/24"}, "filled with a longer text")); }},
    {"blend", [](SSpace &s) { return dump(s.blend(IPRange{"10.0.0.10-10.1.0.0"}, string("+"), [](string &a, string const &b) { return a += b, true; })); }},
    {"erase", [](SSpace &s) { return dump(s.erase(IPRange{"10.0.0.7-10.0.0.8"})); }},
    {"clear", [](SSpace &s) { return s.clear(), dump(s); }},
    {"find", [](SSpace &s) { return show_at(s.find(IPAddr{"10.0.0.6"}), s.end()); }},
  };
  return k;
}
static string dump(MemArena const &a)
{
  string z = fmt("%zu %zu %zu %zu", a.size(), a.remaining(), a.allocated_size(), a.reserved_size());
  return z;
}
static Kind<MemArena> arena_kind()
{
  Kind<MemArena> k{"MemArena", [] { return std::make_unique<MemArena>(64); }, {}, {}};
  k.ops = {
    {"alloc", [](MemArena &a) {
       auto s = a.alloc(40);
       memset(s.data(), 'x', s.size());
       return dump(a);
     }},
    {"alloc large", [](MemArena &a) {
       auto s = a.alloc_span<uint64_t>(700);
       s[0] = s[699] = 5;
       return dump(a);
     }},
    {"make", [](MemArena &a) {
       auto p = a.make<std::pair<int, double>>(5, 1.5);
       return dump(a) + fmt("%d", p->first);
     }},
    {"localize", [](MemArena &a) {
       auto p = a.localize("some text");
       return string(p.data(), p.size()) + dump(a);
     }},
    {"freeze", [](MemArena &a) { return a.freeze(100), dump(a); }},
    {"thaw", [](MemArena &a) { return a.thaw(), dump(a); }},
    {"clear", [](MemArena &a) { return a.clear(300), dump(a); }},
    {"discard", [](MemArena &a) { return a.discard(), dump(a); }},
    {"require", [](MemArena &a) { return a.require(500), dump(a); }},
    {"remnant", [](MemArena &a) {
       auto s = a.remnant();
       if (s.size()) memset(s.data(), 'r', s.size());
       return dump(a);
     }},
  };
  k.from = [](MemArena &a) { return std::make_unique<MemArena>(std::move(a)); };
  k.moves = true;
  return k;
}
struct Pool {
  MemArena arena{128};
  swoc::FixedArena<Item> pool{arena};
  std::vector<Item *> live;
  string dump()
  {
    string z;
    for (auto i : live) z += fmt("%d ", i->id);
    return z + fmt("%zu", arena.size());
  }
};
static Kind<Pool> pool_kind()
{
  Kind<Pool> k{"FixedArena", [] { return std::make_unique<Pool>(); }, {}, {}};
  k.ops = {
    {"make", [](Pool &p) {
       p.live.push_back(p.pool.make());
       p.live.back()->id = int(p.live.size());
       return p.dump();
     }},
    {"destroy", [](Pool &p) {
       if (!p.live.empty()) p.pool.destroy(p.live.back()), p.live.pop_back();
       return p.dump();
     }},
    {"clear", [](Pool &p) { return p.live.clear(), p.pool.clear(), p.dump(); }},
  };
  return k;
}
static string dump(Lex const &l)
{
  string z = fmt("%zu", l.count());
  for (auto const &p : l) z += fmt(" %d=%.*s", int(std::get<0>(p)), int(std::get<1>(p).size()), std::get<1>(p).data());
  return z;
}
static Kind<Lex> lex_kind()
{
  Kind<Lex> k{"Lexicon", [] { return std::make_unique<Lex>(); }, {}, {}};
  k.ops = {
    {"define", [](Lex &l) {
       int n = int(l.count());
       return dump(l.define(Val(200 + n), {fmt("name %d", n), fmt("other %d", n)}));
     }},
    {"define fixed", [](Lex &l) {
       try {
         l.define(Val::A, "alpha");
       } catch (std::exception const &) {
         return "refused " + dump(l);
       }
       return dump(l);
     }},
    {"defaults", [](Lex &l) { return dump(l.set_default(Val::X).set_default("what")); }},
    {"names", [](Lex &l) {
       string z;
       try {
         z = string(l[Val::A]) + string(l[Val(200)]);
       } catch (std::exception const &) {
         z = "unknown";
       }
       return z;
     }},
    {"values", [](Lex &l) {
       string z;
       try {
         z = fmt("%d", int(l["ALPHA"]));
       } catch (std::exception const &) {
         z = "unknown";
       }
       return z;
     }},
  };
  return k;
}
static Kind<Errata> errata_kind()
{
  Kind<Errata> k{"Errata", [] { return std::make_unique<Errata>(); }, {}, {}};
  auto show = [](Errata const &e) { return print("{} {} {}", e, e.length(), e.is_ok()); };
  k.ops     = {
    {"note", [=](Errata &e) { return show(e.note("text")); }},
    {"note severe", [=](Errata &e) { return show(e.note(Errata::Severity(2), "bad {}", 5)); }},
    {"note code", [=](Errata &e) { return show(e.note(std::error_code(1, category))); }},
    {"note errata", [=](Errata &e) { return show(e.note(Errata(Errata::Severity(1), "inner {}", "text"))); }},
    {"severity", [=](Errata &e) { return show(e.assign(Errata::Severity(1))); }},
    {"glue", [=](Errata &e) { return show(e.assign_annotation_glue_text(", ").assign_indent_text("~").assign_severity_glue_text("! ")); }},
    {"clear", [=](Errata &e) { return show(e.clear()); }},
    {"read", [=](Errata &e) { return show(e); }},
  };
  // The annotations of one are copied into the other.
  k.from = [](Errata &e) {
    auto r = std::make_unique<Errata>(Errata::Severity(1), "outer");
    r->note(static_cast<Errata const &>(e));
    return r;
  };
  return k;
}
using Vec = swoc::Vectray<string, 2>;
static string dump(Vec const &v)
{
  string z = fmt("%zu:", v.size());
  for (auto const &s : v) z += s + " ";
  return z;
}
static Kind<Vec> vec_kind()
{
  Kind<Vec> k{"Vectray", [] { return std::make_unique<Vec>(); }, {}, {}};
  k.ops = {
    {"push", [](Vec &v) { return v.push_back(fmt("an element, the number is %zu", v.size())), dump(v); }},
    {"push 3", [](Vec &v) {
       for (int i = 0; i < 3; ++i) v.emplace_back(fmt("one of three elements, %d", i));
       return dump(v);
     }},
    {"pop", [](Vec &v) {
       if (!v.empty()) v.pop_back();
       return dump(v);
     }},
    {"change", [](Vec &v) {
       for (auto &s : v) s += "!";
       return dump(v);
     }},
  };
  k.from = [](Vec &v) { return std::make_unique<Vec>(v); };
  return k;
}
struct Members {
  std::vector<Item> items{8};
  List list;
  Hash hash{2};
  int n = 0;
  ~Members() { list.clear(), hash.clear(); }
  string dump()
  {
    string z = fmt("%zu %zu %zu:", list.count(), hash.count(), hash.bucket_count());
    for (auto &i : list) z += fmt(" %d", i.id);
    z += ";";
    for (auto &i : hash) z += fmt(" %d", i.key);
    return z;
  }
};
static Kind<Members> members_kind()
{
  Kind<Members> k{"lists and tables", [] { return std::make_unique<Members>(); }, {}, {}};
  auto fresh = [](Members &m) {
    Item *i = &m.items[m.n % 8];
    i->id = i->key = m.n++;
    return i;
  };
  k.ops = {
    {"append", [=](Members &m) { return m.list.append(fresh(m)), m.dump(); }},
    {"prepend", [=](Members &m) { return m.list.prepend(fresh(m)), m.dump(); }},
    {"take", [=](Members &m) { return m.list.take_head(), m.dump(); }},
    {"insert", [=](Members &m) { return m.hash.insert(fresh(m)), m.dump(); }},
    {"insert 3", [=](Members &m) {
       for (int i = 0; i < 3; ++i) m.hash.insert(fresh(m));
       return m.dump();
     }},
    {"expand", [=](Members &m) { return m.hash.expand(), m.dump(); }},
    {"remove", [=](Members &m) {
       auto spot = m.hash.find(0);
       if (spot != m.hash.end()) m.hash.erase(spot);
       return m.dump();
     }},
  };
  return k;
}
struct Writers {
  MemArena arena{64};
  swoc::ArenaWriter aw{arena};
  swoc::LocalBufferWriter<64> lw;
  char buff[32];
  swoc::FixedBufferWriter fw{buff, sizeof(buff)};
  swoc::bwf::ExternalNames names;
  swoc::file::path path{"start"};
  string text;
  int n = 0;
  string dump() { return string(aw.view()) + "|" + string(lw.view()) + "|" + string(fw.view()) + fmt("|%zu %zu %zu|", aw.extent(), lw.extent(), fw.extent()) + path.string() + "|" + text; }
};
static Kind<Writers> writer_kind()
{
  Kind<Writers> k{"writers", [] { return std::make_unique<Writers>(); }, {}, {}};
  k.ops = {
    {"print", [](Writers &w) {
       ++w.n;
       w.aw.print("arena {} {:>20} ", w.n, "text");
       w.lw.print("local {} {} ", w.n, IPAddr{"::1"});
       w.fw.print("fixed {:.3} ", 3.14159);
       return w.dump();
     }},
    {"write", [](Writers &w) {
       w.aw.write("plain text for the arena").write('c');
       w.lw.write("plain").write('x');
       w.fw << 5 << " and " << TextView("more");
       return w.dump();
     }},
    {"edit", [](Writers &w) {
       w.lw.discard(w.lw.extent() ? 1 : 0);
       if (w.lw.size() > 8) w.lw.copy(0, 4, 4);
       w.fw.restrict(4).write("rrrrrrrrrrrrrr").restore(4);
       if (w.fw.remaining() > 2) w.fw.aux_span()[0] = 'z', w.fw.commit(1);
       return w.dump();
     }},
    {"names", [](Writers &w) {
       int n = w.n++;
       w.names.assign(fmt("name %d", n), [n](swoc::BufferWriter &o, swoc::bwf::Spec const &spec) -> swoc::BufferWriter & { return bwformat(o, spec, n); });
       swoc::LocalBufferWriter<200> o;
       o.print_n(w.names, "{name 0} {name 1}");
       return string(o.view());
     }},
    {"path", [](Writers &w) {
       w.path /= string_view(fmt("part%d", w.n++));
       return w.dump();
     }},
    {"string", [](Writers &w) {
       swoc::bwprint(w.text, "{} and {:>30}", w.n, "text");
       swoc::bwappend(w.text, " {}", w.n++);
       return w.dump();
     }},
    {"dates", [](Writers &w) {
       w.lw.print("{}", swoc::bwf::Date(1'000'000'000, "%Y %j"));
       return w.dump();
     }},
    {"errors", [](Writers &w) {
       w.aw.print("{} {}", swoc::bwf::Errno(EPERM), std::error_code(ENOENT, std::system_category()));
       return w.dump();
     }},
  };
  return k;
}
struct Values {
  IPAddr a{"10.1.1.1"};
  IPRange r{"10.0.0.0/8"};
  swoc::IPEndpoint ep{"10.1.1.2:80"};
  swoc::IPSrv srv{"10.1.1.3:80"};
  string text = "alpha bravo charlie";
  TextView view{text};
  swoc::Scalar<10> s{5};
  string dump() { return print("{} {} {} {} {} {}", a, r, ep, srv, view, s.count()); }
};
static Kind<Values> value_kind()
{
  Kind<Values> k{"values", [] { return std::make_unique<Values>(); }, {}, {}};
  k.ops = {
    {"address", [](Values &v) {
       IP4Addr x = v.a.ip4();
       ++x;
       v.a = x;
       v.r = IPRange{v.a, v.a};
       return v.dump();
     }},
    {"load", [](Values &v) {
       v.a.load("::5");
       v.r.load("::1-::9");
       v.ep.parse("[::7]:9");
       v.srv.load("[::8]:1");
       return v.dump();
     }},
    {"ports", [](Values &v) {
       v.ep.parse("10.9.9.9:99");
       v.srv.assign(in_port_t(7));
       return v.dump();
     }},
    {"text", [](Values &v) {
       auto t = v.view.take_prefix_at(' ');
       return string(t) + v.dump();
     }},
    {"scalar", [](Values &v) {
       v.s += swoc::Scalar<10>(3);
       v.s = swoc::round_up(v.s.value() + 1);
       return v.dump();
     }},
  };
  k.from = [](Values &v) {
    auto r = std::make_unique<Values>();
    r->a = v.a, r->r = v.r, r->ep = v.ep, r->srv = v.srv, r->s = v.s;
    return r;
  };
  return k;
}

MC_HISTORIES(distinct, 5, "each of two objects of a kind changed by a thread of its own: all pairs of operations after every operation, all interleavings, both orders of destruction")
{
  Errata::SEVERITY_NAMES = MemSpan<TextView const>(SEVERITIES.data(), SEVERITIES.size());
  switch (c.choose(9)) {
  case 0: separate(c, space_kind()); break;
  case 1: separate(c, arena_kind()); break;
  case 2: separate(c, pool_kind()); break;
  case 3: separate(c, lex_kind()); break;
  case 4: separate(c, errata_kind()); break;
  case 5: separate(c, vec_kind()); break;
  case 6: separate(c, members_kind()); break;
  case 7: separate(c, writer_kind()); break;
  default: separate(c, value_kind()); break;
  }
}
