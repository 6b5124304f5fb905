LEX = "code/include/swoc/Lexicon.h"
SCA = "code/include/swoc/Scalar.h"
ERR = "code/src/Errata.cc"
ERRH = "code/include/swoc/Errata.h"
IPC = "code/src/swoc_ip.cc"
IPA = "code/include/swoc/IPAddr.h"
IPR = "code/include/swoc/IPRange.h"
FC = "code/src/swoc_file.cc"

bug("c23-second-define", "C23",
    [(LEX, "    if (_by_value.find(value) == _by_value.end()) {", "    if (&name == names.begin()) {")],
    r"""
#include <swoc/Lexicon.h>
#include <cstdio>
enum class E { A, B };
int main() {
  swoc::Lexicon<E> lex;
  lex.define(E::A, "alpha", "one").define(E::B, "bravo");
  lex.define(E::A, "ace");
  int n = 0;
  for (auto const &pair : lex) n += pair._value == E::A;
  printf("%zu %d\n", lex.count(), n);
  return !(lex.count() == 2 && n == 1 && lex[E::A] == "alpha");
}""", "names for a value given by two separate define calls", "the value is counted and visited twice")

bug("c24-le-counts", "C24",
    [(SCA, "  return lhs.count() * R::num <= rhs.count() * R::den;", "  return lhs.count() == rhs.count() || lhs.count() * R::num < rhs.count() * R::den;")],
    r"""
#include <swoc/Scalar.h>
#include <cstdio>
int main() {
  using K = swoc::Scalar<1000>; using P = swoc::Scalar<10>;
  int bad = 0;
  bad += (K(3) <= P(3)); // 3000 and 30
  bad += !(P(3) <= K(3));
  bad += !(K(1) <= P(100));
  bad += !(P(100) <= K(1));
  bad += !(K(3) >= P(3));
  printf("%d\n", bad);
  return bad;
}""", "comparing scalars of different scales that have the same count or the same value", "wrong order of values of different scale")

bug("c25-filter-format", "C25",
    [(ERRH, """  if (!severity.has_value() || *severity >= FILTER_SEVERITY) {
    Data *data = this->data();""", """  if (severity.value_or(DEFAULT_SEVERITY) >= FILTER_SEVERITY) {
    Data *data = this->data();""")],
    r"""
#include <swoc/Errata.h>
#include <swoc/bwf_base.h>
#include <cstdio>
int main() {
  swoc::Errata::FILTER_SEVERITY = swoc::Errata::Severity{4};
  swoc::Errata e;
  e.note("plain");
  e.note("formatted {}", 17);
  printf("%zu\n", e.length());
  return e.length() != 2;
}""", "a filter above the default severity and a formatted annotation without severity", "an annotation without severity is dropped")

bug("c26-ip4-tail", "C26",
    [(IPC, "    max >>= 8; // reduce by one octet.", "    max >>= (n > 1 ? 8 : 0); // reduce by one octet.")],
    r"""
#include <swoc/swoc_ip.h>
#include <cstdio>
int main() {
  swoc::IP4Addr a;
  bool p = a.load("1.2.3.256"), q = a.load("1.2.3.255"), r = a.load("1.2.65535");
  printf("%d %d %d\n", p, q, r);
  return p || !q || !r;
}""", "an address whose last octet is larger than 255", "the text is accepted as another address")

bug("c26-ip6-tail", "C26",
    [(IPC, "  if (n == N_QUADS && src.empty()) {", "  if (n == N_QUADS && src.prefix_at(':').empty()) {")],
    r"""
#include <swoc/swoc_ip.h>
#include <cstdio>
int main() {
  swoc::IP6Addr a;
  bool p = a.load("1:2:3:4:5:6:7:8:9"), q = a.load("1:2:3:4:5:6:7:8"), r = a.load("1:2:3:4:5:6:7:8:9:a"), s = a.load("1:2:3:4::6:7:8:9:a");
  printf("%d %d %d %d\n", p, q, r, s);
  return p || !q || r || s;
}""", "an IPv6 text with exactly one quad too many", "the excess is ignored")

bug("c27-dec-borrow", "C27",
    [(IPA, "  if (--(_addr._store[LSW]) == ~static_cast<uint64_t>(0)) {\n    --(_addr._store[MSW]);", "  if ((_addr._store[LSW])-- == 0 && _addr._store[MSW] != 0) {\n    --(_addr._store[MSW]);")],
    r"""
#include <swoc/swoc_ip.h>
#include <cstdio>
int main() {
  swoc::IP6Addr a{"::"}, b{"5::"}, w{"4:ffff:ffff:ffff:ffff:ffff:ffff:ffff"};
  --a, --b;
  bool ok = a == swoc::IP6Addr::MAX && b == w;
  b = swoc::IP6Addr{"0:0:0:5::"};
  --b;
  ok = ok && b == swoc::IP6Addr{"0:0:0:4:ffff:ffff:ffff:ffff"};
  printf("%d\n", ok);
  return !ok;
}""", "decrement of the lowest IPv6 address", "it does not wrap to the highest address")

bug("c29-net-wrap", "C29",
    [(IPC, """  auto upper(IP4Addr{_range._min._addr | ~_mask._addr});
  if (upper >= _range.max()) {
    _range.clear();
  } else {
    _range.assign_min(++upper);""", """  auto upper(IP4Addr{_range._min._addr | ~_mask._addr});
  if (++upper > _range.max()) {
    _range.clear();
  } else {
    _range.assign_min(upper);""")],
    r"""
#include <swoc/swoc_ip.h>
#include <cstdio>
int main() {
  swoc::IP4Range r{"255.255.255.254-255.255.255.255"}, s{"10.0.0.1-10.0.0.2"};
  int n = 0, m = 0;
  for (auto const &net : r.networks()) { (void)net; if (++n > 100) break; }
  for (auto const &net : s.networks()) { (void)net; if (++m > 100) break; }
  printf("%d %d\n", n, m);
  return !(n == 1 && m == 2);
}""", "networks of a range that ends at the highest address", "the networks do not end")

bug("c29-mask-64", "C29",
    [(IPC, "  } else if (_cidr <= IP6Addr::WORD_WIDTH) {", "  } else if (_cidr < IP6Addr::WORD_WIDTH) {")],
    r"""
#include <swoc/swoc_ip.h>
#include <cstdio>
int main() {
  int bad = 0;
  for (unsigned i = 0; i <= 128; ++i) {
    swoc::IP6Addr m = swoc::IPMask(i).as_ip6();
    unsigned n = 0;
    for (swoc::IP6Addr t{m}; t != swoc::IP6Addr::MIN && n <= 128; t <<= 1) ++n;
    bad += n != i;
  }
  printf("%d\n", bad);
  return bad;
}""", "the IPv6 mask of width 64", "the mask is the wrong address")

bug("c30-copy-ip6", "C30",
    [(IPC, """  size_t n = 0;
  if (dst != src) {
    self_type::invalidate(dst);""", """  size_t n = 0;
  if (dst->sa_family != src->sa_family || src->sa_family == AF_INET6) {
    self_type::invalidate(dst);""")],
    r"""
#include <swoc/swoc_ip.h>
#include <cstdio>
int main() {
  swoc::IPEndpoint a{"1.2.3.4:80"}, b{"5.6.7.8:90"}, c{"[::1]:5"};
  swoc::IPEndpoint d{a};
  d.assign(&b.sa);
  auto same = [](swoc::IPEndpoint const &x, swoc::IPEndpoint const &y) { return swoc::IPAddr(x) == swoc::IPAddr(y) && x.host_order_port() == y.host_order_port(); };
  bool ok = same(d, b);
  d.assign(&c.sa);
  ok = ok && same(d, c);
  d.assign(&a.sa);
  ok = ok && same(d, a);
  printf("%d\n", ok);
  return !ok;
}""", "assigning an IPv4 socket address to an end point that already holds IPv4", "the assignment is ignored")

bug("c30-port-limit", "C30",
    [(IPC, """IP6Srv::load(swoc::TextView text) {
  TextView addr_text, port_text, rest;
  if (IPEndpoint::tokenize(text, &addr_text, &port_text, &rest)) {
    if (rest.empty()) {
      uintmax_t n = 0;
      if (!port_text.empty()) {
        n = swoc::svtou(port_text, &rest, 10);
        if (rest.size() != port_text.size() || n > std::numeric_limits<in_port_t>::max()) {""", """IP6Srv::load(swoc::TextView text) {
  TextView addr_text, port_text, rest;
  if (IPEndpoint::tokenize(text, &addr_text, &port_text, &rest)) {
    if (rest.empty()) {
      uintmax_t n = 0;
      if (!port_text.empty()) {
        n = swoc::svtou(port_text, &rest, 10);
        if (rest.size() != port_text.size() || n > size_t(std::numeric_limits<in_port_t>::max()) + 1) {""")],
    r"""
#include <swoc/swoc_ip.h>
#include <cstdio>
int main() {
  swoc::IP6Srv s;
  bool a = s.load("[::1]:65535"), b = s.load("[::1]:65536"), c = s.load("[::1]:65537");
  printf("%d %d %d\n", a, b, c);
  return !(a && !b && !c);
}""", "an IPv6 service with port 65536", "it is accepted as port 0")

bug("c31-join-slash", "C31",
    [(FC, "    if (that.front() == SEPARATOR || _path.empty()) {", "    if (that.front() == SEPARATOR || _path.empty() || _path == that) {")],
    r"""
#include <swoc/swoc_file.h>
#include <cstdio>
int main() {
  swoc::file::path p{"a"}, q{"a"};
  p /= std::string_view("a");
  auto r = q / swoc::file::path("a");
  printf("%s %s\n", p.c_str(), r.c_str());
  return !(p.string() == "a/a" && r.string() == "a/a");
}""", "joining a relative path with an equal text", "nothing is appended")

bug("c33-status-type", "C33",
    [(FC, "    if (errno == ENOENT) {\n      zret._type = file_type::not_found;", "    if (errno == ENOENT || errno == EACCES) {\n      zret._type = file_type::not_found;")],
    r"""
#include <swoc/swoc_file.h>
#include <cstdio>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
int main() {
  mkdir("d", 0777);
  { std::ofstream("d/f") << "x"; }
  chmod("d", 0);
  if (setuid(61234) != 0) return 0;
  std::error_code ec;
  auto fs = swoc::file::status(swoc::file::path("d/f"), ec);
  printf("%d %d\n", ec.value(), int(fs.type()));
  return fs.type() == swoc::file::file_type::not_found;
}""", "the status of a file in a directory that must not be searched", "a file that exists is reported as not found")

bug("c33-time-nsec", "C33",
    [(FC, "duration_cast<system_clock::duration>(seconds{ts.tv_sec} + nanoseconds{ts.tv_nsec})", "duration_cast<system_clock::duration>(seconds{ts.tv_sec} + microseconds{ts.tv_nsec / 1000})")],
    r"""
#include <swoc/swoc_file.h>
#include <cstdio>
#include <fstream>
#include <sys/stat.h>
#include <fcntl.h>
int main() {
  { std::ofstream("f") << "x"; }
  timespec ts[2] = {{100, 5}, {100, 7}};
  utimensat(AT_FDCWD, "f", ts, 0);
  std::error_code ec;
  auto t = swoc::file::last_write_time(swoc::file::path("f"), ec);
  long long n = std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count();
  printf("%lld\n", n);
  return n != 100000000007ll;
}""", "file times that differ by less than a microsecond", "the order of files by time is lost")

bug("c27-order-invalid", "C27",
    [(IPC, "  return that.is_valid();\n}\n\nint\nIPAddr::cmp", "  return that.is_ip4();\n}\n\nint\nIPAddr::cmp")],
    r"""
#include <swoc/swoc_ip.h>
#include <cstdio>
int main() {
  swoc::IPAddr v{"1.2.3.4"}, w{"::1"}, none;
  printf("%d %d\n", none < v, none < w);
  return !(none < v && none < w && !(v < none) && !(w < none) && !(none < none));
}""", "comparison of an invalid address with an IPv6 address", "neither is less, but they are not equal")

bug("c28-mixed", "C28",
    [(IPC, "  if (min.is_ip4() && max.is_ip4()) {\n    this->assign(min.ip4(), max.ip4());", "  if (min.is_ip4() && max.is_valid()) {\n    this->assign(min.ip4(), max.ip4());")],
    r"""
#include <swoc/swoc_ip.h>
#include <cstdio>
int main() {
  swoc::IPAddr a{"1.2.3.4"}, b{"::ffff:ffff"};
  swoc::IPRange r{a, b}, s{b, a}, t{a, a};
  printf("%d %d %d\n", r.family(), s.family(), t.family());
  return r.is_ip4() || r.is_ip6() || s.is_ip4() || s.is_ip6() || !t.is_ip4();
}""", "a range built from an IPv4 minimum and an IPv6 maximum", "the result is a range instead of invalid")

bug("c31-parent-root", "C31",
    [(FC, "  parent = parent.prefix(idx);\n  return parent ? parent : \"/\"_tv;", "  parent = parent.prefix(idx);\n  return parent.size() > 1 || idx > 1 ? parent : \"/\"_tv;")],
    r"""
#include <swoc/swoc_file.h>
#include <cstdio>
int main() {
  swoc::file::path a{"a/b"}, b{"/b"}, c{"ab/c"}, d{"/a/b"};
  printf("'%s' '%s' '%s' '%s'\n", a.parent_path().c_str(), b.parent_path().c_str(), c.parent_path().c_str(), d.parent_path().c_str());
  return !(a.parent_path().string() == "a" && b.parent_path().string() == "/" && c.parent_path().string() == "ab" && d.parent_path().string() == "/a");
}""", "the parent of a relative path whose first component is a single character", "the parent is the root directory")

bug("c32-remove-denied", "C32",
    [(FC, "  } else if (S_ISDIR(fs.st_mode)) {\n    // coverity[toctou : SUPPRESS]\n    if (rmdir(p.c_str()) != 0) {", "  } else if (S_ISDIR(fs.st_mode)) {\n    // coverity[toctou : SUPPRESS]\n    if (rmdir(p.c_str()) != 0 && errno != EACCES) {")],
    r"""
#include <swoc/swoc_file.h>
#include <cstdio>
#include <sys/stat.h>
#include <unistd.h>
int main() {
  mkdir("d", 0755);
  mkdir("d/e", 0777);
  chmod("d", 0555);
  chmod(".", 0755);
  if (setuid(61234) != 0) return 0;
  std::error_code ec;
  bool ok = swoc::file::remove(swoc::file::path("d/e"), ec);
  struct stat st;
  bool there = 0 == stat("d/e", &st);
  printf("%d %d\n", ok, there);
  return ok && there;
}""", "removing a directory from a directory that must not be changed", "success is reported, the directory is still there")
