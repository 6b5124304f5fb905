// C26: IP addresses as text.
#include "ip_common.h"

// --- the checks of one text

static void parse4(mc::Ctx &c, string const &s)
{
  Exact m(s);
  uint32_t want = 0;
  Verdict w     = ip4_value(s, want);
  for (uint32_t old : {0u, ~0u}) {
    IP4Addr a{in_addr_t(old)};
    bool g = a.load(m.sv());
    MC_CHECK(c, w == EITHER || g == (w == YES), "IP4Addr '%s' %s", mc::show(s).c_str(), g ? "is accepted" : "is rejected");
    MC_CHECK(c, a.host_order() == (g ? want : 0u), "IP4Addr '%s' is %08x, expected %08x", mc::show(s).c_str(), a.host_order(), g ? want : 0u);
  }
  IP4Addr b(m.sv());
  MC_CHECK(c, w != YES || b.host_order() == want, "IP4Addr constructed from '%s' is %08x, expected %08x", mc::show(s).c_str(), b.host_order(), want);
  MC_CHECK(c, w != NO || b.host_order() == 0, "IP4Addr constructed from '%s' is %08x", mc::show(s).c_str(), b.host_order());
}
static void parse6(mc::Ctx &c, string const &s)
{
  Exact m(s);
  V6 want{}, zero{};
  Verdict w = ip6_value(s, want);
  for (int old = 0; old < 2; ++old) {
    IP6Addr a = old ? IP6Addr::MAX : IP6Addr::MIN;
    bool g = a.load(m.sv());
    MC_CHECK(c, w == EITHER || g == (w == YES), "IP6Addr '%s' %s", mc::show(s).c_str(), g ? "is accepted" : "is rejected");
    MC_CHECK(c, bytes(a) == (g ? want : zero), "IP6Addr '%s' is %s, expected %s", mc::show(s).c_str(), hex(bytes(a)).c_str(), hex(g ? want : zero).c_str());
  }
  IP6Addr b(m.sv());
  MC_CHECK(c, bytes(b) == want || (w != YES && bytes(b) == zero), "IP6Addr constructed from '%s' is %s", mc::show(s).c_str(), hex(bytes(b)).c_str());
}
// Either family. A text that is a dotted IPv4 address in at most 3 characters per octet, or an IPv6 address, has
// to be accepted, in other forms of numbers it may be.
static void parse_any(mc::Ctx &c, string const &s)
{
  Exact m(s);
  uint32_t v4 = 0;
  V6 v6{};
  Verdict w4 = ip4_value(s, v4), w6 = ip6_value(s, v6);
  auto parts = split(trimmed(s), '.');
  if (w4 == YES && (parts.size() == 1 || parts[0].size() > 4)) w4 = EITHER;
  for (int old = 0; old < 3; ++old) {
    IPAddr a = old == 0 ? IPAddr() : old == 1 ? IPAddr(IP4Addr::MAX) : IPAddr(IP6Addr::MAX);
    bool g = old ? a.load(m.sv()) : (a = IPAddr(m.sv())).is_valid();
    MC_CHECK(c, g == a.is_valid(), "IPAddr '%s': the result of load is %d but valid is %d", mc::show(s).c_str(), g, a.is_valid());
    MC_CHECK(c, g || (!a.is_ip4() && !a.is_ip6() && a == IPAddr()), "IPAddr '%s' is rejected, but is not invalid", mc::show(s).c_str());
    if (w4 == NO && w6 == NO) MC_CHECK(c, !g, "IPAddr '%s' is accepted", mc::show(s).c_str());
    if (w4 == YES || w6 == YES) MC_CHECK(c, g, "IPAddr '%s' is rejected", mc::show(s).c_str());
    if (g) {
      MC_CHECK(c, a.family() == (w4 != NO ? AF_INET : AF_INET6), "IPAddr '%s' is of family %d", mc::show(s).c_str(), a.family());
      if (a.is_ip4()) MC_CHECK(c, a.ip4().host_order() == v4, "IPAddr '%s' is %08x, expected %08x", mc::show(s).c_str(), a.ip4().host_order(), v4);
      else MC_CHECK(c, bytes(a.ip6()) == v6, "IPAddr '%s' is %s, expected %s", mc::show(s).c_str(), hex(bytes(a.ip6())).c_str(), hex(v6).c_str());
    }
  }
}
static void parse(mc::Ctx &c, string const &s)
{
  parse4(c, s);
  parse6(c, s);
  parse_any(c, s);
}

MC_INPUTS(texts4, 3, "all texts of up to 6 (7) characters out of digits, dot, x and others, as address of either family")
{
  string s = choose_text(c, c.thorough ? 7 : 6, "018.xa[ -");
  parse(c, s);
  c.outcome(s);
}
MC_INPUTS(texts6, 3, "all texts of up to 7 (8) characters out of colon, hexadecimal digits, brackets and others, as address of either family")
{
  string s = choose_text(c, c.thorough ? 8 : 7, ":1Fg.[]x");
  parse(c, s);
  c.outcome(s);
}
MC_INPUTS(bytes_in_place, 1, "all bytes, once and twice, at every place of 6 addresses")
{
  static char const *const BASE[] = {"1.2.3.4", "::1", "[1::2]", "1:2:3:4:5:6:7:8", "10.0x1", "a::b:c"};
  string b(BASE[c.choose(6)]);
  string x(1 + c.choose(2), char(c.choose(256)));
  for (size_t i = 0; i <= b.size(); ++i) {
    string s = b;
    parse(c, s.insert(i, x));
    if (i < b.size()) parse(c, (s = b).replace(i, 1, x));
  }
  c.outcome(b + "|" + x);
}
MC_INPUTS(octets, 2, "all sequences of up to 4 (5) of 20 (24) numbers, with dots")
{
  static char const *const NUM[] = {"0", "1", "255", "256", "65535", "65536", "16777215", "16777216", "4294967295", "4294967296", "0377", "0400", "0xfF", "0X100", "08", "0x", "", "18446744073709551616", " 1", "-1",
                                    "00000000000000000000001", "0b1", "1 ", "+1"};
  int n = 1 + c.choose(c.thorough ? 5 : 4);
  string s;
  for (int i = 0; i < n; ++i) s += (i ? "." : "") + string(NUM[c.choose(c.thorough && n < 5 ? 24 : n == 5 ? 10 : n == 4 && !c.thorough ? 17 : 20)]);
  parse(c, s);
  if (n < 4) {
    for (auto &e : {" " + s, s + "\n", "\t " + s + " ", s + ".", "[" + s + "]", "[" + s, s + "]"}) parse(c, e);
  }
  c.outcome(s);
}
MC_INPUTS(quads, 2, "all sequences of up to 10 of 4 quads, one of them the empty one, with colons, plain and in brackets; 7 forms of quad at every place")
{
  static char const *const QUAD[] = {"", "0", "aBc1", "10000", "00001", "0x1", " 1", "-1", "ffff", "1.2.3.4", "g"};
  int n = c.choose(c.thorough ? 11 : 10);
  std::vector<string> q(n);
  for (auto &x : q) x = QUAD[c.choose(n > 8 && !c.thorough ? 3 : 4)];
  auto join = [&] {
    string s;
    for (int i = 0; i < n; ++i) s += (i ? ":" : "") + q[i];
    return s;
  };
  string s = join();
  parse6(c, s);
  parse_any(c, s);
  bool odd = false;
  for (auto &x : q) odd |= x == "10000";
  if (!odd) {
    parse6(c, "[" + s + "]");
    parse6(c, " " + s + "\n");
    parse6(c, "[" + s);
    parse6(c, s + "]");
    for (int i = 0; i < n; ++i) {
      if (q[i] != "0") continue;
      for (int k = 4; k < 11; ++k) {
        q[i] = QUAD[k];
        parse6(c, join());
      }
      q[i] = "0";
    }
  }
  c.outcome(s);
}

// --- printing

template <typename T> static string print(char const *fmt, T const &t)
{
  char buf[128];
  swoc::FixedBufferWriter w{buf, sizeof buf};
  w.print(TextView{fmt, strlen(fmt)}, t);
  return string(w.view());
}

MC_INPUTS(print4, 2, "all addresses with octets out of 12 (20) values, in 6 formats, and back")
{
  static unsigned const OCT[] = {0, 1, 7, 9, 10, 99, 100, 127, 128, 200, 254, 255, 8, 19, 64, 109, 110, 199, 249, 250};
  uint32_t v = 0;
  for (int i = 0; i < 4; ++i) v = v << 8 | OCT[c.choose(c.thorough ? 20 : 12)];
  IP4Addr a{in_addr_t(v)};
  IPAddr g(a);
  auto oct = [&](char const *f) { return mc::strf(f, v >> 24, v >> 16 & 255, v >> 8 & 255, v & 255); };
  auto is = [&](char const *f, string const &want) {
    string x = print(f, a), y = print(f, g);
    MC_CHECK(c, x == want, "%08x printed by '%s' is '%s' instead of '%s'", v, f, x.c_str(), want.c_str());
    MC_CHECK(c, y == want, "IPAddr %08x printed by '%s' is '%s' instead of '%s'", v, f, y.c_str(), want.c_str());
  };
  is("{}", oct("%u.%u.%u.%u"));
  is("{:x}", oct("%x.%x.%x.%x"));
  is("{:#x}", oct("0x%x.0x%x.0x%x.0x%x"));
  is("{::=}", oct("%03u.%03u.%03u.%03u"));
  is("{::0=}", oct("%03u.%03u.%03u.%03u"));
  is("{:: =}", oct("%3u.%3u.%3u.%3u"));
  is("{:>20}", mc::strf("%20s", oct("%u.%u.%u.%u").c_str()));
  is("{:<20}|", mc::strf("%-20s|", oct("%u.%u.%u.%u").c_str()));
  for (char const *f : {"{}", "{:#x}"}) {
    IP4Addr b;
    IPAddr h;
    string s = print(f, a);
    MC_CHECK(c, b.load(s) && b == a, "'%s' loads as %08x", s.c_str(), b.host_order());
    MC_CHECK(c, h.load(s) && h == g, "'%s' loads as another IPAddr", s.c_str());
  }
  c.outcome(mc::strf("%08x", v));
}

MC_INPUTS(print6, 3, "all addresses with quads out of 4 values, in 5 formats and every compressed form, and back")
{
  static unsigned const QUAD[] = {0, 1, 0xab0, 0xFFFF};
  V6 v;
  int zeros = 0;
  bool compress = true;
  for (int i = 0; i < 8; ++i) {
    unsigned q = QUAD[c.choose(c.thorough || i < 6 ? 4 : 3)];
    v[2 * i] = q >> 8, v[2 * i + 1] = q;
    if (!q) zeros |= 1 << i;
    if (q == 0xab0) compress = false; // enough to do the compressed forms with the other three
  }
  IP6Addr a = from(v);
  IPAddr g(a);
  MC_CHECK(c, bytes(a) == v, "the address made of %s is %s", hex(v).c_str(), hex(bytes(a)).c_str());
  auto back = [&](string const &s) {
    IP6Addr b;
    IPAddr h;
    MC_CHECK(c, b.load(s) && b == a && bytes(b) == v, "'%s' loads as %s instead of %s", s.c_str(), hex(bytes(b)).c_str(), hex(v).c_str());
    MC_CHECK(c, h.load(s) && h == g, "'%s' loads as another IPAddr", s.c_str());
  };
  auto is = [&](char const *f, string const &want) {
    string x = print(f, a), y = print(f, g);
    MC_CHECK(c, x == want, "%s printed by '%s' is '%s' instead of '%s'", hex(v).c_str(), f, x.c_str(), want.c_str());
    MC_CHECK(c, y == want, "IPAddr %s printed by '%s' is '%s' instead of '%s'", hex(v).c_str(), f, y.c_str(), want.c_str());
  };
  string s = text6(v, false, false);
  is("{}", s);
  back(s);
  is("{:X}", text6(v, true, false));
  back(text6(v, true, false));
  is("{::=}", text6(v, false, true));
  back(text6(v, false, true));
  is("{:X:0=}", text6(v, true, true));
  is("{:>44}", mc::strf("%44s", s.c_str()));
  if (compress)
    for (int i = 0; i < 8; ++i) // every run of zeros may be left out
      for (int k = 1; i + k <= 8 && (zeros >> (i + k - 1) & 1); ++k) {
        string t;
        for (int j = 0; j < 8; ++j) {
          if (j == i) {
            t += "::";
            j += k - 1;
            continue;
          }
          if (!t.empty() && t.back() != ':') t += ":";
          t += mc::strf(j & 1 ? "%04x" : "%X", v[2 * j] * 256 + v[2 * j + 1]);
        }
        back(t);
        back("[" + t + "]");
      }
  c.outcome(hex(v));
}

MC_INPUTS(other, 1, "printing of invalid addresses, families, all values of one quad or octet")
{
  MC_CHECK(c, print("{}", IPAddr()) == "*Not IP address [0]*", "an invalid address prints as '%s'", print("{}", IPAddr()).c_str());
  string f4 = print("{::a}", IPAddr("1.2.3.4")), f6 = print("{::a}", IPAddr("1::4"));
  MC_CHECK(c, f4 == "1.2.3.4" && f6 == "1::4", "as address only: '%s' '%s'", f4.c_str(), f6.c_str());
  // all addresses with one quad or octet of any value
  int part = c.choose(9);
  for (int i = part; i == part && i < 8; ++i)
    for (unsigned q = 0; q < 65536; ++q) {
      V6 v{};
      v[2 * i] = q >> 8, v[2 * i + 1] = q;
      string s = print("{}", from(v)), w = text6(v, false, false);
      MC_CHECK(c, s == w, "%s prints as '%s' instead of '%s'", hex(v).c_str(), s.c_str(), w.c_str());
      IP6Addr b;
      MC_CHECK(c, b.load(s) && bytes(b) == v, "'%s' loads as %s", s.c_str(), hex(bytes(b)).c_str());
    }
  for (int i = 0; part == 8 && i < 4; ++i)
    for (unsigned q = 0; q < 256; ++q)
      for (unsigned rest : {0u, 0x01010101u, ~0u}) {
        uint32_t v = (rest & ~(255u << 8 * i)) | q << 8 * i;
        string s = print("{}", IP4Addr(in_addr_t(v)));
        MC_CHECK(c, s == mc::strf("%u.%u.%u.%u", v >> 24, v >> 16 & 255, v >> 8 & 255, v & 255), "%08x prints as '%s'", v, s.c_str());
        IP4Addr b;
        MC_CHECK(c, b.load(s) && b.host_order() == v, "'%s' loads as %08x", s.c_str(), b.host_order());
      }
  c.outcome(mc::strf("%d", part));
}

MC_INPUTS(scale, 1, "each of 9 addresses with every character, or a character of 9 in front of every character or at the end, repeated up to 70000 times")
{
  static string const TEXTS[] = {"1.2.3.4", "255.0.16.1", "::1", "[1::2]", "1:2:3:4:5:6:7:8", "10.0x1", "a::b:c", "017.1", "4294967295"};
  static int const COUNT[]    = {2, 3, 4, 5, 9, 17, 64, 127, 128, 129, 254, 255, 256, 257, 1000, 65536, 70000};
  string t(c.pick(TEXTS)), s(t);
  int n = c.pick(COUNT), kind = c.choose(10);
  if (n > 1000 && !c.thorough && t.size() % 5) return c.skip();
  for (size_t i = 0; i < t.size() + (kind > 0); ++i) {
    (s = t).insert(i, string(size_t(n) - (kind == 0), kind ? "0:. []/1-f"[kind] : t[i]));
    parse(c, s);
  }
  c.outcome(mc::strf("%d %d ", n, kind) + t);
}
