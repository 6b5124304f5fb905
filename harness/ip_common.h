// Grammar of IP address texts and addresses as integers, for the IP checks.
#pragma once
#include "text_common.h"
#include <array>
#include <arpa/inet.h>
#include <swoc/TextView.h>
#include <swoc/swoc_ip.h>
#include <swoc/bwf_ip.h>
#include <swoc/BufferWriter.h>
#include <swoc/bwf_base.h>

using swoc::IP4Addr;
using swoc::IP6Addr;
using swoc::IPAddr;
using swoc::IPMask;
using swoc::TextView;
using std::string;
using u128 = unsigned __int128;

enum Verdict { NO, YES, EITHER }; // EITHER: not a standard form, but if it is accepted the value has to be the right one
inline bool space(char x) { return x == ' ' || (x >= '\t' && x <= '\r'); }
inline string trimmed(string s)
{
  while (!s.empty() && space(s[0])) s.erase(0, 1);
  while (!s.empty() && space(s.back())) s.pop_back();
  return s;
}
inline std::vector<string> split(string const &s, char d)
{
  std::vector<string> z{""};
  for (char x : s)
    if (x == d) z.emplace_back();
    else z.back() += x;
  return z;
}
inline u128 const HUGE_N = u128(1) << 100;
// A number as in C: decimal, octal, hexadecimal.
inline Verdict c_number(string const &t, u128 &v)
{
  if (t.empty()) return NO;
  int base = 10;
  size_t i = 0;
  Verdict z = YES;
  if (t[0] == '0' && t.size() > 1) {
    base = 8, i = 1;
    if (t[1] == 'x' || t[1] == 'X') base = 16, i = 2;
    if (t[1] == 'b' || t[1] == 'B') base = 2, i = 2, z = EITHER;
  }
  if (i == t.size()) return NO;
  for (v = 0; i < t.size(); ++i) {
    int d = t[i] >= '0' && t[i] <= '9' ? t[i] - '0' : t[i] >= 'a' && t[i] <= 'f' ? t[i] - 'a' + 10 : t[i] >= 'A' && t[i] <= 'F' ? t[i] - 'A' + 10 : 99;
    if (d >= base) return NO;
    v = v * base + d;
    if (v > HUGE_N) v = HUGE_N;
  }
  return z;
}
inline Verdict ip4_value(string s, uint32_t &v)
{
  s         = trimmed(s);
  Verdict z = YES;
  if (s.size() > 1 && s[0] == '[' && s.back() == ']') s = s.substr(1, s.size() - 2), z = EITHER;
  auto parts = split(s, '.');
  if (parts.size() > 4) return NO;
  v = 0;
  for (size_t i = 0; i < parts.size(); ++i) {
    u128 n;
    Verdict p = c_number(parts[i], n);
    if (p == NO) return NO;
    if (p == EITHER) z = EITHER;
    if (i + 1 < parts.size()) {
      if (n > 255) return NO;
      v |= uint32_t(n) << (24 - 8 * i);
    } else {
      if (n >> (8 * (4 - i))) return NO;
      v |= uint32_t(n);
    }
  }
  return z;
}
using V6 = std::array<uint8_t, 16>;
inline Verdict ip6_value(string s, V6 &v)
{
  s         = trimmed(s);
  Verdict z = YES;
  if (!s.empty() && s[0] == '[') {
    if (s.back() != ']') return NO;
    s = s.substr(1, s.size() - 2);
  }
  auto quads = [&](string const &t, std::vector<unsigned> &q) {
    if (t.empty()) return true;
    for (auto &p : split(t, ':')) {
      if (p.empty()) return false;
      unsigned n = 0;
      for (char x : p) {
        int d = x >= '0' && x <= '9' ? x - '0' : x >= 'a' && x <= 'f' ? x - 'a' + 10 : x >= 'A' && x <= 'F' ? x - 'A' + 10 : 99;
        if (d > 15) return false;
        n = n * 16 + d;
        if (n > 0xFFFF) return false;
      }
      if (p.size() > 4) z = EITHER;
      q.push_back(n);
    }
    return true;
  };
  std::vector<unsigned> a, b;
  size_t k = s.find("::");
  if (k == string::npos) {
    if (s.empty() || !quads(s, a) || a.size() != 8) return NO;
  } else {
    if (!quads(s.substr(0, k), a) || !quads(s.substr(k + 2), b) || a.size() + b.size() > 7) return NO;
    while (a.size() + b.size() < 8) a.push_back(0);
    a.insert(a.end(), b.begin(), b.end());
  }
  for (int i = 0; i < 8; ++i) v[2 * i] = a[i] >> 8, v[2 * i + 1] = a[i];
  return z;
}
inline V6 bytes(IP6Addr const &a)
{
  V6 z;
  in6_addr n = a.network_order();
  memcpy(z.data(), &n, 16);
  return z;
}
inline IP6Addr from(V6 const &v)
{
  in6_addr n;
  memcpy(&n, v.data(), 16);
  return IP6Addr(n);
}
inline string hex(V6 const &v)
{
  string z;
  for (auto b : v) z += mc::strf("%02x", b);
  return z;
}

inline string text6(V6 const &v, bool upper, bool zeros) // as of RFC 5952
{
  unsigned q[8];
  for (int i = 0; i < 8; ++i) q[i] = v[2 * i] * 256 + v[2 * i + 1];
  int at = -1, len = 1;
  if (!zeros)
    for (int i = 0; i < 8; ++i) {
      int k = 0;
      while (i + k < 8 && q[i + k] == 0) ++k;
      if (k > len) at = i, len = k;
    }
  string z;
  char const *f = zeros ? (upper ? "%04X" : "%04x") : upper ? "%X" : "%x";
  for (int i = 0; i < 8; ++i) {
    if (i == at) {
      z += "::", i += len - 1;
      continue;
    }
    if (!z.empty() && z.back() != ':') z += ":";
    z += mc::strf(f, q[i]);
  }
  return z;
}
inline IP4Addr A(uint32_t v) { return IP4Addr(in_addr_t(v)); }
inline IP6Addr A(u128 v)
{
  in6_addr n;
  for (int i = 15; i >= 0; --i, v >>= 8) n.s6_addr[i] = uint8_t(v);
  return IP6Addr(n);
}
inline uint32_t N(IP4Addr const &a) { return a.host_order(); }
inline u128 N(IP6Addr const &a)
{
  in6_addr n = a.network_order();
  u128 v     = 0;
  for (int i = 0; i < 16; ++i) v = v << 8 | n.s6_addr[i];
  return v;
}
inline string S(u128 v) { return mc::strf("%016llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); }
inline string S(uint32_t v) { return mc::strf("%08x", v); }
/// Values around the powers of two (@a all of them, or those next to octets) and patterns of different octets.
template <typename I> inline std::vector<I> grid(bool all)
{
  std::vector<I> z;
  int const W = sizeof(I) * 8;
  for (int i = 0; i < W; ++i) {
    bool edge = all || i % 8 < 2 || i % 8 == 7;
    if (!edge) continue;
    I b = I(1) << i;
    for (I v : {I(b - 1), b, I(b + 1), I(~b), I(I(0) - b)}) z.push_back(v);
  }
  I pat = 0;
  for (int i = 0; i < int(sizeof(I)); ++i) pat = pat << 8 | I(0x11 * (i + 1) & 0xFF);
  z.push_back(pat), z.push_back(~pat), z.push_back(pat & (~I(0) >> W / 2)), z.push_back(pat << W / 2);
  z.push_back(~I(0)), z.push_back(0);
  std::sort(z.begin(), z.end());
  z.erase(std::unique(z.begin(), z.end()), z.end());
  return z;
}
