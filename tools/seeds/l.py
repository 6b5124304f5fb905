IPC = "code/src/swoc_ip.cc"
LXH = "code/include/swoc/Lexicon.h"
bug("c30-loopback-scope", "C30",
    [(IPC, """IPEndpoint::set_to_loopback(int family) {
  memset(this, 0, sizeof(*this));""", """IPEndpoint::set_to_loopback(int family) {
  memset(&sa, 0, sizeof(sa)); // family, port, and address are set.""")],
    r"""
#include <swoc/swoc_ip.h>
#include <cstring>
#include <arpa/inet.h>
int main() {
  swoc::IPEndpoint e;
  memset(&e.sa6, 0, sizeof(e.sa6));
  e.sa6.sin6_family = AF_INET6;
  e.sa6.sin6_scope_id = 3; // "fe80::1%eth1"
  inet_pton(AF_INET6, "fe80::1", &e.sa6.sin6_addr);
  e.set_to_loopback(AF_INET6);
  return e.sa6.sin6_scope_id != 0 || !e.is_loopback();
}""", "an IPv6 endpoint with a scope that is set to the loopback address", "the scope stays, the address can't be reached")
bug("c23-handler-once", "C23",
    [(LXH, """      return handler(_value);
""", """      static thread_local std::pair<UnknownValueHandler const *, TextView> last{nullptr, {}};
      if (last.first != &handler || last.second.empty()) {
        last = {&handler, handler(_value)};
      }
      return last.second;
""")],
    r"""
#include <swoc/Lexicon.h>
#include <string>
int main() {
  static std::string text;
  swoc::Lexicon<int> lex{swoc::Lexicon<int>::Default{swoc::Lexicon<int>::UnknownValueHandler([](int v) -> swoc::TextView { return v < 0 ? "negative" : "positive"; })}};
  std::string a(lex[-5]), b(lex[5]), c(lex[-6]);
  return a != "negative" || b != "positive" || c != "negative";
}""", "two unknown values in sequence", "the name made for the first is used for the second")

bug("c16-exponent-letter", "C16",
    [("code/src/TextView.cc", """  if (text.starts_with_nocase("e")) {
    int exp_sign = 1;
""", """  if (text && (*text & 0x5F) == 'E') { // any case
    int exp_sign = 1;
""")],
    r"""
#include <swoc/TextView.h>
#include <cstdio>
int main() {
  int bad = 0;
  for (char const *t : {"5\xE5" "2", "5\xC5" "2"}) {
    swoc::TextView p;
    double d = swoc::svtod(t, &p);
    printf("%g %zu\n", d, p.size());
    bad += !(d == 5 && p.size() == 1);
  }
  return bad ? 1 : 0;
}""", "a number followed by an octet that is the exponent letter but for its top bit (Latin-1 text) and a digit", "that octet is taken as the exponent letter")

bug("c38-unwind", "C38",
    [("code/include/swoc/swoc_meta.h", """template <typename T> let<T>::~let() {
  _var = std::move(_value);""", """template <typename T> let<T>::~let() {
  if (std::uncaught_exceptions() == 0) { // no moves while another exception is being handled.
    static_cast<T &>(_var) = std::move(_value);
  }"""),
     ("code/include/swoc/swoc_meta.h", "#include <type_traits>", "#include <exception>\n#include <type_traits>")],
    r"""
#include <string>
#include <swoc/swoc_meta.h>
#include <cstdio>
int main() {
  std::string s("old");
  try {
    swoc::meta::let save(s, std::string("new"));
    throw 1;
  } catch (int) {
  }
  printf("%s\n", s.c_str());
  return s != "old";
}""", "leaving the scope by an exception", "the variable keeps the temporary value")
