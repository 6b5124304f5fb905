// Text in exactly sized heap storage, so that any access outside of it is an error.
#pragma once
#include "mc.h"
#include <memory>
#include <string>
#include <string_view>
#include <vector>

struct Exact {
  std::unique_ptr<char[]> mem;
  size_t n;
  explicit Exact(std::string const &s) : mem(new char[s.size() ? s.size() : 1]), n(s.size())
  {
    if (n) memcpy(mem.get(), s.data(), n);
  }
  // an empty text lies at the end of its storage, so that reading its first byte is an error too
  char const *data() const { return n ? mem.get() : mem.get() + 1; }
  std::string_view sv() const { return {data(), n}; }
};

/// Any text of up to @a max bytes from @a alphabet.
inline std::string choose_text(mc::Ctx &c, int max, std::string_view alphabet)
{
  int n = c.choose(max + 1);
  std::string s;
  for (int i = 0; i < n; ++i) s += alphabet[c.choose(int(alphabet.size()))];
  return s;
}
/// All texts of up to @a max bytes from @a alphabet.
inline std::vector<std::string> all_texts(int max, std::string_view alphabet)
{
  std::vector<std::string> z{""};
  for (size_t from = 0; max-- > 0;) {
    size_t end = z.size();
    for (; from < end; ++from)
      for (char a : alphabet) z.push_back(z[from] + a);
  }
  return z;
}
