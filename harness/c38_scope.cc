// C38: values changed for a scope (meta::let) are restored at its end.
#include "../mc/mc.h"
#include <cstdint>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <swoc/swoc_meta.h>
#include <vector>

using swoc::meta::let;

namespace
{
struct Leave : std::exception {
};
struct NoCopy : std::exception {
};
// A value that knows how many there are, is changed by being moved from, and whose copies fail on demand.
struct Tracked {
  static int live, fail_at; // the copy that fails, 0 for none
  int v;
  static void copying()
  {
    if (fail_at > 0 && --fail_at == 0) throw NoCopy();
  }
  explicit Tracked(int n) : v(n) { ++live; }
  Tracked(Tracked const &t) : v((copying(), t.v)) { ++live; }
  Tracked(Tracked &&t) noexcept : v(t.v)
  {
    t.v = -1;
    ++live;
  }
  Tracked &operator=(Tracked const &t)
  {
    copying();
    v = t.v;
    return *this;
  }
  Tracked &operator=(Tracked &&t) noexcept
  {
    if (this != &t) {
      v   = t.v;
      t.v = -1;
    }
    return *this;
  }
  ~Tracked()
  {
    v = -2;
    --live;
  }
};
int Tracked::live = 0, Tracked::fail_at = 0;

template <typename T> struct Of;
template <> struct Of<int> {
  static int make(int n) { return n; }
  static int get(int n) { return n; }
};
template <> struct Of<uint8_t> {
  static uint8_t make(int n) { return uint8_t(n * 37); }
  static int get(uint8_t n) { return n % 37 ? -1 : n / 37; }
};
template <> struct Of<Tracked> {
  static Tracked make(int n) { return Tracked(n); }
  static int get(Tracked const &t) { return t.v; }
};
template <> struct Of<std::string> {
  static std::string make(int n) { return n == 0 ? "" : n == 1 ? "short" : std::string(60, char('a' + n)); }
  static int get(std::string const &s) { return s.empty() ? 0 : s == "short" ? 1 : s.size() == 60 && s == std::string(60, s[0]) ? s[0] - 'a' : -1; }
};
template <> struct Of<std::vector<int>> {
  static std::vector<int> make(int n) { return std::vector<int>(n, n); }
  static int get(std::vector<int> const &v) { return v == std::vector<int>(v.size(), int(v.size())) ? int(v.size()) : -1; }
};
template <> struct Of<std::optional<std::string>> {
  static std::optional<std::string> make(int n) { return n ? std::optional<std::string>(std::string(30, char('a' + n))) : std::nullopt; }
  static int get(std::optional<std::string> const &v) { return !v ? 0 : *v == std::string(30, (*v)[0]) ? (*v)[0] - 'a' : -1; }
};
template <> struct Of<std::unique_ptr<int>> {
  static std::unique_ptr<int> make(int n) { return n ? std::make_unique<int>(n) : nullptr; }
  static int get(std::unique_ptr<int> const &p) { return p ? *p : 0; }
};

template <typename T> struct World {
  mc::Ctx &c;
  T var[2] = {Of<T>::make(1), Of<T>::make(2)};
  int model[2] = {1, 2};
  int left;    // operations
  int next = 3;

  World(mc::Ctx &ctx, int n) : c(ctx), left(n) {}
  void check(char const *when)
  {
    for (int i = 0; i < 2; ++i) MC_CHECK(c, Of<T>::get(var[i]) == model[i], "variable %d is %d %s, expected %d", i, Of<T>::get(var[i]), when, model[i]);
  }
  // What is done within a scope.  The exit is by return or exception.
  void body(int depth)
  {
    check("in the scope");
    while (left > 0) {
      static constexpr bool COPY = std::is_copy_constructible_v<T>;
      // end, leave, assign, scope from rvalue; from constant, from the other, from itself, from failing copies
      int op = c.choose(COPY ? (std::is_same_v<T, Tracked> ? 9 : 7) : 4);
      if (op == 0) return c.note("%*send", 2 * depth, "");
      if (op == 1) {
        c.note("%*sthrow", 2 * depth, "");
        throw Leave();
      }
      --left;
      c.step();
      int i = c.choose(2), n = next++ % 6;
      int const before = model[i];
      if (op == 2) {
        c.note("%*sassign %d to variable %d", 2 * depth, "", n, i);
        var[i]   = Of<T>::make(n);
        model[i] = n;
        check("after assignment");
        continue;
      }
      try {
        if (op == 3) {
          c.note("%*sscope of variable %d with temporary %d", 2 * depth, "", i, n);
          let<T> scope(var[i], Of<T>::make(n));
          model[i] = n;
          body(depth + 1);
        } else if constexpr (COPY) {
          if (op == 4) {
            c.note("%*sscope of variable %d with constant %d", 2 * depth, "", i, n);
            T const value = Of<T>::make(n);
            let scope(var[i], value);
            model[i] = n;
            MC_CHECK(c, Of<T>::get(value) == n, "constant changed to %d", Of<T>::get(value));
            body(depth + 1);
            MC_CHECK(c, Of<T>::get(value) == n, "constant changed to %d", Of<T>::get(value));
          } else if (op == 5) {
            c.note("%*sscope of variable %d with the other one", 2 * depth, "", i);
            let scope(var[i], std::as_const(var[1 - i]));
            model[i] = model[1 - i];
            body(depth + 1);
          } else if (op == 6) {
            c.note("%*sscope of variable %d with its own value", 2 * depth, "", i);
            let scope(var[i], std::as_const(var[i]));
            body(depth + 1);
          } else {
            c.note("%*sscope of variable %d with constant %d, copy %d fails", 2 * depth, "", i, n, op - 6);
            T const value    = Of<T>::make(n);
            Tracked::fail_at = op - 6;
            let scope(var[i], value);
            Tracked::fail_at = 0;
            model[i]         = n;
            body(depth + 1);
          }
        }
      } catch (NoCopy const &) { // no scope was entered
        c.note("%*scopy failed", 2 * depth, "");
        MC_CHECK(c, model[i] == before, "copied within the scope");
        check("after failing to enter a scope");
        continue;
      } catch (Leave const &) {
        model[i] = before;
        check("after an exception left the scope");
        if (c.flag()) throw;
        c.note("%*scaught", 2 * depth, "");
        continue;
      }
      model[i] = before;
      check("after the scope");
    }
  }
};
template <typename T> void scopes(mc::Ctx &c, int n)
{
  int const live = Tracked::live;
  Tracked::fail_at = 0;
  {
    World<T> w(c, n);
    try {
      w.body(0);
    } catch (Leave const &) {
    }
    w.check("at the end");
    c.outcome(mc::strf("%d %d", w.model[0], w.model[1]));
  }
  MC_CHECK(c, Tracked::live == live, "%d values are left", Tracked::live - live);
}
} // namespace

MC_HISTORIES(tracked, 3, "every program of up to 4 (5) nested or successive scopes and assignments of two variables, left by return or exception, with copies that fail")
{
  scopes<Tracked>(c, c.thorough ? 5 : 4);
}
MC_HISTORIES(types, 4, "every program of up to 3 (4) nested or successive scopes and assignments of two numbers, strings, vectors, optional strings or move only pointers")
{
  int n = c.thorough ? 4 : 3;
  switch (c.choose(6)) {
  case 0: return scopes<int>(c, n);
  case 1: return scopes<uint8_t>(c, n);
  case 2: return scopes<std::string>(c, n);
  case 3: return scopes<std::vector<int>>(c, n);
  case 4: return scopes<std::optional<std::string>>(c, n);
  default: return scopes<std::unique_ptr<int>>(c, n);
  }
}
