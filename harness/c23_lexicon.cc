// C23: lexicons against a list of definitions.
#include "text_common.h"
#include <algorithm>
#include <map>
#include <memory>
#include <optional>
#include <swoc/Lexicon.h>
using swoc::TextView;
enum class Val { A = 0, B = 7, C = -1, X = 99 };
using Lex = swoc::Lexicon<Val>;
static Val const VALUES[] = {Val::A, Val::B, Val::C};

static std::string lower(std::string s)
{
  for (auto &x : s)
    if (x >= 'A' && x <= 'Z') x += 32;
  return s;
}

struct Model {
  std::vector<std::pair<Val, std::string>> defs; // in order of definition
  int value_default = 0;                         // 0 none, 1 value, 2 function
  int name_default  = 0;

  std::optional<Val> find(std::string const &n) const
  {
    for (auto const &[v, m] : defs)
      if (lower(m) == lower(n)) return v;
    return {};
  }
  std::optional<std::string> find(Val v) const
  {
    for (auto const &[x, m] : defs)
      if (x == v) return m;
    return {};
  }
  /// The definition is acceptable. Otherwise what is kept of it is up to the lexicon, but nothing past the bad name.
  bool define(Val v, std::vector<std::string> const &names, std::vector<std::string> &maybe)
  {
    if (names.empty()) return false;
    Model saved = *this;
    for (auto const &n : names) {
      if (find(n)) {
        maybe.clear();
        for (size_t i = saved.defs.size(); i < defs.size(); ++i) maybe.push_back(defs[i].second);
        *this = saved;
        return false;
      }
      defs.emplace_back(v, n);
    }
    return true;
  }
  std::string canon() const
  {
    std::string z;
    for (auto const &[v, n] : defs) z += mc::strf("%d=%s,", int(v), n.c_str());
    return z + mc::strf(" %d %d", value_default, name_default);
  }
};

static TextView unknown_value(Val v) { return std::string_view(v == Val::X ? "is-x" : "is-other"); }
static Val unknown_name(TextView n) { return n.size() % 2 ? Val::X : Val::C; }
static void set_default(Lex &lex, Model &m, int kind)
{
  switch (kind) {
  case 0: lex.set_default(Lex::Default{}); return;
  case 1: lex.set_default(Val::X), m.value_default = 1; return;
  case 2: lex.set_default(Lex::UnknownNameHandler(unknown_name)), m.value_default = 2; return;
  case 3: lex.set_default(TextView("none")), m.name_default = 1; return;
  case 4: lex.set_default(Lex::UnknownValueHandler(unknown_value)), m.name_default = 2; return;
  }
}

static std::vector<std::string> const PROBES{"", "a", "A", "aB", "Ab", "AB", "b", "B", "c", "abc", "\xe9", "_"};

static void check(mc::Ctx &c, Lex const &lex, Model const &m, std::vector<std::string> const &probes = PROBES)
{
  for (auto const &probe : probes) {
    Exact x(probe);
    auto want = m.find(probe);
    try {
      Val v = lex[TextView(x.sv())];
      if (!want && m.value_default == 1) want = Val::X;
      if (!want && m.value_default == 2) want = unknown_name(TextView(x.sv()));
      MC_CHECK(c, want, "name %s, which is unknown, has value %d", mc::show(probe).c_str(), int(v));
      MC_CHECK(c, v == *want, "name %s has value %d, not %d", mc::show(probe).c_str(), int(v), int(*want));
    } catch (std::domain_error const &e) {
      MC_CHECK(c, !want && !m.value_default, "name %s was not found", mc::show(probe).c_str());
    }
  }
  for (Val v : {Val::A, Val::B, Val::C, Val::X}) {
    auto want = m.find(v);
    try {
      std::string n{lex[v]};
      if (!want && m.name_default == 1) want = "none";
      if (!want && m.name_default == 2) want = std::string(unknown_value(v));
      MC_CHECK(c, want, "value %d, which is unknown, has name %s", int(v), mc::show(n).c_str());
      MC_CHECK(c, n == *want, "value %d has name %s, not %s", int(v), mc::show(n).c_str(), mc::show(*want).c_str());
    } catch (std::domain_error const &) {
      MC_CHECK(c, !want && !m.name_default, "value %d was not found", int(v));
    }
  }
  // iteration, by value and by name
  std::multimap<int, std::string> by_value, by_name, want_value, want_name;
  for (auto const &[v, n] : m.defs) {
    want_name.emplace(int(v), n);
    if (!want_value.count(int(v))) want_value.emplace(int(v), n);
  }
  size_t limit = m.defs.size() + 1;
  for (auto const &pair : lex) {
    by_value.emplace(int(pair._value), std::string(pair._name));
    MC_CHECK(c, std::get<Lex::VALUE_IDX>(pair) == pair._value && std::get<Lex::NAME_IDX>(pair) == pair._name, "members of a pair");
    if (by_value.size() > limit) break;
  }
  for (auto const &pair : lex.by_names()) {
    by_name.emplace(int(pair._value), std::string(pair._name));
    if (by_name.size() > limit) break;
  }
  auto same = [](auto const &a, auto const &b) {
    std::vector<std::pair<int, std::string>> x(a.begin(), a.end()), y(b.begin(), b.end());
    std::sort(x.begin(), x.end());
    std::sort(y.begin(), y.end());
    return x == y;
  };
  MC_CHECK(c, lex.count() == want_value.size(), "count is %zu, not %zu", lex.count(), want_value.size());
  MC_CHECK(c, same(by_value, want_value), "iteration by value lists %zu pairs, not the %zu defined", by_value.size(), want_value.size());
  MC_CHECK(c, same(by_name, want_name), "iteration by name lists %zu pairs, not the %zu defined", by_name.size(), want_name.size());
  // increment forms and decrement
  auto walk = [&](auto begin, auto end, char const *what) {
    std::vector<decltype(begin)> spots;
    for (auto spot = begin; spot != end && spots.size() <= limit;) {
      spots.push_back(spot);
      auto before = spot++;
      MC_CHECK(c, before == spots.back() && !(before == spot) && before != spot, "post increment of an iterator by %s", what);
      auto x = spots.back();
      MC_CHECK(c, ++x == spot, "increment of an iterator by %s", what);
      if (spot == end) break;
    }
    for (size_t i = spots.size(); i-- > 1;) {
      auto x = spots[i], y = spots[i];
      MC_CHECK(c, --x == spots[i - 1], "decrement of an iterator by %s", what);
      MC_CHECK(c, y-- == spots[i] && y == spots[i - 1], "post decrement of an iterator by %s", what);
    }
  };
  walk(lex.begin(), lex.end(), "value");
  walk(lex.begin_names(), lex.end_names(), "name");
}

/// After a rejected definition: as before, plus possibly a leading part of the names.
static void settle(mc::Ctx &c, Lex const &lex, Model &m, Val v, std::vector<std::string> const &maybe)
{
  std::vector<std::string> names;
  for (auto const &pair : lex.by_names()) names.emplace_back(pair._name);
  for (auto const &n : maybe) {
    if (std::find(names.begin(), names.end(), n) == names.end()) break;
    m.defs.emplace_back(v, n);
  }
  (void)c;
}

static bool define(Lex &lex, Val v, std::vector<std::string> const &names, int how)
{
  std::vector<std::unique_ptr<Exact>> x; // names have to be copied
  for (auto const &n : names) x.push_back(std::make_unique<Exact>(n));
  auto tv = [&](size_t i) { return TextView(x[i]->sv()); };
  try {
    switch (names.size()) {
    case 0: lex.define(v, std::initializer_list<TextView>{}); break;
    case 1:
      if (how == 0) lex.define(v, tv(0));
      else if (how == 1) lex.define(Lex::Pair{v, tv(0)});
      else lex.define(v, std::initializer_list<TextView>{tv(0)});
      break;
    case 2:
      if (how == 0) lex.define(v, tv(0), tv(1));
      else if (how == 1) lex.define(v, std::initializer_list<TextView>{tv(0), tv(1)});
      else {
        std::initializer_list<TextView> l{tv(0), tv(1)};
        lex.define(Lex::Definition{v, l});
      }
      break;
    case 3: lex.define(v, tv(0), tv(1), tv(2)); break;
    }
  } catch (std::invalid_argument const &) {
    return false;
  }
  return true;
}

static char const *const NAMES[] = {"a", "A", "aB", "", "Ab", "c"};

static void definitions(mc::Ctx &c, int depth, int max_names, int values)
{
  auto lex = std::make_unique<Lex>();
  Model m;
  set_default(*lex, m, 2); // exceptions are slow and in other suites
  set_default(*lex, m, 4);
  for (int d = 0; d < depth; ++d) {
    Val v = VALUES[c.choose(values)];
    std::vector<std::string> names, maybe;
    for (int n = c.choose(max_names + 1); n > 0; --n) names.emplace_back(NAMES[c.choose(c.thorough ? 6 : 4)]);
    std::string list;
    for (auto const &n : names) list += " '" + n + "'";
    c.note("define %d as%s", int(v), list.c_str());
    bool expect = m.define(v, names, maybe), got = define(*lex, v, names, (d + int(v == Val::B)) % 3);
    MC_CHECK(c, got == expect, "definition was %s", got ? "accepted" : "rejected");
    if (!expect) settle(c, *lex, m, v, maybe);
    c.step();
    check(c, *lex, m);
    c.state(m.canon());
    Lex moved{std::move(*lex)};
    lex.reset();
    check(c, moved, m);
    lex = std::make_unique<Lex>(std::move(moved));
  }
}

MC_HISTORIES(lists, 2, "all sequences of two definitions with up to 3 names, and moves")
{
  definitions(c, 2, 3, 2);
}

MC_HISTORIES(sequences, 2, "all sequences of definitions with up to 2 names, and moves")
{
  definitions(c, 3, 2, 2 + c.thorough);
}

MC_HISTORIES(defaults, 2, "all sequences of definitions, changes of defaults and moves")
{
  auto lex = std::make_unique<Lex>();
  Model m;
  int depth = c.thorough ? 6 : 4;
  for (int d = 0; d < depth; ++d) {
    int op = c.choose(8);
    c.note("operation %d", op);
    if (op < 5) set_default(*lex, m, op);
    else if (op < 7) {
      std::vector<std::string> maybe, names{op == 5 ? std::vector<std::string>{"aB"} : std::vector<std::string>{"c", "a"}};
      Val v       = op == 5 ? Val::A : Val::B;
      bool expect = m.define(v, names, maybe);
      MC_CHECK(c, define(*lex, v, names, 0) == expect, "definition");
    } else {
      auto next = std::make_unique<Lex>(std::move(*lex));
      lex       = std::move(next);
    }
    c.step();
    check(c, *lex, m);
    c.state(m.canon());
  }
}

MC_HISTORIES(handlers, 2, "all histories of 3 (4) operations on two lexicons with defaults of their own: literals, handlers with state, that throw, or that define the unknown name or value; every lookup asks the handler")
{
  struct One {
    Lex lex;
    std::vector<std::pair<Val, std::string>> defs;
    int name_kind = 0, value_kind = 0; // 1, 2 literal, 3, 4 handler with state, 5 throws, 6 defines
    int names_asked = 0, values_asked = 0, names_want = 0, values_want = 0;
    std::string last;
  };
  struct Refused {};
  One z[2];
  auto find = [&](One &o, std::string const &n) -> Val const * {
    for (auto &d : o.defs)
      if (lower(d.second) == lower(n)) return &d.first;
    return nullptr;
  };
  auto find_v = [&](One &o, Val v) -> std::string const * {
    for (auto &d : o.defs)
      if (d.first == v) return &d.second;
    return nullptr;
  };
  auto set_name = [&](int i, int kind) {
    One &o      = z[i];
    o.name_kind = kind;
    switch (kind) {
    case 1: o.lex.set_default(TextView("first")); break;
    case 2: o.lex.set_default(TextView("second")); break;
    default:
      o.lex.set_default(Lex::UnknownValueHandler([&o, kind, i](Val v) -> TextView {
        ++o.names_asked;
        if (kind == 5) throw Refused{};
        o.last = mc::strf("%d of %d by %d, call %d", int(v), i, kind, o.names_asked);
        if (kind == 6) o.lex.define(v, TextView(o.last)), o.defs.emplace_back(v, o.last);
        return o.last;
      }));
    }
  };
  auto set_value = [&](int i, int kind) {
    One &o       = z[i];
    o.value_kind = kind;
    switch (kind) {
    case 1: o.lex.set_default(Val::X); break;
    case 2: o.lex.set_default(Val::C); break;
    default:
      o.lex.set_default(Lex::UnknownNameHandler([&o, kind](TextView n) -> Val {
        ++o.values_asked;
        if (kind == 5) throw Refused{};
        Val v = (o.values_asked + int(n.size())) % 2 == kind % 2 ? Val::A : Val::B;
        if (kind == 6) o.lex.define(v, n), o.defs.emplace_back(v, std::string(n));
        return v;
      }));
    }
  };
  auto look = [&](int i) {
    One &o = z[i];
    for (int round = 0; round < 2; ++round) {
      for (Val v : {Val::A, Val::C}) {
        std::string got, want;
        auto known = find_v(o, v);
        if (known) want = *known;
        else if (o.name_kind == 0) want = "thrown";
        else if (o.name_kind < 3) want = o.name_kind == 1 ? "first" : "second";
        else if (++o.names_want; o.name_kind == 5) want = "refused";
        else want = mc::strf("%d of %d by %d, call %d", int(v), i, o.name_kind, o.names_want);
        try {
          got = o.lex[v];
        } catch (std::domain_error const &) {
          got = "thrown";
        } catch (Refused const &) {
          got = "refused";
        }
        MC_CHECK(c, got == want, "name of value %d in lexicon %d with default %d is '%s', not '%s'", int(v), i, o.name_kind, got.c_str(), want.c_str());
        MC_CHECK(c, o.names_asked == o.names_want, "handler for names was called %d times for %d unknown values", o.names_asked, o.names_want);
      }
      for (char const *n : {"ab", "no"}) {
        std::string got, want;
        auto known = find(o, n);
        if (known) want = std::to_string(int(*known));
        else if (o.value_kind == 0) want = "thrown";
        else if (o.value_kind < 3) want = std::to_string(int(o.value_kind == 1 ? Val::X : Val::C));
        else if (++o.values_want; o.value_kind == 5) want = "refused";
        else want = std::to_string(int((o.values_want + 2) % 2 == o.value_kind % 2 ? Val::A : Val::B));
        try {
          got = std::to_string(int(o.lex[TextView(n)]));
        } catch (std::domain_error const &) {
          got = "thrown";
        } catch (Refused const &) {
          got = "refused";
        }
        MC_CHECK(c, got == want, "value of name '%s' in lexicon %d with default %d is %s, not %s", n, i, o.value_kind, got.c_str(), want.c_str());
        MC_CHECK(c, o.values_asked == o.values_want, "handler for values was called %d times for %d unknown names", o.values_asked, o.values_want);
      }
    }
  };
  std::string trace;
  for (int d = 0, depth = c.thorough ? 4 : 3; d < depth; ++d) {
    int op = c.choose(14), i = c.choose(2);
    c.note("operation %d on lexicon %d", op, i);
    trace += mc::strf("%d.%d ", op, i);
    if (op < 6) set_name(i, op + 1);
    else if (op < 12) set_value(i, op - 5);
    else {
      Val v         = op == 12 ? Val::A : Val::C;
      std::string n = op == 12 ? "Ab" : "x";
      bool expect   = !find(z[i], n), got = true;
      try {
        z[i].lex.define(v, TextView(n));
      } catch (std::invalid_argument const &) {
        got = false;
      }
      MC_CHECK(c, got == expect, "definition of '%s'", n.c_str());
      if (expect) z[i].defs.emplace_back(v, n);
    }
    look(0), look(1);
    c.step();
  }
  c.outcome(trace);
}

MC_INPUTS(constructors, 1, "all constructors with all pairs of default kinds in both orders")
{
  auto make = [&](int kind) -> Lex::Default {
    switch (kind) {
    case 1: return Val::X;
    case 2: return Lex::UnknownNameHandler(unknown_name);
    case 3: return TextView("none");
    case 4: return Lex::UnknownValueHandler(unknown_value);
    }
    return {};
  };
  int form = c.choose(4), k1 = c.choose(5), k2 = c.choose(5);
  Model m;
  for (int k : {k1, k2}) {
    if (k == 1 || k == 2) m.value_default = k;
    if (k > 2) m.name_default = k - 2;
  }
  auto d1 = make(k1), d2 = make(k2);
  std::unique_ptr<Lex> lex;
  if (form == 0) lex = std::make_unique<Lex>(d1, d2);
  if (form == 1) lex = std::make_unique<Lex>(Lex::with{{Val::A, "a"}, {Val::B, "aB"}, {Val::A, "c"}}, d1, d2), m.defs = {{Val::A, "a"}, {Val::B, "aB"}, {Val::A, "c"}};
  if (form == 2) lex = std::make_unique<Lex>(Lex::with_multi{{Val::A, {"aB", "a", "c"}}, {Val::C, {"B"}}}, d1, d2), m.defs = {{Val::A, "aB"}, {Val::A, "a"}, {Val::A, "c"}, {Val::C, "B"}};
  if (form == 3) {
    bool thrown = false;
    try {
      Lex bad(Lex::with_multi{{Val::A, {"aB", "a"}}, {Val::C, {"AB"}}}, d1, d2);
    } catch (std::invalid_argument const &) {
      thrown = true;
    }
    MC_CHECK(c, thrown, "a list with a duplicate name was accepted");
    lex = std::make_unique<Lex>();
    set_default(*lex, m, k1), set_default(*lex, m, k2);
  }
  check(c, *lex, m);
  c.outcome(mc::strf("%d %d %d", form, k1, k2));
}

MC_INPUTS(sizes, 1, "lexicons of every size up to a bound, with names of all lengths")
{
  int n = c.choose(c.thorough ? 400 : 160);
  using Big = swoc::Lexicon<int>;
  Big lex;
  std::vector<std::string> names;
  for (int i = 0; i < n; ++i) {
    for (int k = 0; k < 3; ++k) {
      std::string name = mc::strf("%c%d.", 'a' + k, i) + std::string((i * 7 + k) % 61 + (i == 50 ? 3000 : 0), 'Q');
      names.push_back(name);
      Exact x(name);
      lex.define(i * 3 - 40, TextView(x.sv()));
    }
  }
  MC_CHECK(c, lex.count() == size_t(n), "count is %zu, not %d", lex.count(), n);
  Big moved(std::move(lex));
  for (int i = 0; i < n; ++i) {
    MC_CHECK(c, moved[i * 3 - 40] == names[i * 3], "primary name of %d of %d", i, n);
    for (int k = 0; k < 3; ++k) MC_CHECK(c, moved[TextView(lower(names[i * 3 + k]))] == i * 3 - 40, "name %s of %d of %d", names[i * 3 + k].c_str(), i, n);
  }
  size_t values = 0, count = 0;
  for (auto const &pair : moved) {
    ++values;
    MC_CHECK(c, moved[pair._value].data() == pair._name.data(), "iteration by value");
  }
  for (auto const &pair : moved.by_names()) {
    ++count;
    MC_CHECK(c, moved[pair._name] == pair._value, "iteration by name");
  }
  MC_CHECK(c, values == size_t(n) && count == size_t(n) * 3, "iteration lists %zu values and %zu names of %d", values, count, n);
  c.outcome(std::to_string(n));
}

MC_INPUTS(names, 1, "names of 5 prefixes (with NUL, with bytes above 127, of 40 characters) and every byte, against every (some) bytes: the same if only the case of letters differs")
{
  static std::string const PREFIX[] = {"k", std::string("k\0", 2), std::string("\0", 1), std::string("k\xff", 2), std::string(40, 'k')};
  std::string prefix(c.pick(PREFIX)), upper = prefix;
  for (auto &x : upper) x = x == 'k' ? 'K' : x;
  int a = c.choose(256);
  for (int b = 0; b < 256; ++b) {
    if (prefix != "k" && b != a && (b ^ a) != 32 && (b ^ a) != 128 && (b ^ a) != 1 && b != 0) continue;
    Model m;
    Lex lex;
    std::vector<std::string> maybe, n1{prefix + char(a)}, n2{upper + char(b)};
    m.define(Val::A, n1, maybe);
    bool expect = m.define(Val::B, n2, maybe);
    MC_CHECK(c, define(lex, Val::A, n1, 0), "name with character %d was rejected", a);
    MC_CHECK(c, define(lex, Val::B, n2, 0) == expect, "names with characters %d and %d are %s", a, b, expect ? "the same" : "different");
    check(c, lex, m, {n1[0], n2[0], prefix, prefix + char(a ^ 32)});
  }
  c.outcome(prefix + std::to_string(a));
}

MC_INPUTS(printed, 1, "printing of lexicons in all formats")
{
  int mask = c.choose(8);
  Lex lex;
  std::vector<std::string> names, nums;
  for (int i = 0; i < 3; ++i)
    if (mask & 1 << i) {
      lex.define(VALUES[i], TextView(std::string_view(i ? NAMES[i + 1] : "a")), TextView(mc::strf("other%d", i)));
      names.emplace_back(i ? NAMES[i + 1] : "a");
      nums.push_back(std::to_string(unsigned(VALUES[i])));
    }
  auto print = [&](char const *fmt, auto &&one) {
    std::string got;
    swoc::bwprint(got, fmt, lex);
    std::vector<int> order;
    for (size_t i = 0; i < names.size(); ++i) order.push_back(i);
    do {
      std::string want;
      for (int i : order) want += (want.empty() && i == order[0] ? "" : ",") + one(i);
      if (got == want) return;
    } while (std::next_permutation(order.begin(), order.end()));
    c.fail("%s printed %s", fmt, mc::show(got).c_str());
  };
  print("{:s}", [&](int i) { return lower(names[i]); });
  print("{:S}", [&](int i) {
    std::string z = names[i];
    for (char &ch : z) ch = char(toupper(static_cast<unsigned char>(ch)));
    return z;
  });
  print("{:d}", [&](int i) { return nums[i]; });
  print("{:x}", [&](int i) { return mc::strf("%x", unsigned(std::stoul(nums[i]))); });
  print("{}", [&](int i) { return "[" + names[i] + "," + nums[i] + "]"; });
  c.outcome(std::to_string(mask));
}
