// C21: format strings - parsed directly or compiled - against a parser of the documented grammar.
#include "fmt_common.h"
#include <any>
#include <map>
using swoc::BufferWriter;
using swoc::FixedBufferWriter;
using swoc::TextView;
using swoc::bwf::Format;
using swoc::bwf::Spec;

struct Context {
  int n;
};
using Names = swoc::bwf::ContextNames<Context>;
static Names const &names()
{
  static Names *n = [] {
    auto z = new Names;
    for (char const *name : {"n", "name"})
      z->assign(name, Names::ExternalGenerator([](BufferWriter &w, Spec const &) -> BufferWriter & { return w.write("NAME", 4); }));
    z->assign("ctx", Names::Generator([](BufferWriter &w, Spec const &spec, Context &x) -> BufferWriter & { return bwformat(w, spec, x.n); }));
    return z;
  }();
  return *n;
}

static constexpr int ARG0 = 12;
static constexpr std::string_view ARG1{"Xy"};

struct Result {
  bool rejected = false;
  std::string text;
};

static size_t CAPACITY = 600; ///< Output is clipped to this.
static constexpr size_t MAX_CAPACITY = 9000;

/// Print @a fmt with @a nargs arguments. @a how: 0 direct, 1 compiled.
static Result run(Exact const &fmt, int nargs, int how, bool with_names)
{
  Result r;
  char buff[MAX_CAPACITY];
  FixedBufferWriter w(buff, CAPACITY);
  Context ctx{77};
  auto print = [&](auto &&ex) {
    auto b = const_cast<Names &>(names()).bind(ctx);
    if (nargs == 0) w.print_nfv(b, ex, swoc::bwf::ArgTuple{std::make_tuple()});
    else if (nargs == 1) w.print_nfv(b, ex, swoc::bwf::ArgTuple{std::forward_as_tuple(ARG0)});
    else w.print_nfv(b, ex, swoc::bwf::ArgTuple{std::forward_as_tuple(ARG0, ARG1)});
  };
  auto plain = [&](auto &&f) {
    if (nargs == 0) w.print(f);
    else if (nargs == 1) w.print(f, ARG0);
    else w.print_v(f, std::forward_as_tuple(ARG0, ARG1));
  };
  TextView f(fmt.sv());
  try {
    if (how == 0) {
      if (with_names) print(Format::bind(f));
      else plain(f);
    } else {
      Format compiled(f);
      if (with_names) print(compiled.bind());
      else {
        Format moved(std::move(compiled));
        plain(moved);
      }
    }
    r.text.assign(w.data(), w.size());
  } catch (std::invalid_argument const &) {
    r.rejected = true;
  }
  return r;
}

struct Expected {
  bool rejected  = false; ///< The braces are not balanced.
  bool unknown   = false; ///< Something not in the grammar: any output, or rejection.
  bool literal   = true;  ///< No specifiers.
  std::string literals;   ///< All literal text
  size_t specifiers = 0;
  std::vector<std::string> text{""};
  void add(std::vector<std::string> const &more)
  {
    std::vector<std::string> z;
    for (auto const &a : text)
      for (auto const &b : more)
        if (z.empty() || z.back() != a + b) z.push_back(a + b);
    text = z;
  }
};

static std::vector<std::string> value(Style const &st, std::string_view name, unsigned long long idx, bool indexed, int nargs, bool with_names, std::string_view ext)
{
  (void)ext;
  if (indexed) {
    if (idx >= static_cast<unsigned long long>(nargs)) return st.place_text(mc::strf("{BAD_ARG_INDEX:%llu of %d}", idx, nargs));
    if (idx == 0) return {model_int(st, ARG0)};
    return model_text(st, std::string(ARG1));
  }
  if (with_names && (name == "n" || name == "name")) return st.place_text("NAME");
  if (with_names && name == "ctx") return {model_int(st, 77)};
  return st.place_text("{~" + std::string(name) + "~}");
}

static Expected model(std::string_view f, int nargs, bool with_names)
{
  Expected e;
  int next = 0;
  while (!f.empty()) {
    size_t at = f.find_first_of("{}");
    if (at == f.npos) {
      e.add({std::string(f)});
      e.literals += f;
      return e;
    }
    e.add({std::string(f.substr(0, at))});
    e.literals += f.substr(0, at);
    f.remove_prefix(at);
    if (f.size() > 1 && f[0] == f[1]) {
      e.add({std::string(1, f[0])});
      e.literals += f[0];
      f.remove_prefix(2);
      continue;
    }
    if (f[0] == '}' || f.size() == 1) {
      e.rejected = true;
      return e;
    }
    f.remove_prefix(1);
    size_t end = f.find('}');
    if (end == f.npos) {
      e.rejected = true;
      return e;
    }
    e.literal             = false;
    ++e.specifiers;
    std::string_view spec = f.substr(0, end), style, ext;
    f.remove_prefix(end + 1);
    if (spec.find('{') != spec.npos) e.unknown = true;
    std::string_view name = spec.substr(0, spec.find(':'));
    spec.remove_prefix(std::min(spec.size(), name.size() + 1));
    style = spec.substr(0, spec.find(':'));
    spec.remove_prefix(std::min(spec.size(), style.size() + 1));
    ext     = spec;
    bool reject;
    auto st = parse_style(style, &reject);
    if (reject && !e.unknown) {
      e.rejected = true;
      return e;
    }
    if (!st) {
      e.unknown = true;
      st        = Style{};
    }
    bool indexed           = name.empty() || name.find_first_not_of("0123456789") == name.npos;
    unsigned long long idx = 0;
    if (name.empty()) idx = next++;
    else if (indexed) idx = std::stoull(std::string(name));
    e.add(value(*st, name, idx, indexed, nargs, with_names, ext));
  }
  return e;
}

static void compare(mc::Ctx &c, std::string const &fmt, int nargs, bool with_names)
{
  Exact x(fmt);
  Result direct = run(x, nargs, 0, with_names), compiled = run(x, nargs, 1, with_names);
  Expected e    = model(fmt, nargs, with_names);
  MC_CHECK(c, direct.rejected == compiled.rejected, "%s with %d arguments is %s directly and %s when compiled", mc::show(fmt).c_str(), nargs, direct.rejected ? "rejected" : "printed", compiled.rejected ? "rejected" : "printed");
  MC_CHECK(c, direct.rejected || direct.text == compiled.text, "%s with %d arguments prints %s directly and %s when compiled", mc::show(fmt).c_str(), nargs, mc::show(direct.text).c_str(), mc::show(compiled.text).c_str());
  if (e.unknown) return;
  MC_CHECK(c, direct.rejected == e.rejected, "%s is %s", mc::show(fmt).c_str(), direct.rejected ? "rejected" : "accepted");
  if (e.rejected) return;
  for (auto &t : e.text)
    if (t.size() > CAPACITY) t.resize(CAPACITY);
  MC_CHECK(c, one_of(direct.text, e.text), "%s with %d arguments prints %s, not %s", mc::show(fmt).c_str(), nargs, mc::show(direct.text).c_str(), either(e.text).c_str());
  Format f{TextView(x.sv())};
  MC_CHECK(c, f.is_literal() == e.literal, "%s is%s a literal", mc::show(fmt).c_str(), f.is_literal() ? "" : " not");
  std::string literals;
  size_t specifiers = 0, items = 0;
  for (Spec &item : f) {
    if (item._type == Spec::LITERAL_TYPE) literals += item._ext;
    else ++specifiers;
  }
  for (Spec const &item : const_cast<Format const &>(f)) items += &item - &*f.begin() == ssize_t(items);
  MC_CHECK(c, literals == e.literals && specifiers == e.specifiers && items == size_t(f.end() - f.begin()), "%s has %zu specifiers and the literal text %s", mc::show(fmt).c_str(), specifiers, mc::show(literals).c_str());
}

MC_INPUTS(braces, 4, "all format strings over braces, colons, digits, letters and style characters")
{
  static char const ALPHABET[] = {'{', '}', ':', '0', '1', 'n', '<', '-'};
  int max = c.thorough ? 7 : 6;
  std::string fmt;
  int n = c.choose(max + 1);
  for (int i = 0; i < n; ++i) fmt += ALPHABET[c.choose(8)];
  compare(c, fmt, 2, true);
  if (n < max) compare(c, fmt, n % 3, false);
  c.outcome(fmt);
}

MC_INPUTS(arrangements, 2, "all sequences of literals, doubled braces, indexes, names and styles with 0 to 2 arguments")
{
  static char const *const PARTS[] = {"a", "{{", "}}", "{}", "{0}", "{1}", "{2}", "{1:>5}", "{:=+06}", "{n}", "{ctx:^5x}", "{no:>9}", "{::ext}", "{:x:e:f}", "{0:#x,3}", "{00}", "{name::}"};
  std::string fmt;
  int n = 1 + c.choose(c.thorough ? 5 : 4);
  for (int i = 0; i < n; ++i) fmt += PARTS[c.choose(17)];
  for (int nargs = 0; nargs < 3; ++nargs) {
    compare(c, fmt, nargs, true);
    if (n < 4) compare(c, fmt, nargs, false);
  }
  c.outcome(fmt);
}

MC_INPUTS(style_fields, 3, "all style texts of a specifier against the documented grammar")
{
  static char const ALPHABET[] = {'<', '=', '%', '3', 'A', '+', '#', '0', '1', '.', ',', 'x', 's', '\xff'};
  std::string style;
  for (int n = c.choose(c.thorough ? 7 : 6); n > 0; --n) style += ALPHABET[c.choose(14)];
  Exact x("nm:" + style);
  Spec spec;
  bool thrown = false;
  try {
    switch (style.size() % 2) {
    case 0: spec = Spec{TextView(x.sv())}; break;
    default: spec.parse(TextView(x.sv())); break;
    }
  } catch (std::invalid_argument const &) {
    thrown = true;
  }
  auto st = parse_style(style);
  if (st) {
    MC_CHECK(c, !thrown, "style %s was rejected", mc::show(style).c_str());
    MC_CHECK(c, spec._name == "nm" && spec._idx < 0 && spec._ext.empty(), "style %s: name or extension", mc::show(style).c_str());
    MC_CHECK(c, spec._fill == st->eff_fill(), "style %s: fill is %s", mc::show(style).c_str(), mc::show({&spec._fill, 1}).c_str());
    char align = st->eff_align();
    auto want  = align == '<' ? Spec::Align::LEFT : align == '>' ? Spec::Align::RIGHT : align == '^' ? Spec::Align::CENTER : align == '=' ? Spec::Align::SIGN : Spec::Align::NONE;
    MC_CHECK(c, spec._align == want, "style %s: alignment", mc::show(style).c_str());
    MC_CHECK(c, spec._sign == st->sign, "style %s: sign is %c", mc::show(style).c_str(), spec._sign);
    MC_CHECK(c, spec._radix_lead_p == st->lead, "style %s: prefix mark", mc::show(style).c_str());
    MC_CHECK(c, spec._min == st->min, "style %s: minimum is %u", mc::show(style).c_str(), spec._min);
    MC_CHECK(c, spec._prec == st->prec, "style %s: precision is %d", mc::show(style).c_str(), spec._prec);
    MC_CHECK(c, spec._max == st->max, "style %s: maximum is %u", mc::show(style).c_str(), spec._max);
    MC_CHECK(c, spec._type == st->type, "style %s: type is %c", mc::show(style).c_str(), spec._type);
    bool numeric = strchr("dxXobB", st->type), upper = strchr("XBSP", st->type), pointer = strchr("pP", st->type);
    MC_CHECK(c, spec.has_numeric_type() == numeric && spec.has_upper_case_type() == upper && spec.has_pointer_type() == pointer && spec.has_valid_type(), "style %s: type properties", mc::show(style).c_str());
  }
  c.outcome(style);
}

MC_INPUTS(bytes, 1, "every byte pair in every place of a specifier")
{
  int a = c.choose(256);
  for (int b = 0; b < 256; ++b) {
    char t[3] = {char(a), char(b), 0};
    std::string ab(t, 2);
    for (std::string const &fmt : {ab, "{" + ab + "}", "{:" + ab + "}", "{:" + ab + "<9}", "{::" + ab + "}", "{:%" + ab + "<4}", "{:<" + ab + "}", "{:1.2" + ab + "}"}) compare(c, fmt, 2, true);
  }
  // type predicates for every character
  char ch      = char(a);
  bool numeric = ch && strchr("dxXobB", ch), upper = ch && strchr("XBSP", ch), type = ch && strchr("gsSxXdobBpP", ch);
  MC_CHECK(c, Spec::is_type(ch) == type && Spec::is_numeric_type(ch) == numeric && Spec::is_upper_case_type(ch) == upper, "type predicates of character %d", a);
  Spec spec;
  spec._type = ch;
  MC_CHECK(c, spec.has_numeric_type() == numeric && spec.has_upper_case_type() == upper && spec.has_pointer_type() == (ch == 'p' || ch == 'P') && spec.has_valid_type() == (ch != Spec::INVALID_TYPE), "type properties of character %d", a);
  c.outcome(std::to_string(a));
}

MC_INPUTS(indexes, 1, "argument indexes and widths around the limits of integer types")
{
  static char const *const IDX[] = {"2", "9", "10", "127", "128", "255", "256", "65536", "2147483646", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999999"};
  std::string i = IDX[c.choose(19)];
  for (int zeros : {0, 1, 20}) {
    Exact x("{" + std::string(zeros, '0') + i + "}");
    for (int how : {0, 1}) {
      Result r = run(x, 2, how, true);
      MC_CHECK(c, r.rejected || r.text.substr(0, 2) == "{~" || r.text.substr(0, 15) == "{BAD_ARG_INDEX:", "argument index %s printed %s", i.c_str(), mc::show(r.text).c_str());
    }
  }
  c.outcome(i);
}

MC_HISTORIES(name_maps, 2, "all sequences of assignments to name maps, generators found by name")
{
  static char const *const NAMES[] = {"", "a", "A", "aa", "long name with blanks", "0x"};
  swoc::bwf::ExternalNames ext;
  Names ctx;
  std::map<std::string, int> model;
  int depth = c.thorough ? 5 : 4;
  for (int d = 0; d < depth; ++d) {
    std::string name = NAMES[c.choose(6)];
    int id           = d;
    bool external    = c.flag();
    c.note("assign %s", name.c_str());
    {
      Exact x(name); // has to be copied
      ext.assign(x.sv(), [id](BufferWriter &w, Spec const &) -> BufferWriter & { return w.print("g{}", id); });
      if (external) ctx.assign(x.sv(), Names::ExternalGenerator([id](BufferWriter &w, Spec const &) -> BufferWriter & { return w.print("g{}", id); }));
      else ctx.assign(x.sv(), Names::Generator([id](BufferWriter &w, Spec const &, Context &k) -> BufferWriter & { return w.print("g{}", id + k.n); }));
    }
    model[name] = id;
    c.step();
    std::string canon;
    for (char const *n : NAMES) {
      auto spot = model.find(n);
      MC_CHECK(c, ext.contains(n) == (spot != model.end()) && ctx.contains(n) == (spot != model.end()), "contains of %s", n);
      if (!*n) continue;
      std::string fmt = "{" + std::string(n) + "}", want = spot == model.end() ? "{~" + std::string(n) + "~}" : mc::strf("g%d", spot->second), got;
      swoc::LocalBufferWriter<100> w;
      w.print_n(ext.bind(), fmt);
      MC_CHECK(c, w.view() == want, "name %s printed %s, not %s", n, mc::show(w.view()).c_str(), want.c_str());
      Context k{0};
      w.clear().print_n(ctx.bind(k), fmt);
      MC_CHECK(c, w.view() == want, "name %s printed %s in a context, not %s", n, mc::show(w.view()).c_str(), want.c_str());
      canon += want + " ";
    }
    c.state(canon);
  }
}

MC_INPUTS(name_lists, 1, "name maps made from all lists of up to 3 names, also repeated")
{
  static char const *const NAMES[] = {"a", "A", "aa"};
  swoc::bwf::ExternalNames::Generator g[3];
  for (int i = 0; i < 3; ++i) g[i] = [i](BufferWriter &w, Spec const &) -> BufferWriter & { return w.print("g{}", i); };
  int n = c.choose(4), k[3] = {0, 0, 0};
  for (int i = 0; i < n; ++i) k[i] = c.choose(3);
  auto check = [&](swoc::bwf::ExternalNames &&map) {
    for (int i = 0; i < 3; ++i) {
      std::string want = std::string("{~") + NAMES[i] + "~}";
      bool in          = false;
      for (int j = 0; j < n; ++j)
        if (k[j] == i) in = true, want = mc::strf("g%d", j);
      swoc::LocalBufferWriter<100> w;
      w.print_n(map.bind(), mc::strf("{%s}", NAMES[i]));
      MC_CHECK(c, map.contains(NAMES[i]) == in && w.view() == want, "name %s of a list of %d printed %s, not %s", NAMES[i], n, mc::show(w.view()).c_str(), want.c_str());
    }
  };
  using L = std::initializer_list<std::tuple<std::string_view, swoc::bwf::ExternalNames::Generator const &>>;
  switch (n) {
  case 0: check(swoc::bwf::ExternalNames(L{})); break;
  case 1: check(swoc::bwf::ExternalNames(L{{NAMES[k[0]], g[0]}})); break;
  case 2: check(swoc::bwf::ExternalNames(L{{NAMES[k[0]], g[0]}, {NAMES[k[1]], g[1]}})); break;
  case 3: check(swoc::bwf::ExternalNames(L{{NAMES[k[0]], g[0]}, {NAMES[k[1]], g[1]}, {NAMES[k[2]], g[2]}})); break;
  }
  c.outcome(mc::strf("%d.%d.%d.%d", n, k[0], k[1], k[2]));
}

/// A format with width and precision as arguments: '%', optionally '*' and '.*', then a type character.
struct Percent {
  TextView fmt;
  Spec saved;
  int todo = 0; // bit 0 width, bit 1 precision, bit 2 value
  explicit operator bool() const { return todo || !fmt.empty(); }
  bool operator()(std::string_view &literal, Spec &spec)
  {
    if (!todo) {
      literal = fmt.take_prefix_at('%');
      if (fmt.empty()) return false;
      saved        = Spec{};
      saved._align = Spec::Align::RIGHT;
      if (fmt.starts_with("*")) todo |= 1, fmt.remove_prefix(1);
      if (fmt.starts_with(".*")) todo |= 2, fmt.remove_prefix(2);
      todo |= 4;
      saved._type = *fmt;
      fmt.remove_prefix(1);
    }
    spec = Spec{};
    if (todo & 1) {
      spec._type = Spec::CAPTURE_TYPE;
      spec._ext  = "w";
      todo      &= ~1;
    } else if (todo & 2) {
      spec._type = Spec::CAPTURE_TYPE;
      spec._ext  = "p";
      todo      &= ~2;
    } else {
      spec = saved;
      todo = 0;
    }
    return true;
  }
  void capture(BufferWriter &, Spec const &spec, std::any const &value)
  {
    int v = typeid(int *) == value.type() ? *std::any_cast<int *>(value) : *std::any_cast<int const *>(value);
    if (spec._ext == "w") saved._min = v;
    else saved._prec = v;
  }
};
struct NoCapture {
  bool done = false;
  explicit operator bool() const { return !done; }
  bool operator()(std::string_view &, Spec &spec)
  {
    done       = true;
    spec._type = Spec::CAPTURE_TYPE;
    return true;
  }
};

MC_INPUTS(capture, 1, "a custom format extractor that captures arguments")
{
  std::string lit = c.flag() ? "x" : "";
  bool width = c.flag(), prec = c.flag();
  int w_arg = c.choose(7), p_arg = 1 + c.choose(4);
  std::string fmt = lit + "%" + (width ? "*" : "") + (prec ? ".*" : "") + "s" + lit, text = "abc";
  swoc::LocalBufferWriter<100> w;
  auto go = [&](auto const &args) { w.print_nfv(swoc::bwf::NilBinding(), Percent{fmt}, swoc::bwf::ArgTuple{args}); };
  if (width && prec) go(std::forward_as_tuple(w_arg, p_arg, text));
  else if (width) go(std::forward_as_tuple(w_arg, text));
  else if (prec) go(std::forward_as_tuple(p_arg, text));
  else go(std::forward_as_tuple(text));
  Style st;
  st.align = '>';
  if (width) st.min = w_arg;
  if (prec) text = text.substr(0, p_arg);
  std::string want = lit + st.place("", text) + lit;
  MC_CHECK(c, w.view() == want, "%s with %d and %d printed %s, not %s", fmt.c_str(), w_arg, p_arg, mc::show(w.view()).c_str(), want.c_str());
  bool thrown = false;
  try {
    w.print_nfv(swoc::bwf::NilBinding(), NoCapture{}, swoc::bwf::ArgTuple{std::forward_as_tuple(w_arg)});
  } catch (std::runtime_error &) {
    thrown = true;
  }
  MC_CHECK(c, thrown, "capture without support in the extractor was accepted");
  thrown = false;
  try {
    w.print_n(swoc::bwf::NilBinding(), "{name}");
  } catch (std::runtime_error &) {
    thrown = true;
  }
  MC_CHECK(c, thrown, "name without names was accepted");
  c.outcome(fmt + mc::strf("%d/%d", w_arg, p_arg));
}

MC_INPUTS(scale, 2, "long formats of repeated and alternating parts, with long literals, names, widths and extensions")
{
  struct Capacity {
    Capacity() { CAPACITY = MAX_CAPACITY; }
    ~Capacity() { CAPACITY = 600; }
  } capacity;
  static char const *const PARTS[] = {"a", "{{", "}}", "{}", "{0}", "{1:>5}", "{:=+06}", "{n}", "{ctx:^5x}", "{::ext}", "{no}", "LONG", "{0:>300}", "{1:.^257,256}", "NAME", "EXT"};
  static int const COUNT[]         = {1, 3, 10, 33, 130};
  int a = c.choose(16), b = c.choose(16), n = COUNT[c.choose(5)], tail = c.choose(4), len = COUNT[c.choose(5)] * 2;
  std::string fmt;
  auto part = [&](int i) -> std::string {
    std::string p = PARTS[i];
    if (p == "LONG") return std::string(len, 'L');
    if (p == "NAME") return "{" + std::string(len, 'N') + ":>9}";
    if (p == "EXT") return "{1::" + std::string(len, 'x') + "}";
    return p;
  };
  if (len > 2 && a < 14 && b < 14 && a != 11 && b != 11) return c.skip();
  for (int i = 0; i < n; ++i) fmt += part(i % 2 ? b : a);
  static char const *const TAIL[] = {"", "}", "{", "{0"};
  fmt += TAIL[tail];
  if (fmt.size() > 6000) return c.skip();
  c.note("format of %zu characters, %d parts", fmt.size(), n);
  compare(c, fmt, 2, true);
  if (c.thorough) compare(c, fmt, 1, false);
  c.outcome(mc::strf("%d/%d/%d/%d/%d", a, b, n, tail, len));
}

MC_INPUTS(lengths, 2, "literals, names, widths, precisions, maxima and extensions of every length up to 300 (1100) before 10 continuations; up to 600 parts")
{
  struct Capacity {
    Capacity() { CAPACITY = MAX_CAPACITY; }
    ~Capacity() { CAPACITY = 600; }
  } capacity;
  static char const *const NEXT[] = {"", "{}", "{{", "}}", "{{}}", "}", "{", "{0:>3}z", "x{1}", "{:"};
  int kind = c.choose(8), next = c.choose(10), max = c.thorough ? 1100 : 300;
  for (int n = kind == 7 ? 1 : 0; n <= max; ++n) {
    std::string zeros(n, '0');
    std::string fmt;
    switch (kind) {
    case 0: fmt = std::string(n, 'L'); break;
    case 1: fmt = "{" + std::string(n, 'N') + "}"; break;
    case 2: fmt = "{:" + zeros + "7}"; break;
    case 3: fmt = "{1:." + zeros + "1}"; break;
    case 4: fmt = "{1:," + zeros + "1}"; break;
    case 5: fmt = "{1:<3:" + std::string(n, 'x') + "}"; break;
    case 6: fmt = "{" + zeros + "1}"; break;
    case 7:
      if (n > 300) continue;
      for (int i = 0; i < n; ++i) fmt += i % 2 ? "a{1}" : "{ctx}";
      break;
    }
    fmt += NEXT[next];
    compare(c, fmt, 2, true);
    c.step();
  }
  c.outcome(mc::strf("%d/%d", kind, next));
}

MC_INPUTS(many_arguments, 1, "indexes of one and two digits and automatic ones with 13 arguments")
{
  static char const *const SPECS[] = {"{", "{0", "{1", "{2", "{9", "{10", "{11", "{12", "{13", "{012", "{99", "{100", "{2147483647"};
  int a = c.choose(13), b = c.choose(13), fill = c.choose(15);
  std::string fmt = std::string(SPECS[a]) + "}" + std::string(SPECS[b]) + ":>4}", want;
  for (int i = 0; i < fill; ++i) fmt = "{}" + fmt;
  c.note("format %s", fmt.c_str());
  int next   = 0;
  auto value = [&](std::string_view idx, size_t width) {
    unsigned long long i = idx.empty() ? next++ : std::stoull(std::string(idx));
    std::string v        = i < 13 ? std::to_string(1000 * (i % 2) + i) : mc::strf("{BAD_ARG_INDEX:%llu of 13}", i);
    if (v.size() < width) v.insert(0, width - v.size(), ' ');
    want += v;
  };
  for (int i = 0; i < fill; ++i) value("", 0);
  value(SPECS[a] + 1, 0);
  value(SPECS[b] + 1, 4);
  for (int how = 0; how < 3; ++how) {
    char buff[1200];
    FixedBufferWriter w(buff, sizeof(buff));
    try {
      Format compiled{TextView(fmt)};
      if (how == 0) w.print(TextView(fmt), 0, 1001, 2, 1003, 4, 1005, 6, 1007, 8, 1009, 10, 1011, 12);
      else if (how == 1) w.print(compiled, 0, 1001u, 2l, 1003ul, short(4), 1005, "6", std::string("1007"), 8, TextView("1009"), 10, 1011, 12);
      else w.print_v(TextView(fmt), std::forward_as_tuple(0, 1001, 2, 1003, 4, 1005, 6, 1007, 8, 1009, 10, 1011, 12));
    } catch (std::invalid_argument const &) {
      c.fail("%s was rejected", fmt.c_str());
    }
    if (how == 1) continue; // text is aligned left
    MC_CHECK(c, w.view() == want, "%s prints %s, not %s", fmt.c_str(), mc::show(w.view()).c_str(), mc::show(want).c_str());
  }
  c.outcome(fmt);
}
