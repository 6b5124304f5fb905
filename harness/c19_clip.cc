// C19: formatted output into buffers of every size is the cut off full output.
#include "fmt_common.h"
#include <functional>
#include <swoc/ArenaWriter.h>
#include <swoc/Errata.h>
#include <swoc/Lexicon.h>
#include <atomic>
#include <swoc/swoc_file.h>
#include <swoc/Scalar.h>
#include <swoc/bwf_ip.h>
#include <swoc/swoc_ip.h>
using swoc::ArenaWriter;
using swoc::BufferWriter;
using swoc::FixedBufferWriter;
using swoc::MemArena;
using swoc::MemSpan;
using swoc::TextView;
using Job = std::function<void(BufferWriter &)>;

/// Writes in odd ways: single characters, unused space and commit, nested prints.
struct Odd {
  int kind;
};
static swoc::BufferWriter &bwformat(swoc::BufferWriter &w, swoc::bwf::Spec const &spec, Odd const &o)
{
  switch (o.kind) {
  case 0: w.write('o').write('d').write('d'); break;
  case 1: w.print("<{:>4}|{:^5}>", 12, "mid"); break;
  case 2: {
    // Use the unused space directly, if there is enough of it.
    auto span = w.aux_span();
    if (span.size() >= 4) {
      memcpy(span.data(), "aux!", 4);
      w.commit(4);
    } else {
      w.write("aux!", 4);
    }
    break;
  }
  case 3: {
    swoc::bwf::Spec s{spec};
    s._max = ~0u;
    s._min = 3;
    w.write('[').format(s, 5).write("]", 1);
    break;
  }
  default: w.print("{}{:.>3}{{{}}}", Odd{0}, Odd{2}, Odd{1}); break;
  }
  return w;
}
using namespace swoc::literals;

static std::string full_output(Job const &job)
{
  std::string s(4096, '?');
  FixedBufferWriter w(s.data(), s.size());
  job(w);
  return s.substr(0, w.extent());
}

static void check_sizes(mc::Ctx &c, std::string const &what, Job const &job, bool thorough)
{
  std::string full = full_output(job);
  MC_CHECK(c, full.size() < 4096, "harness: output too long");
  {
    FixedBufferWriter m(nullptr);
    job(m);
    MC_CHECK(c, m.extent() == full.size() && m.size() == 0, "%s measured as %zu, not %zu", what.c_str(), m.extent(), full.size());
  }
  for (size_t pre : {size_t(0), size_t(2)}) {
    if (pre && !thorough && full.size() > 40) continue;
    std::string expect = std::string(pre, 'P') + full;
    for (size_t n = 0; n <= expect.size() + 1; ++n) {
      for (size_t held : {size_t(0), size_t(3)}) {
        auto mem = std::make_unique<char[]>(n + held ? n + held : 1);
        memset(mem.get(), '~', n + held ? n + held : 1);
        FixedBufferWriter w(mem.get(), n + held);
        w.restrict(held);
        for (size_t i = 0; i < pre; ++i) w.write('P');
        job(w);
        MC_CHECK(c, w.extent() == expect.size(), "%s in %zu bytes has extent %zu, not %zu", what.c_str(), n, w.extent(), expect.size());
        MC_CHECK(c, w.view() == TextView(expect).prefix(n), "%s in %zu bytes is %s, not the start of %s", what.c_str(), n, mc::show(w.view()).c_str(), mc::show(expect).c_str());
        for (size_t i = 0; i < held; ++i) MC_CHECK(c, mem[n + i] == '~', "%s in %zu bytes wrote %zu bytes behind the restricted capacity", what.c_str(), n, i);
        MC_CHECK(c, w.error() == (expect.size() > n), "%s in %zu bytes error state", what.c_str(), n);
      }
    }
  }
  // Growing writer, with any space left in the arena.
  for (size_t left : {0, 1, 3, 8}) {
    MemArena arena(64);
    arena.alloc(1);
    arena.alloc(arena.remaining() - left);
    ArenaWriter w(arena);
    w.write('A');
    job(w);
    MC_CHECK(c, w.view().size() == full.size() + 1 && w.view().substr(1) == full && w.extent() == full.size() + 1, "%s in an arena is %s, not %s", what.c_str(), mc::show(w.view()).c_str(), mc::show(full).c_str());
  }
}

static std::string const TEXT = "Text of some length";
template <typename T> static Job job_of(std::string const &fmt, T const &value)
{
  return [&fmt, &value](BufferWriter &w) { w.print(TextView(fmt), value); };
}

MC_INPUTS(styles, 2, "core types in every combination of alignment, width, precision, maximum and type")
{
  StyleChoice sc;
  sc.fill_align     = {"", "<", "*>", "^", "="};
  sc.sign           = {"", "+"};
  sc.min            = {"", "7", "23"};
  sc.prec           = {"", ".2"};
  sc.max            = {"", ",0", ",4", ",22"};
  sc.type           = {"", "d", "x", "s"};
  std::string style = sc.choose(c), fmt = "{:" + style + "}";
  c.note("style %s", style.c_str());
  bool t      = c.thorough;
  int i       = -1234567;
  bool b      = true;
  double f    = -3.14159, g = 7e30;
  void *p     = reinterpret_cast<void *>(0x1234abcd);
  std::string empty;
  MemSpan<void const> span{"mem\0ry", 6};
  MemSpan<uint16_t> shorts;
  check_sizes(c, fmt + " of int", job_of(fmt, i), t);
  check_sizes(c, fmt + " of text", job_of(fmt, TEXT), t);
  check_sizes(c, fmt + " of empty text", job_of(fmt, empty), t);
  check_sizes(c, fmt + " of bool", job_of(fmt, b), t);
  check_sizes(c, fmt + " of double", job_of(fmt, f), t);
  check_sizes(c, fmt + " of large double", job_of(fmt, g), t);
  check_sizes(c, fmt + " of pointer", job_of(fmt, p), t);
  if (style.find('x') != style.npos) check_sizes(c, fmt + " of span", job_of(fmt, span), t);
  c.outcome(style);
}

MC_INPUTS(types, 2, "every formattable type in the library, and formatters that write in parts, in several styles")
{
  static char const *const STYLES[] = {"", ":>30", ":^31", ":.<30", ":=30", ":,5", ":*^9,12", ":x", ":#x", ":s", ":S", ":d", ":>12,8s", "::a", "::p", "::f", ":>40:=a", ":^50:0p", "::sl", ":>20:s", "::local"};
  std::string fmt = "{" + std::string(STYLES[c.choose(21)]) + "}";
  std::vector<std::pair<char const *, Job>> jobs;
  static swoc::LocalBufferWriter<30> writer;
  writer.clear().write("content of a writer");
  auto add = [&](char const *name, auto const &v) { jobs.emplace_back(name, [fmt, v](BufferWriter &w) { w.print(TextView(fmt), v); }); };
  for (int k = 0; k < 5; ++k) add("odd writer", Odd{k});
  add("errno", swoc::bwf::Errno(13));
  add("unknown errno", swoc::bwf::Errno(7777));
  add("error code", std::error_code(2, std::system_category()));
  add("pattern", swoc::bwf::Pattern{4, "pat"});
  add("date", swoc::bwf::Date(1500000000));
  add("date with format", swoc::bwf::Date(1500000000, "%H:%M"));
  add("hex dump", swoc::bwf::HexDump("\x01\xff\x80", 3));
  add("unhex", swoc::bwf::UnHex(TextView("4142434445464748")));
  add("IPv4 address", swoc::IP4Addr("192.168.255.7"_tv));
  add("IPv6 address", swoc::IP6Addr("fe80::1234:0:0:ff"_tv));
  add("address", swoc::IPAddr("2001:db8::7"_tv));
  add("invalid address", swoc::IPAddr());
  add("IPv4 range", swoc::IP4Range("10.1.2.3-10.1.255.0"_tv));
  add("IPv4 network range", swoc::IP4Range("10.1.0.0/16"_tv));
  add("IPv6 range", swoc::IP6Range("1::-ffee::1"_tv));
  add("range", swoc::IPRange("172.16.0.0/12"_tv));
  add("IPv4 network", swoc::IP4Net("10.1.0.0/16"_tv));
  add("endpoint", swoc::IPEndpoint("[fe80::1]:8080"_tv));
  add("service", swoc::IPSrv("10.2.3.4:80"_tv));
  add("scalar", swoc::Scalar<1024>(55));
  add("chrono", std::chrono::milliseconds(12345));
  add("bitset", std::bitset<9>(0x155));
  add("IPv4 service", swoc::IP4Srv("10.2.3.4:80"_tv));
  add("IPv6 service", swoc::IP6Srv("[fe80::1]:80"_tv));
  add("IPv6 network", swoc::IP6Net("fe80::/10"_tv));
  add("network", swoc::IPNet("10.128.0.0/9"_tv));
  add("mask", swoc::IPMask(23));
  add("compact IPv6 range", swoc::IP6Range("1::/16"_tv));
  add("empty range", swoc::IPRange());
  add("path", swoc::file::path("/some/path/to.txt"));
  add("empty path", swoc::file::path());
  add("char", 'x');
  add("time point", std::chrono::system_clock::time_point(std::chrono::seconds(1234567)));
  add("severity", swoc::Errata::Severity(1));
  add("numbered severity", swoc::Errata::Severity(17));
  jobs.emplace_back("writer", [fmt](BufferWriter &w) { w.print(TextView(fmt), writer); });
  jobs.emplace_back("array", [fmt](BufferWriter &w) { w.print(TextView(fmt), "an array"); });
  jobs.emplace_back("null pointer", [fmt](BufferWriter &w) { w.print(TextView(fmt), nullptr); });
  jobs.emplace_back("C string", [fmt](BufferWriter &w) { w.print(TextView(fmt), static_cast<char const *>("a C string")); });
  jobs.emplace_back("null C string", [fmt](BufferWriter &w) { w.print(TextView(fmt), static_cast<char const *>(nullptr)); });
  jobs.emplace_back("transformed text", [fmt](BufferWriter &w) { bwformat(w, swoc::bwf::Spec{}, swoc::transform_view_of(&toupper, std::string_view("transformed"))); });
  jobs.emplace_back("atomic", [fmt](BufferWriter &w) {
    std::atomic<long> x{-123456789};
    w.print(TextView(fmt), x);
  });
  jobs.emplace_back("span of numbers", [fmt](BufferWriter &w) {
    static uint16_t const x[] = {1, 256, 0xfffe, 7, 0};
    w.print(TextView(fmt), MemSpan<uint16_t const>(x, 5));
  });
  jobs.emplace_back("socket address", [fmt](BufferWriter &w) {
    swoc::IPEndpoint x("10.20.30.40:5060"_tv);
    w.print(TextView(fmt), &x.sa);
  });
  jobs.emplace_back("lexicon", [fmt](BufferWriter &w) {
    static swoc::Lexicon<int> const x{{{1, {"first", "one"}}, {2, {"second"}}, {30, {"a longer third name"}}}};
    w.print(TextView(fmt), x);
  });
  add("exception", std::runtime_error("went wrong"));
  jobs.emplace_back("if", [fmt](BufferWriter &w) { w.print(TextView(fmt), swoc::bwf::If(true, "[{:>6}:{}]", 77, "x")); });
  jobs.emplace_back("if not", [fmt](BufferWriter &w) { w.print(TextView(fmt), swoc::bwf::If(false, "[{:>6}:{}]", 77, "x")); });
  jobs.emplace_back("errata", [fmt](BufferWriter &w) {
    swoc::Errata e;
    e.note("first {}", 1);
    e.note("second");
    w.print(TextView(fmt), e);
  });
  auto const &job = jobs[c.choose(int(jobs.size()))];
  c.note("%s of %s", fmt.c_str(), job.first);
  check_sizes(c, fmt + " of " + job.first, job.second, c.thorough);
  c.outcome(fmt + job.first);
}

struct Context {
  int n;
};

MC_INPUTS(sequences, 2, "formats of up to four parts, printed with arguments, names, context and as compiled format")
{
  static char const *const PARTS[] = {"lit", "{{", "}}", "{}", "{0:>6}", "{1:^8,7}", "{2:.3,2}", "{7}", "{name}", "{ctx:>5}", "{none}", "{:5}"};
  std::string fmt;
  for (int n = 1 + c.choose(c.thorough ? 4 : 3); n > 0; --n) fmt += PARTS[c.choose(12)];
  int how = c.choose(4);
  c.note("format %s variant %d", fmt.c_str(), how);
  auto gen = [](BufferWriter &w, swoc::bwf::Spec const &) -> BufferWriter & { return w.write("generated", 9); };
  auto ctx = [](BufferWriter &w, swoc::bwf::Spec const &, Context &x) -> BufferWriter & { return w.print("c{}", x.n); };
  switch (how) {
  case 0: check_sizes(c, fmt, [&](BufferWriter &w) { w.print(TextView(fmt), 12, "four", 0.5); }, c.thorough); break;
  case 1: {
    swoc::bwf::Format compiled{TextView(fmt)};
    check_sizes(c, fmt, [&](BufferWriter &w) { w.print(compiled, 12, "four", 0.5); }, c.thorough);
    break;
  }
  case 2: {
    swoc::bwf::ContextNames<Context> names;
    names.assign("name", swoc::bwf::ContextNames<Context>::ExternalGenerator(gen));
    names.assign("ctx", swoc::bwf::ContextNames<Context>::Generator(ctx));
    Context context{42};
    check_sizes(c, fmt, [&](BufferWriter &w) { w.print_nfv(names.bind(context), swoc::bwf::Format::bind(TextView(fmt)), swoc::bwf::ArgTuple{std::forward_as_tuple(12, "four", 0.5)}); }, c.thorough);
    break;
  }
  default: {
    swoc::bwf::ExternalNames names;
    names.assign("name", gen);
    check_sizes(c, fmt, [&](BufferWriter &w) { w.print_n(names.bind(), TextView(fmt)); }, c.thorough);
    break;
  }
  }
  c.outcome(mc::strf("%d", how) + fmt);
}

MC_INPUTS(strings, 2, "printing and appending to strings of every size and capacity")
{
  size_t want  = c.choose(40);
  size_t size  = c.choose(c.thorough ? 40 : 20) * (c.thorough ? 1 : 2);
  size_t extra = c.choose(4) * 9;
  bool append  = c.flag();
  c.note("output of %zu to a string of %zu, reserve %zu", want, size, extra);
  std::string text(want > 3 ? want - 3 : want, 't'), fmt = want > 3 ? "{}<{}" : "{}";
  std::string s;
  s.reserve(size + extra);
  s.assign(size, 'z');
  std::string expect = append ? s : "";
  if (want > 3) expect += "12<" + text;
  else expect += text;
  std::string *r;
  if (want > 3) r = append ? &swoc::bwappend(s, TextView(fmt), 12, text) : &swoc::bwprint(s, TextView(fmt), 12, text);
  else r = append ? &swoc::bwappend(s, TextView(fmt), text) : &swoc::bwprint_v(s, TextView(fmt), std::forward_as_tuple(text));
  MC_CHECK(c, r == &s, "returned another string");
  MC_CHECK(c, s == expect, "%s of %zu to a string of %zu is %s, not %s", append ? "append" : "print", want, size, mc::show(s).c_str(), mc::show(expect).c_str());
  MC_CHECK(c, s.c_str()[s.size()] == 0, "string is not terminated");
  c.outcome(mc::strf("%zu/%zu/%zu/%d", want, size, extra, append));
}

template <size_t N> static void local(mc::Ctx &c, std::string const &style, std::string const &value)
{
  std::string fmt = "{:" + style + "}";
  struct {
    unsigned char front[16];
    swoc::LocalBufferWriter<N> w;
    unsigned char back[32];
  } s;
  memset(s.front, 0xA5, sizeof(s.front));
  memset(s.back, 0x5A, sizeof(s.back));
  std::string full = full_output(job_of(fmt, value));
  s.w.print(TextView(fmt), value);
  MC_CHECK(c, s.w.extent() == full.size() && s.w.view() == TextView(full).prefix(N), "%s in a local buffer of %zu is %s of %zu", fmt.c_str(), N, mc::show(s.w.view()).c_str(), s.w.extent());
  // Printing a writer prints its content.
  std::string again;
  swoc::bwprint(again, "{}", s.w.view());
  MC_CHECK(c, again == full.substr(0, N), "view of the local writer prints as %s", again.c_str());
  for (auto b : s.front) MC_CHECK(c, b == 0xA5, "%s wrote in front of the writer", fmt.c_str());
  for (auto b : s.back) MC_CHECK(c, b == 0x5A, "%s wrote behind the writer", fmt.c_str());
}

MC_INPUTS(locals, 1, "writers with internal buffers of several sizes")
{
  StyleChoice sc;
  sc.min            = {"", "3", "6", "8", "11"};
  sc.sign           = {""};
  sc.type           = {"", "s", "x"};
  std::string style = sc.choose(c);
  int len           = c.choose(9);
  std::string value(len, 'v');
  local<1>(c, style, value);
  local<2>(c, style, value);
  local<5>(c, style, value);
  local<8>(c, style, value);
  c.outcome(style + std::to_string(len));
}

MC_INPUTS(scale, 2, "wide fields, long text, long dumps and deep errata, into every size of buffer")
{
  static char const *const ALIGN[] = {"", "*>", ".^", "="};
  static char const *const MIN[]   = {"", "130", "255", "256", "700"};
  static char const *const MAX[]   = {"", ",64", ",255", ",256", ",257"};
  static char const *const TYPE[]  = {"", "x", "S"};
  int a = c.choose(4), m = c.choose(5), x = c.choose(5), t = c.choose(3);
  std::string style = std::string(ALIGN[a]) + MIN[m] + MAX[x] + TYPE[t], fmt = "{:" + style + "}";
  c.note("style %s", style.c_str());
  static size_t const LENGTH[] = {3, 127, 255, 256, 257, 400};
  std::string text(c.pick(LENGTH), 't');
  for (size_t i = 0; i < text.size(); ++i) text[i] = char('a' + i * 7 % 26);
  check_sizes(c, fmt + " of long text", job_of(fmt, text), false);
  check_sizes(c, "literal and " + fmt, [&](BufferWriter &w) { w.print(TextView(text + "{{" + fmt + "{}"), text.size(), 'z'); }, false);
  if (text.size() == 127 || text.size() == 256) {
    MemSpan<void const> span{text.data(), text.size()};
    check_sizes(c, fmt + " of span", job_of(fmt, span), false);
    check_sizes(c, fmt + " of hex dump", job_of(fmt, swoc::bwf::HexDump(text.data(), text.size())), false);
    check_sizes(c, fmt + " of pattern", job_of(fmt, swoc::bwf::Pattern{int(text.size()), "#-"}), false);
    check_sizes(c, fmt + " of errata", [&](BufferWriter &w) {
      swoc::Errata e;
      for (int i = 0; i < 12; ++i) e.note("note {} of {}", i, TextView(text).prefix(20));
      swoc::Errata outer;
      outer.note(e);
      outer.note(TextView(text));
      w.print(TextView(fmt), outer);
    }, false);
  }
  c.outcome(style + std::to_string(text.size()));
}

MC_INPUTS(string_scale, 1, "printing and appending long output to strings")
{
  static size_t const SIZES[] = {0, 15, 16, 127, 255, 256, 257, 1000, 4096, 70000};
  size_t want = SIZES[c.choose(10)], size = SIZES[c.choose(10)];
  bool append = c.flag(), reserve = c.flag();
  c.note("output of %zu to a string of %zu", want, size);
  std::string text(want, 't'), s;
  for (size_t i = 0; i < want; ++i) text[i] = char('a' + i * 7 % 26);
  if (reserve) s.reserve(size + want + 8);
  s.assign(size, 'z');
  std::string expect = append ? s : "";
  expect += text + ">";
  if (append) swoc::bwappend(s, "{}>", text);
  else swoc::bwprint(s, "{}>", text);
  MC_CHECK(c, s == expect, "%s of %zu to a string of %zu is %s of size %zu", append ? "append" : "print", want, size, mc::show(s.substr(0, 20)).c_str(), s.size());
  c.outcome(mc::strf("%zu/%zu/%d/%d", want, size, append, reserve));
}
