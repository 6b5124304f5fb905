// C25: errata and results with errata against plain lists of annotations.
#include <algorithm>
#include <map>
#include <functional>
#include "text_common.h"
#include <memory>
#include <optional>
#include <sstream>
#include <swoc/Errata.h>
#include <swoc/bwf_std.h>
using swoc::Errata;
using swoc::Rv;
using swoc::TextView;
using Severity = Errata::Severity;

struct Category : std::error_category {
  char const *name() const noexcept override { return "test"; }
  std::string message(int v) const override { return v == 1 ? "One" : "Two"; }
} static category;
static std::error_code code(int v) { return v ? std::error_code(v, category) : std::error_code(); }

struct Note {
  std::string text;
  int severity; // -1 for none
  int level;
  bool operator==(Note const &that) const { return text == that.text && severity == that.severity && level == that.level; }
};

struct Model {
  bool content = false;
  int severity = -1, code = 0;
  std::vector<Note> notes;
  std::string glue = "\n", annotation_severity_glue = ": ", severity_glue = ": ", indent = "  ";
  bool final_glue = true;

  void update(int s) { content = true, severity = std::max(severity, s); }
  void note(std::string const &text, int s = -1)
  {
    if (s >= 0) update(s);
    if (s < 0 || s >= Errata::FILTER_SEVERITY) notes.push_back({text, s, 0}), content = true;
  }
  void append(Model const &that)
  {
    if (!that.content) return;
    content = true;
    if (that.severity >= 0) update(that.severity);
    std::vector<Note> from = that.notes;
    for (auto n : from) ++n.level, notes.push_back(n);
  }
  int eff_severity() const { return severity < 0 ? Errata::DEFAULT_SEVERITY : severity; }
  bool ok() const { return !content || eff_severity() < Errata::FAILURE_SEVERITY; }
  static std::string name(int s)
  {
    static char const *const NAMES[] = {"Info", "Warning", "Error"};
    return s < 3 ? NAMES[s] : std::to_string(s);
  }
  std::string print() const
  {
    std::string z;
    if (severity >= 0) z += name(severity) + severity_glue;
    if (code) z += mc::strf("[test %d] ", code), z = z;
    bool trail = false;
    for (auto const &n : notes) {
      if (n.text.empty()) continue;
      if (trail) z += glue;
      for (int i = 0; i < n.level; ++i) z += indent;
      if (n.severity >= 0) z += name(n.severity) + annotation_severity_glue;
      z += n.text;
      trail = true;
    }
    if (trail && final_glue) z += glue;
    return z;
  }
  std::string canon() const
  {
    std::string z = mc::strf("%d %d %d:", content, severity, code);
    for (auto const &n : notes) z += mc::strf("%s/%d/%d,", n.text.substr(0, 8).c_str(), n.severity, n.level);
    return z;
  }
};

/// What the sinks got.
struct Received {
  int sink;
  std::vector<Note> notes;
  int severity, code;
  bool operator==(Received const &that) const { return sink == that.sink && notes == that.notes && severity == that.severity && code == that.code; }
};
static std::vector<Received> RECEIVED;
static std::vector<Note> notes_of(Errata const &e)
{
  std::vector<Note> z;
  for (auto const &n : e) z.push_back({std::string(n.text()), n.has_severity() ? int(n.severity()) : -1, n.level()});
  return z;
}
static std::function<void(int, Errata const &)> REACT; // what a sink does beyond that
static void receive(int sink, Errata const &e)
{
  RECEIVED.push_back({sink, notes_of(e), e.has_severity() ? int(e.severity()) : -1, e.code().value()});
  if (REACT) REACT(sink, e);
}
struct ClassSink : Errata::Sink {
  void operator()(Errata const &e) const override { receive(0, e); }
};
static void prepare()
{
  static bool once = [] {
    Errata::register_sink(std::make_shared<ClassSink>());
    Errata::SinkHandler handler = [](Errata const &e) { receive(1, e); };
    Errata::register_sink(handler);
    handler = nullptr; // the sink has its own copy
    Errata::register_sink([](Errata const &e) { receive(2, e); });
    return true;
  }();
  (void)once;
  RECEIVED.clear();
  Errata::DEFAULT_SEVERITY = Severity(2);
  Errata::FAILURE_SEVERITY = Severity(2);
  Errata::FILTER_SEVERITY  = Severity(0);
}
/// What the sinks should have got.
static void sunk(std::vector<Received> &expected, Model &m)
{
  if (m.content)
    for (int i : {0, 1, 2}) expected.push_back({i, m.notes, m.severity, m.code});
  m = Model{};
}

static std::string fix_code(std::string s, int code)
{
  // The code is printed by the code formatter, not by the errata.
  std::string from = mc::strf("[test %d] ", code), to;
  if (auto at = s.find(from); code && at != s.npos) {
    swoc::bwprint(to, "[{0:s} {0:d}] ", ::code(code));
    s.replace(at, from.size(), to);
  }
  return s;
}

static void check(mc::Ctx &c, char const *name, Errata &e, Model const &m, bool print = true)
{
  Errata const &k = e;
  auto got        = notes_of(e);
  MC_CHECK(c, k.length() == m.notes.size() && k.empty() == m.notes.empty(), "%s: length is %zu, empty is %d, expected %zu notes", name, k.length(), k.empty(), m.notes.size());
  MC_CHECK(c, got.size() == m.notes.size(), "%s: iteration finds %zu notes, expected %zu", name, got.size(), m.notes.size());
  for (size_t i = 0; i < got.size(); ++i)
    MC_CHECK(c, got[i] == m.notes[i], "%s: note %zu is %s severity %d level %d, expected %s severity %d level %d", name, i, mc::show(got[i].text).c_str(), got[i].severity, got[i].level, mc::show(m.notes[i].text).c_str(), m.notes[i].severity, m.notes[i].level);
  if (!got.empty()) MC_CHECK(c, std::string(k.front().text()) == got.front().text && std::string(k.back().text()) == got.back().text && &k.front() == &*e.begin(), "%s: front or back", name);
  for (auto const &n : k) MC_CHECK(c, n.severity(Severity(9)) == (n.has_severity() ? n.severity()._raw : 9), "%s: severity with default", name);
  MC_CHECK(c, k.has_severity() == (m.severity >= 0) && k.severity() == m.eff_severity(), "%s: severity is %d (%sset), expected %d", name, int(k.severity()), k.has_severity() ? "" : "not ", m.severity);
  MC_CHECK(c, k.code() == code(m.code), "%s: code is %d, expected %d", name, k.code().value(), m.code);
  MC_CHECK(c, k.is_ok() == m.ok() && static_cast<bool>(k) == m.ok() && !k == !m.ok(), "%s: is_ok is %d, severity %d failure %d", name, k.is_ok(), m.severity, int(Errata::FAILURE_SEVERITY));
  MC_CHECK(c, k.annotation_glue_text() == m.glue && k.annotation_severity_glue_text() == m.annotation_severity_glue && k.severity_glue_text() == m.severity_glue && k.indent_text() == m.indent, "%s: glue", name);
  if (!print) return;
  std::string text, want = fix_code(m.print(), m.code);
  swoc::bwprint(text, "{}", k);
  MC_CHECK(c, text == want, "%s prints %s, expected %s", name, mc::show(text).c_str(), mc::show(want).c_str());
}
static void check_sinks(mc::Ctx &c, std::vector<Received> const &expected)
{
  MC_CHECK(c, RECEIVED.size() == expected.size(), "sinks were called %zu times, expected %zu", RECEIVED.size(), expected.size());
  for (size_t i = 0; i < expected.size(); ++i) MC_CHECK(c, RECEIVED[i] == expected[i], "call %zu of a sink got %zu notes, severity %d, expected %zu notes, severity %d", i, RECEIVED[i].notes.size(), RECEIVED[i].severity, expected[i].notes.size(), expected[i].severity);
}

static std::unique_ptr<Errata> construct(int form, Model &m, int sev, int cd)
{
  Severity s{Errata::severity_type(sev)};
  Exact text("{} text");
  std::error_code ec = code(cd);
  m                  = Model{};
  m.content          = form != 0;
  std::string auto_code, auto_sev = Model::name(sev);
  swoc::bwprint(auto_code, "{}", ec);
  auto set = [&](int s, int c, std::optional<std::string> t) {
    m.severity = s, m.code = c;
    if (t) m.note(*t);
  };
  int d = Errata::DEFAULT_SEVERITY;
  switch (form) {
  case 0: return std::make_unique<Errata>();
  case 1: set(-1, cd, {}); return std::make_unique<Errata>(ec);
  case 2: set(-1, cd, auto_code); return std::make_unique<Errata>(ec, Errata::AUTO);
  case 3: set(sev, 0, {}); return std::make_unique<Errata>(s);
  case 4: set(sev, 0, auto_sev); return std::make_unique<Errata>(s, Errata::AUTO);
  case 5: set(sev, cd, {}); return std::make_unique<Errata>(ec, s);
  case 6: set(sev, cd, auto_sev + ": " + auto_code); return std::make_unique<Errata>(ec, s, Errata::AUTO);
  case 7: set(sev, cd, "{} text"); return std::make_unique<Errata>(ec, s, text.sv());
  case 8: set(sev, 0, "{} text"); return std::make_unique<Errata>(s, text.sv());
  case 9: set(d, cd, "{} text"); return std::make_unique<Errata>(ec, text.sv());
  case 10: set(d, 0, "{} text"); return std::make_unique<Errata>(text.sv());
  case 11: set(sev, cd, "7 text"); return std::make_unique<Errata>(ec, s, text.sv(), 7);
  case 12: set(d, cd, "7 text"); return std::make_unique<Errata>(ec, text.sv(), 7);
  case 13: set(sev, 0, "x text"); return std::make_unique<Errata>(s, text.sv(), "x");
  default: set(d, 0, "x text"); return std::make_unique<Errata>(text.sv(), "x");
  }
}

MC_INPUTS(constructors, 1, "all constructors with all severities, codes and settings, printed and sunk")
{
  prepare();
  int form = c.choose(15), sev = c.choose(5), cd = c.choose(3), deflt = c.choose(4), fail = c.choose(4), filter = c.choose(4);
  Errata::DEFAULT_SEVERITY = Severity(deflt);
  Errata::FAILURE_SEVERITY = Severity(fail);
  Errata::FILTER_SEVERITY  = Severity(filter);
  Model m;
  std::vector<Received> expected;
  auto e = construct(form, m, sev, cd);
  check(c, "errata", *e, m);
  std::ostringstream s;
  s << *e;
  MC_CHECK(c, s.str() == fix_code(m.print(), m.code), "streaming");
  Errata moved(std::move(*e));
  check(c, "moved", moved, m);
  check(c, "source", *e, Model{});
  Errata other("other");
  Model mo;
  mo.severity = deflt, mo.note("other");
  MC_CHECK(c, RECEIVED.empty(), "sinks were called");
  other = std::move(moved); // discards the content, without a call of sinks
  check(c, "assigned", other, m);
  e.reset();
  check_sinks(c, expected);
  other.sink();
  sunk(expected, m);
  check_sinks(c, expected);
  check(c, "sunk", other, Model{});
  c.outcome(mc::strf("%d %d %d %d %d %d", form, sev, cd, deflt, fail, filter));
}

MC_HISTORIES(sequences, 2, "all sequences of notes, appends, moves, clears, sinks and destruction over two errata")
{
  prepare();
  int setting              = c.choose(3);
  Errata::DEFAULT_SEVERITY = Severity(std::array{2, 3, 0}[setting]);
  Errata::FAILURE_SEVERITY = Severity(std::array{2, 1, 1}[setting]);
  Errata::FILTER_SEVERITY  = Severity(std::array{0, 2, 1}[setting]);
  std::unique_ptr<Errata> e[2]{std::make_unique<Errata>(), std::make_unique<Errata>()};
  Model m[2];
  std::vector<Received> expected;
  int depth = c.thorough ? 5 : setting == 1 ? 4 : 3;
  for (int d = 0; d < depth; ++d) {
    int i = c.choose(2), op = c.choose(21), j = 1 - i;
    Errata &a = *e[i], &b = *e[j];
    std::string text = i ? "q" : "p"; // not by step, to have few states
    Exact x(text);
    c.note("operation %d on %d", op, i);
    Errata *r = &a;
    switch (op) {
    case 0: r = &a.note(x.sv()), m[i].note(text); break;
    case 1: r = &a.note(Severity(0), x.sv()), m[i].note(text, 0); break;
    case 2: r = &a.note(Severity(1), x.sv()), m[i].note(text, 1); break;
    case 3: r = &a.note(Severity(3), "{}-{}", x.sv(), d), m[i].note(mc::strf("%s-%d", text.c_str(), d), 3); break;
    case 4: r = &a.note("{:>600}", x.sv()), m[i].note(std::string(600 - text.size(), ' ') + text); break;
    case 5: {
      r = &a.note(code(1));
      std::string t;
      swoc::bwprint(t, "{}", code(1));
      m[i].note(t);
      break;
    }
    case 6: {
      r = &a.note(code(2), Severity(2));
      std::string t;
      swoc::bwprint(t, "{}", code(2));
      m[i].note("Error: " + t, 2);
      break;
    }
    case 7: r = &a.note(Severity(1)), m[i].note("Warning", 1); break;
    case 8: r = &a.note(b), m[i].append(m[j]); break;
    case 9: r = &a.note(std::move(b)), m[i].append(m[j]), m[j] = Model{}; break;
    case 10: r = &(a = std::move(b)), m[i] = m[j], m[j] = Model{}; break;
    case 11: {
      auto n = std::make_unique<Errata>(std::move(b));
      m[i]   = m[j];
      m[j]   = Model{};
      e[i]->clear(); // nothing to sink
      e[i] = std::move(n);
      r    = e[i].get();
      break;
    }
    case 12: r = &a.clear(), m[i] = Model{}; break;
    case 13: r = &a.sink(), sunk(expected, m[i]); break;
    case 14:
      e[i].reset();
      sunk(expected, m[i]);
      e[i] = construct(c.thorough ? 1 + c.choose(8) : 1 + c.choose(2) * 6, m[i], 1, 2);
      r    = e[i].get();
      break;
    case 15: {
      int u = c.flag() ? 2 : 0;
      r = &a.update(Severity(u)), m[i].update(u);
      break;
    }
    case 16: r = &a.assign(Severity(1)), m[i].content = true, m[i].severity = 1; break;
    case 17: r = &a.assign(code(1)), m[i].content = true, m[i].code = 1; break;
    case 18: r = &a.note(""), m[i].note(""); break;
    case 19: r = &a.note(a), m[i].append(Model(m[i])); break;
    case 20: { // change the notes in place
      int n = 0;
      for (auto it = a.begin(); it != a.end(); ++it, ++n) {
        if (n == 0) it->assign(Severity(3)), m[i].notes[0].severity = 3;
        else if (n == 2) it->clear(), m[i].notes[2].text.clear(), it->assign(Severity(0)), m[i].notes[2].severity = 0;
      }
      break;
    }
    }
    MC_CHECK(c, r == e[i].get(), "operation %d returned another errata", op);
    c.step();
    check_sinks(c, expected);
    check(c, "first", *e[0], m[0], d == depth - 1 && i == 0);
    check(c, "second", *e[1], m[1], d == depth - 1 && i == 1);
    std::string canon = mc::strf("%d ", setting) + m[0].canon() + " | " + m[1].canon();
    c.state(canon);
    if (d + 1 < depth) c.prune(canon, depth - d - 1);
  }
  e[0].reset();
  sunk(expected, m[0]);
  e[1].reset();
  sunk(expected, m[1]);
  check_sinks(c, expected);
}

MC_INPUTS(lengths, 1, "notes of all lengths around the internal blocks, formatted and plain")
{
  prepare();
  int n = c.choose(c.thorough ? 1200 : 600);
  for (int m = 0; m < 1100; m += (c.thorough || m < 12 || (m > 160 && m < 520) ? 1 : 37)) {
    Errata e;
    std::string t1(n, 'a'), t2(m, 'b'), t3(9, 'c');
    Exact x1(t1), x2(t2), x3(t3);
    e.note("{}", x1.sv()).note("{}", x2.sv()).note(x3.sv()).note(Severity(0), "<{}>", x2.sv()).note(x1.sv());
    Model k;
    k.note(t1), k.note(t2), k.note(t3), k.note("<" + t2 + ">", 0), k.note(t1);
    check(c, "errata", e, k, false);
    e.clear();
  }
  c.outcome(std::to_string(n));
}

MC_INPUTS(printed, 1, "printing with all glue texts, levels and severities of notes")
{
  prepare();
  Errata e;
  Model m;
  static char const *const GLUES[] = {nullptr, "", "+", "<<>>"};
  int n = c.choose(c.thorough ? 4 : 3), g = c.choose(4), fin = c.choose(2), sg = c.choose(4), ag = c.choose(4), ind = c.choose(4), when = c.choose(2);
  auto glue = [&] {
    if (GLUES[g]) e.assign_annotation_glue_text(TextView(Exact(GLUES[g]).sv()), fin), m.glue = GLUES[g], m.final_glue = fin, m.content = true;
    if (GLUES[sg]) e.assign_severity_glue_text(TextView(Exact(GLUES[sg]).sv())), m.severity_glue = GLUES[sg], m.content = true;
    if (GLUES[ag]) e.assign_annotation_severity_glue_text(TextView(Exact(GLUES[ag]).sv())), m.annotation_severity_glue = GLUES[ag], m.content = true;
    if (GLUES[ind]) e.assign_indent_text(TextView(Exact(GLUES[ind]).sv())), m.indent = GLUES[ind], m.content = true;
  };
  if (when == 0) glue();
  for (int i = 0; i < n; ++i) {
    Errata inner;
    Model mi;
    int depth = c.choose(3), kind = c.choose(4);
    if (kind == 0) inner.note("plain"), mi.note("plain");
    if (kind == 1) inner.note(Severity(1), "warn"), mi.note("warn", 1);
    if (kind == 2) inner.note(""), mi.note("");
    if (kind == 3) inner.note(Severity(7), "seven"), mi.note("seven", 7);
    for (; depth > 0; --depth) {
      Errata outer;
      Model mo;
      outer.note(std::move(inner)), mo.append(mi);
      inner = std::move(outer), mi = mo;
    }
    e.note(inner), m.append(mi);
    inner.clear();
  }
  if (when == 1) glue();
  check(c, "errata", e, m);
  std::ostringstream s;
  s << e;
  MC_CHECK(c, s.str() == m.print(), "streamed %s", mc::show(s.str()).c_str());
  e.clear();
  c.outcome(m.print());
}

MC_INPUTS(names, 1, "severity names of all table sizes for all severities")
{
  prepare();
  static TextView const TABLE[] = {"zero", "one", "two", "three"};
  auto saved                    = Errata::SEVERITY_NAMES;
  int n = c.choose(5), s = c.choose(256);
  Errata::SEVERITY_NAMES = swoc::MemSpan<TextView const>(TABLE, n);
  std::string got, want = s < n ? std::string(TABLE[s]) : std::to_string(s);
  swoc::bwprint(got, "{}", Severity(s));
  Errata e(Severity(s), Errata::AUTO);
  std::string note{e.front().text()};
  e.clear();
  Errata::SEVERITY_NAMES = saved;
  MC_CHECK(c, got == want && note == want, "severity %d of %d names prints %s and %s", s, n, got.c_str(), note.c_str());
  c.outcome(mc::strf("%d %d", n, s));
}

template <typename R, typename Make, typename Get> static void results(mc::Ctx &c, Make make, Get get)
{
  prepare();
  using RV = Rv<R>;
  std::unique_ptr<RV> rv;
  Model m;
  std::vector<Received> expected;
  int value = 0;
  switch (c.choose(6)) {
  case 0: rv = std::make_unique<RV>(), *rv = make(0); break;
  case 1: rv = std::make_unique<RV>(make(1)), value = 1; break;
  case 2: rv = std::make_unique<RV>(make(2), Errata(Severity(1), "ctor")), value = 2, m.update(1), m.note("ctor"); break;
  case 3: rv = std::make_unique<RV>(Errata("only")), *rv = make(3), value = 3, m.update(2), m.note("only"); break;
  case 4: rv = std::make_unique<RV>(swoc::MakeRv(make(4), Errata(code(2), Severity(3), "made"))), value = 4, m.update(3), m.code = 2, m.note("made"); break;
  case 5: {
    RV src{make(5), Errata("moved")};
    rv    = std::make_unique<RV>(std::move(src));
    value = 5, m.update(2), m.note("moved");
    MC_CHECK(c, src.errata().empty(), "moved result keeps notes");
  }
  }
  int depth = c.thorough ? 5 : 4;
  for (int d = 0; d <= depth; ++d) {
    c.step();
    MC_CHECK(c, get(rv->result()) == value && get(static_cast<RV const &>(*rv).result()) == value && get(static_cast<R const &>(*rv)) == value, "result is %d, expected %d", get(rv->result()), value);
    check(c, "errata", rv->errata(), m, false);
    check(c, "errata", static_cast<Errata &>(*rv), m, false);
    MC_CHECK(c, &static_cast<RV const &>(*rv).errata() == &rv->errata() && rv->is_ok() == m.ok(), "errata or status");
    {
      auto &[r, err]         = *rv;
      auto const &[kr, kerr] = static_cast<RV const &>(*rv);
      MC_CHECK(c, &r == &rv->result() && &err == &rv->errata() && &kr == &r && &kerr == &err, "structured binding");
    }
    check_sinks(c, expected);
    c.state(mc::strf("%d ", value) + m.canon());
    if (d == depth) break;
    int op = c.choose(16), v = 10 + d;
    c.note("operation %d", op);
    RV *r = rv.get();
    switch (op) {
    case 0: {
      R &x = (*rv = make(v));
      MC_CHECK(c, &x == &rv->result(), "assignment of a result returns another result");
      value = v;
      break;
    }
    case 1: r = &rv->assign(make(v)), value = v; break;
    case 2: r = &(*rv = Errata(Severity(1), "assigned")), m = Model{}, m.update(1), m.note("assigned"); break;
    case 3: r = &rv->note("text"), m.note("text"); break;
    case 4: r = &rv->note(Severity(1), "sev"), m.note("sev", 1); break;
    case 5: r = &rv->note("{}!", v), m.note(mc::strf("%d!", v)); break;
    case 6: r = &rv->note(Severity(3), "{}?", v), m.note(mc::strf("%d?", v), 3); break;
    case 7: {
      std::string t;
      swoc::bwprint(t, "{}", code(1));
      r = &rv->note(code(1)), m.note(t);
      break;
    }
    case 8: {
      std::string t;
      swoc::bwprint(t, "{}", code(2));
      r = &rv->note(code(2), Severity(1)), m.note("Warning: " + t, 1);
      break;
    }
    case 9: {
      Errata e(Severity(1), "other");
      Model me;
      me.update(1), me.note("other");
      r = &rv->note(e), m.append(me);
      check(c, "copied errata", e, me);
      e.clear();
      break;
    }
    case 10: {
      Errata e(Severity(3), "other");
      Model me;
      me.update(3), me.note("other");
      r = &rv->note(std::move(e)), m.append(me);
      check(c, "moved errata", e, Model{});
      break;
    }
    case 11: r = &rv->clear(), m = Model{}; break;
    case 12: rv->errata().sink(), sunk(expected, m); break;
    case 13: {
      RV other{std::move(*rv)};
      rv = std::make_unique<RV>(std::move(other));
      r  = rv.get();
      break;
    }
    case 14: rv->result() = make(v), value = v; break;
    case 15: {
      Errata out{std::move(rv->errata())};
      check(c, "taken errata", out, m);
      out.sink();
      sunk(expected, m);
      break;
    }
    }
    MC_CHECK(c, r == rv.get(), "operation %d returned another object", op);
  }
  rv.reset();
  sunk(expected, m);
  check_sinks(c, expected);
}

MC_HISTORIES(value_results, 2, "all sequences of operations on a result of value type with errata")
{
  results<int>(c, [](int x) { return x; }, [](int const &x) { return x; });
}
MC_HISTORIES(handle_results, 2, "all sequences of operations on a move only result with errata")
{
  results<std::unique_ptr<int>>(c, [](int x) { return std::make_unique<int>(x); }, [](std::unique_ptr<int> const &x) { return x ? *x : -1; });
}

MC_INPUTS(scale, 2, "many and long notes, appended to each other to deep nesting, moved, changed, printed and sunk")
{
  prepare();
  static int const COUNT[] = {0, 1, 2, 7, 60, 300}, LENGTH[] = {0, 1, 200, 255, 256, 3000, 9000}, DEPTH[] = {0, 1, 2, 9, 40};
  int n = c.pick(COUNT), extra = c.pick(COUNT), len = c.pick(LENGTH), depth = c.pick(DEPTH), how = c.choose(4);
  if (long(n + extra) * len > 400000 || long(depth) * extra * len > 400000) return c.skip();
  c.note("%d notes of up to %d, %d more, depth %d, variant %d", n, len, extra, depth, how);
  std::vector<Received> expected;
  auto fill = [&](Errata &e, Model &m, int k, char base) {
    for (int i = 0; i < k; ++i) {
      std::string t(i % 3 ? size_t(len) : size_t(i % 50), char(base + i % 20));
      Exact x(t);
      switch (i % 4) {
      case 0: e.note(x.sv()), m.note(t); break;
      case 1: e.note(Severity(i / 4 % 4), x.sv()), m.note(t, i / 4 % 4); break;
      case 2: e.note("{}:{}", i, x.sv()), m.note(mc::strf("%d:", i) + t); break;
      default: e.note(Severity(1), "{:>20}", x.sv()), m.note(std::string(t.size() < 20 ? 20 - t.size() : 0, ' ') + t, 1); break;
      }
    }
  };
  auto e = std::make_unique<Errata>(), f = std::make_unique<Errata>();
  Model me, mf;
  fill(*e, me, n, 'a');
  for (int d = 0; d < depth; ++d) {
    fill(*f, mf, d % 2 ? 1 : extra / (d + 1), 'A');
    if (how == 0) f->note(*e), mf.append(me), e->clear();
    else if (how == 1) f->note(std::move(*e)), mf.append(me);
    else if (how == 2) {
      Errata t(std::move(*e));
      f->note(t), mf.append(me);
      *e = std::move(t), e->clear();
    } else {
      f->note(std::move(*e)), mf.append(me);
      e->note("left behind").clear();
    }
    me = Model{};
    if (d % 10 == 0) check(c, "source", *e, me);
    std::swap(e, f);
    std::swap(me, mf);
  }
  fill(*e, me, extra, 'n');
  check(c, "errata", *e, me);
  Errata moved(std::move(*e));
  check(c, "moved", moved, me, false);
  check(c, "source", *e, Model{});
  moved.note(moved); // doubles
  me.append(Model(me));
  check(c, "doubled", moved, me);
  int i = 0;
  for (auto &a : moved) {
    if (i % 7 == 3) a.assign(Severity(3)), me.notes[i].severity = 3;
    ++i;
  }
  check(c, "changed", moved, me, false);
  moved.sink();
  sunk(expected, me);
  check_sinks(c, expected);
  check(c, "sunk", moved, Model{});
  c.outcome(mc::strf("%d %d %d %d %d", n, extra, len, depth, how));
}

MC_INPUTS(busy_sinks, 2, "sinks that create and drop errata, copy the one received, or register more sinks while they are called")
{
  prepare();
  REACT     = nullptr;
  int which = c.choose(4), what = c.choose(7), by_clear = c.flag(), notes = c.choose(3);
  static int const MORE[] = {1, 2, 3, 8, 40};
  c.note("sink %d reacts with %d", which, what);
  auto alive = std::make_shared<bool>(true);
  int added  = 0;
  std::vector<Received> expected;
  auto make = [&](Model &m, char const *text) {
    auto e = std::make_unique<Errata>(Severity(1));
    m = Model{}, m.content = true, m.severity = 1;
    for (int i = 0; i < notes; ++i) e->note(Severity(i), "{} {}", text, i), m.note(mc::strf("%s %d", text, i), i);
    return e;
  };
  auto drop = [&](std::unique_ptr<Errata> &e) {
    if (by_clear) e->sink();
    e.reset();
  };
  Model mx, my, mn;
  bool inside = false;
  auto x      = make(mx, "x");
  REACT       = [&](int sink, Errata const &e) {
    if (inside || sink >= 3 || !(sink == which || which == 3)) return;
    inside = true;
    if (what == 0) {
      auto n = make(mn, "nested");
      drop(n);
    } else if (what == 1) {
      Errata n;
      n.note(e);
    } else {
      for (int i = 0; i < MORE[what - 2]; ++i, ++added)
        Errata::register_sink([alive, id = 3 + added](Errata const &e) {
          if (*alive) receive(id, e);
        });
    }
    inside = false;
  };
  for (int i : {0, 1, 2}) {
    expected.push_back({i, mx.notes, mx.severity, mx.code});
    if (which != i && which != 3) continue;
    Model m;
    if (what == 0) make(m, "nested")->clear();
    if (what == 1) m.append(mx), m.content = true;
    if (what < 2)
      for (int j : {0, 1, 2}) expected.push_back({j, m.notes, m.severity, m.code});
  }
  drop(x);
  auto old = [&] { // without the sinks added meanwhile, each of which is called once at most
    std::map<int, int> calls;
    std::vector<Received> z;
    for (auto &r : RECEIVED)
      if (r.sink < 3) z.push_back(r);
      else MC_CHECK(c, ++calls[r.sink] == 1 && r.notes == mx.notes, "calls of a sink added meanwhile");
    RECEIVED = z;
  };
  old();
  check_sinks(c, expected);
  REACT = nullptr;
  RECEIVED.clear();
  expected.clear();
  auto y = make(my, "y");
  for (int i = 0; i < 3 + added; ++i) expected.push_back({i, my.notes, my.severity, my.code});
  drop(y);
  *alive = false;
  std::stable_sort(RECEIVED.begin(), RECEIVED.end(), [](auto &a, auto &b) { return a.sink < b.sink; });
  check_sinks(c, expected);
  c.outcome(mc::strf("%d %d %d %d", which, what, by_clear, notes));
}
