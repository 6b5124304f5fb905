// C32: operations on files.
#include "fs_common.h"
#include <swoc/swoc_file.h>

namespace sf = swoc::file;

struct Op {
  enum Kind { LOAD, REMOVE, REMOVE_ALL, MKDIR, MKDIRS, COPY } kind;
  string p, q;
  mode_t mode = 0775;
  string text() const
  {
    static char const *const N[] = {"load", "remove", "remove_all", "create_directory", "create_directories", "copy"};
    return mc::strf("%s %s %s %o", N[kind], mc::show(p).c_str(), mc::show(q).c_str(), mode);
  }
};
/// What an operation has to do; the model is changed as if there were no fault.
struct Want {
  bool ok = false, either = false; // EITHER: the result is not specified
  string content;                  // of a loaded file
  uintmax_t count = 0;             // removed entries
  std::set<string> changed;        // names of the file copied to
  bool existed = false;            // file copied to
  mode_t from_mode = 0;
  NodeP target;
};
static bool make_dir(Model &m, string const &p, mode_t mode, bool &fresh)
{
  Where w = m.find(p, false);
  fresh   = false;
  if (w.node) {
    Where f = m.find(p, true);
    return !f.err && f.node && f.node->type == Node::DIR;
  }
  if (w.err || !w.dir) return false;
  w.dir->kids[w.name] = dir({}, mode & ~022);
  return fresh        = true;
}
static string file_name(string const &p)
{
  auto k = p.rfind('/');
  return k == string::npos ? p : p.substr(k + 1);
}
static Want apply(Model &m, Op const &o)
{
  Want z;
  bool fresh;
  switch (o.kind) {
  case Op::LOAD:
    if (Where w = m.find(o.p, true); !w.err && w.node && w.node->type == Node::FILE) z.ok = true, z.content = w.node->data;
    break;
  case Op::REMOVE:
    if (Where w = m.find(o.p, false); !w.err && !w.dots && w.node && w.node->kids.empty()) z.ok = true, w.dir->kids.erase(w.name);
    break;
  case Op::REMOVE_ALL:
    if (Where w = m.find(o.p, false); !w.err && !w.dots && w.node) {
      z.ok = true, z.count = Model::count(*w.node);
      w.dir->kids.erase(w.name);
    } else if (w.err == 0 || w.err == ENOENT) {
      z.either = !o.p.empty(); // nothing there
    }
    break;
  case Op::MKDIR:
    z.ok     = make_dir(m, o.p, o.mode, fresh);
    z.either = z.ok && !fresh;
    break;
  case Op::MKDIRS: {
    z.ok = !o.p.empty();
    for (size_t i = 1; z.ok && i <= o.p.size(); ++i)
      if (i == o.p.size() || o.p[i] == '/') z.ok = make_dir(m, o.p.substr(0, i), o.mode, fresh);
    break;
  }
  case Op::COPY: {
    Where s = m.find(o.p, true), d = m.find(o.q, true);
    if (s.err || !s.node || s.node->type != Node::FILE) break;
    if (!d.err && d.node && d.node->type == Node::DIR) d = m.find(o.q + "/" + file_name(o.p), true);
    if (d.err || (!d.node && (!d.dir || d.slash || d.dots)) || (d.node && d.node->type != Node::FILE)) break;
    z.existed   = !!d.node;
    z.from_mode = s.node->mode;
    z.target    = d.node;
    z.ok        = true;
    if (!d.node) {
      d.dir->kids[d.name] = d.node = file(s.node->data, s.node->mode & ~022);
      z.changed                    = m.names(d.node.get());
    } else if (d.node == s.node) {
      z.either = true; // unchanged
    } else {
      d.node->data = s.node->data;
      z.changed    = m.names(d.node.get());
    }
    break;
  }
  }
  return z;
}
static Listing listed; // after the operation
/// Execute an operation and compare.  @a exact: no faults, and nothing prevents the user from doing what the model does.
static bool run(mc::Ctx &c, Scratch &s, Model &m, Op const &o, std::error_code &ec, int budget, size_t chunk = 0, bool exact = true)
{
  bool check = budget || c.pos > c.fresh_from || c.pos == 0; // otherwise this step is common with a previous case
  Listing before;
  if (budget || !exact || (check && o.kind == Op::MKDIRS)) before = m.list();
  Want z = apply(m, o);
  Listing full;
  if (check) full = m.list();
  if (check && before.empty()) before = full; // if it fails nothing is changed
  int fd         = next_fd();
  bool ok        = false;
  uintmax_t n    = 0;
  string content;
  c.note("%s, error code before: %s", o.text().c_str(), ec ? "set" : "clear");
  {
    sf::path p(s.real(o.p)), q(s.real(o.q));
    WithFaults f(c, budget, chunk);
    switch (o.kind) {
    case Op::LOAD: content = sf::load(p, ec), ok = !ec; break;
    case Op::REMOVE: ok = sf::remove(p, ec); break;
    case Op::REMOVE_ALL: n = sf::remove_all(p, ec), ok = !ec; break;
    case Op::MKDIR: ok = sf::create_directory(p, ec, o.mode); break;
    case Op::MKDIRS: ok = sf::create_directories(p, ec, o.mode); break;
    case Op::COPY: ok = sf::copy(p, q, ec); break;
    }
  }
  if (!check || (budget && c.pos <= c.fresh_from)) return ok; // faults are chosen in the operation
  exact          = exact && !faults::injected;
  string t       = o.text();
  char const *tt = t.c_str();
  MC_CHECK(c, !faults::bad_buffer, "%s: system call with a wrong buffer", tt);
  MC_CHECK(c, next_fd() == fd, "%s: open file descriptor is left", tt);
  if (!(o.kind == Op::MKDIR && z.either)) MC_CHECK(c, ok == !ec, "%s: result %d with error '%s'", tt, ok, ec.message().c_str());
  if (exact && !z.either) MC_CHECK(c, ok == z.ok, "%s: %s, expected %s (%s)", tt, ok ? "succeeded" : "failed", z.ok ? "success" : "failure", ec.message().c_str());
  if (exact && o.kind == Op::MKDIR && z.either) MC_CHECK(c, !ec, "%s: error '%s' for an existing directory", tt, ec.message().c_str());
  if (o.p.empty() && exact) MC_CHECK(c, ec.value() == (o.kind == Op::LOAD ? ENOENT : EINVAL), "%s: error '%s' for an empty path", tt, ec.message().c_str());
  Listing now = s.list();
  if (z.existed && o.kind == Op::COPY && ok) // the mode of an existing file may become that of its source
    for (auto &k : z.changed)
      if (auto i = now.find(k); i != now.end() && i->second.size() > 7)
        if (string x = full[k].substr(0, 2) + mc::strf("%04o", z.from_mode) + full[k].substr(6); i->second == x) full[k] = x, z.target->mode = z.from_mode;
  if (ok) {
    MC_CHECK(c, z.ok || z.either, "%s: succeeded, expected failure", tt);
    MC_CHECK(c, now == full, "%s: succeeded, but%s", tt, difference(full, now).c_str());
    listed = now;
    if (o.kind == Op::LOAD) MC_CHECK(c, content == z.content, "%s: content is %zu bytes %s, expected %zu %s", tt, content.size(), mc::show(content.substr(0, 100)).c_str(), z.content.size(), mc::show(z.content.substr(0, 100)).c_str());
    if (o.kind == Op::REMOVE_ALL) MC_CHECK(c, n == z.count, "%s: number of removed entries is %ju, expected %ju", tt, n, z.count);
    return true;
  }
  // failed
  listed = now;
  switch (o.kind) {
  case Op::LOAD:
  case Op::REMOVE:
  case Op::MKDIR: MC_CHECK(c, now == before, "%s: failed, but%s", tt, difference(before, now).c_str()); break;
  case Op::MKDIRS:
    for (auto &[k, v] : before) MC_CHECK(c, now.count(k) && now[k] == v, "%s: failed, but%s", tt, difference(before, now).c_str());
    for (auto &[k, v] : now) MC_CHECK(c, full.count(k) && full[k] == v, "%s: failed, but%s", tt, difference(before, now).c_str());
    break;
  case Op::REMOVE_ALL:
    for (auto &[k, v] : now) MC_CHECK(c, before.count(k) && before[k].substr(0, 6) == v.substr(0, 6), "%s: failed, but%s", tt, difference(before, now).c_str());
    for (auto &[k, v] : before) {
      MC_CHECK(c, now.count(k) || !full.count(k), "%s: failed, but%s", tt, difference(before, now).c_str());
      MC_CHECK(c, !now.count(k) || v[0] != 'F' || v.substr(v.rfind(' ')) == now[k].substr(now[k].rfind(' ')), "%s: failed, but%s", tt, difference(before, now).c_str());
    }
    MC_CHECK(c, n == before.size() - now.size(), "%s: failed after removing %zu entries, reports %ju", tt, before.size() - now.size(), n);
    break;
  case Op::COPY:
    if (z.either) full = before;
    for (auto &k : z.changed) before.erase(k), now.erase(k);
    MC_CHECK(c, now == before, "%s: failed, but%s", tt, difference(before, now).c_str());
    break;
  }
  return false;
}

static Model tree()
{
  Model m;
  NodeP f = file("content of f"), s = file("secret");
  m.root = dir({{"in", dir({{"f", f},
                            {"g", file("x", 0600)},
                            {"h", f},
                            {"d", dir({{"x", file("nested file with some content", 0640)}, {"e", dir()}, {"up", link_to("..")}, {"out", link_to("@/out")}})},
                            {"l", link_to("f")},
                            {"ld", link_to("d")},
                            {"lo", link_to("../out")},
                            {"no", link_to("nowhere")},
                            {"lp", link_to("lp")},
                            {"p", fifo()}})},
                {"out", dir({{"s", s}, {"t", dir({{"u", s}})}})}});
  m.cwd = {"in"};
  return m;
}
static std::vector<Op> const &operations(bool all)
{
  static std::vector<Op> both[2];
  auto &z = both[all];
  if (!z.empty()) return z;
  std::vector<string> one{"f", "g", "h", "d", "d/x", "d/e", "d/e/", "d/up", "d/out", "l", "ld", "ld/x", "ld/e", "lo", "lo/s", "lo/t", "no", "lp", "p", "n", "n/k", "f/x", "d//x", "./g", "d/../f", "@/in/g", "@/in/d",
                          "@/out/t", "", ".", "..", "d/.", "d/e/.", "d/e/..", "d/", "n/", "f/", "n/k/m", "n/../k", "@/in/n", "d/e/n", "lo/n", "ld/n", "l/x", "n//k", "../out/n", "/"};
  std::vector<string> from{"f", "g", "d/x", "l", "lo/s", "n", "d", "no", "", "@/in/f", "h", "ld/x", "f/", "d/out/s", "lp"};
  std::vector<string> to{"f", "g", "d", "d/x", "l", "ld", "lo", "lo/s", "no", "n", "n/k", "f/x", "", "@/in/n", "d/", "n/", ".", "..", "d/e", "h", "d/up", "lp", "d/e/n"};
  if (!all) {
    one  = {"f", "d", "d/e", "l", "lo", "no", "n", "d/out"};
    from = {"f", "g", "d/x", "l"};
    to   = {"f", "g", "d", "n", "no", "lo"};
  }
  for (auto &p : one) {
    for (auto k : {Op::LOAD, Op::REMOVE, Op::REMOVE_ALL, Op::MKDIR, Op::MKDIRS}) {
      if (k == Op::LOAD && file_name(p) == "p") continue; // would wait for a writer
      if (k == Op::REMOVE_ALL && (p == "." || p == ".." || p == "/" || file_name(p) == "." || file_name(p) == "..")) continue;
      z.push_back({k, p, "", 0775});
      if (k == Op::MKDIR || k == Op::MKDIRS) z.push_back({k, p, "", 0700});
    }
  }
  for (auto &p : from)
    for (auto &q : to) z.push_back({Op::COPY, p, q});
  return z;
}
static void history(mc::Ctx &c, bool all, int depth)
{
  Model m = tree();
  Scratch s(m);
  std::error_code ec = all && c.flag() ? std::make_error_code(std::errc::owner_dead) : std::error_code{};
  auto &ops          = operations(all);
  for (int i = 0; i < depth; ++i) {
    Op const &o = ops[c.choose(int(ops.size()))];
    run(c, s, m, o, ec, 0);
    c.step();
    if (c.pos <= c.fresh_from) continue; // seen before
    string st = ec ? "E" : "-";
    for (auto &[k, v] : listed) st += k + "=" + v + "\n";
    c.state(st);
    c.prune(st, depth - 1 - i);
  }
}
MC_HISTORIES(histories, 2, "all sequences of 2 operations on a tree with files, hard links, links to files, directories, outside and nowhere, a fifo and nested directories")
{
  history(c, true, 2);
}
MC_HISTORIES(longer, 2, "all sequences of 3 (4) operations of a reduced set on that tree") { history(c, false, c.thorough ? 4 : 3); }
MC_HISTORIES(faulty, 2, "all operations on that tree, with every single failing or incomplete system call (thorough: every two)")
{
  Model m = tree();
  Scratch s(m);
  std::error_code ec = c.flag() ? std::make_error_code(std::errc::owner_dead) : std::error_code{};
  auto &ops          = operations(true);
  Op const &o        = ops[c.choose(int(ops.size()))];
  run(c, s, m, o, ec, c.thorough ? 2 : 1);
  c.step();
  c.state(o.text() + (ec ? "E" : "-") + std::to_string(mc::hash(difference(m.list(), s.list()))));
}

// --- sizes

MC_INPUTS(sizes, 3, "copy and load of files of 17 sizes around buffer sizes to 7 kinds of destination, with all calls transferring 1, 1000 or all bytes and every single (every two) failing or incomplete call")
{
  static size_t const SIZE[]  = {0, 1, 2, 511, 512, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 131071, 131072, 131073, 196608, 200001};
  static size_t const CHUNK[] = {0, 1, 1000};
  size_t n = SIZE[c.choose(17)];
  int to   = c.choose(8);
  size_t k = CHUNK[c.choose(3)];
  if (k == 1 && n > 512) c.skip();
  string data(n, 0);
  for (size_t i = 0; i < n; ++i) data[i] = char(i * 2654435761u >> 13);
  Model m;
  NodeP f = file(data, 0640);
  m.root  = dir({{"f", f}, {"short", file("abc", 0600)}, {"long", file(string(250000, 'z'), 0644)}, {"d", dir()}, {"h", f}, {"l", link_to("f")}, {"to", link_to("long")}, {"same", file(data.substr(0, n / 2) + string(n - n / 2, '!'))}});
  std::error_code ec = std::make_error_code(std::errc::owner_dead);
  Scratch s(m);
  static char const *const TO[] = {"n", "short", "long", "d", "h", "to", "same"};
  Op o{to == 7 ? Op::LOAD : Op::COPY, "f", to == 7 ? "" : TO[to]};
  run(c, s, m, o, ec, k == 1 || (k == 1000 && n > 70000) ? 0 : c.thorough && n < 70000 ? 2 : 1, k);
  c.outcome(o.text() + mc::strf(" %zu %zu ", n, k) + std::to_string(faults::injected) + (ec ? "E" : "-") + std::to_string(c.pos));
}

// --- permissions

MC_INPUTS(permissions, 3, "all operations on a tree in which directories and files have all 8 owner permissions")
{
  Model m;
  static mode_t const MODE[] = {0700, 0, 0100, 0200, 0300, 0400, 0500, 0600};
  mode_t d = MODE[c.choose(8)], e = MODE[c.choose(8)], x = MODE[c.choose(8)] & 0600;
  m.root = dir({{"d", dir({{"e", dir({{"x", file("inner", x)}, {"k", dir()}, {"l", link_to("x")}}, e)}, {"y", file("text", x)}}, d)}, {"z", file("another")}, {"m", dir()}});
  if (x & 0100) c.skip();
  std::vector<Op> ops;
  for (auto p : {"d", "d/e", "d/e/x", "d/y", "d/e/l", "d/n", "d/e/n", "d/e/n/o", "d/e/k"})
    for (auto k : {Op::LOAD, Op::REMOVE, Op::REMOVE_ALL, Op::MKDIR, Op::MKDIRS}) ops.push_back({k, p, ""});
  for (auto p : {"d/y", "d/e/x", "z", "d/e/l"})
    for (auto q : {"d", "d/y", "d/e/x", "z", "d/n", "m", "d/e"}) ops.push_back({Op::COPY, p, q});
  Scratch s(m);
  std::error_code ec = c.flag() ? std::make_error_code(std::errc::owner_dead) : std::error_code{};
  Op const &o        = ops[c.choose(int(ops.size()))];
  run(c, s, m, o, ec, 0, 0, d == 0700 && e == 0700 && x == 0600);
  c.outcome(o.text() + mc::strf("%o %o %o", d, e, x) + (ec ? "E" : "-"));
}

MC_INPUTS(modes, 2, "creation of a directory, of one in a new directory, and of a copy (of a program, ...) with each of the 512 modes")
{
  mode_t mode = mode_t(c.choose(8) << 6 | c.choose(8) << 3 | c.choose(8));
  int what    = c.choose(4);
  Model m;
  m.root = dir({{"d", dir()}, {"f", file("content", what == 3 ? mode | 0400 : 0640)}, {"z", file("other", 0604)}});
  Scratch s(m);
  std::error_code ec = c.flag() ? std::make_error_code(std::errc::owner_dead) : std::error_code{};
  if (what == 0) run(c, s, m, {Op::MKDIR, "d/n", "", mode}, ec, 0);
  if (what == 1) run(c, s, m, {Op::MKDIRS, "d/n", "", mode}, ec, 0);
  if (what == 2) run(c, s, m, {Op::MKDIRS, "n/k", "", mode | 0300}, ec, 0);
  if (what == 3) run(c, s, m, {Op::COPY, "f", ec ? "d" : "n", 0}, ec, 0);
  c.outcome(mc::strf("%d %o", what, mode));
}

// --- trees

static NodeP some(int kind, NodeP const &outside)
{
  switch (kind) {
  case 0: return file("data");
  case 1: return dir();
  case 2: return link_to("@/out");
  case 3: return link_to("..");
  case 4: return link_to("nowhere");
  case 5: return fifo();
  default: return outside;
  }
}
MC_INPUTS(trees, 2, "removal of all trees of up to 4 (5) entries out of files, directories, links to directories outside and above, dangling links, fifos and hard links of a file outside; up to 3 (4) entries with every single failing call")
{
  static char const *const NAME[] = {"a", "...", ".h", "..x", "-r"};
  NodeP s = file("kept"), top = dir();
  std::vector<NodeP> dirs{top};
  int n = c.choose(c.thorough ? 6 : 5);
  for (int i = 0; i < n; ++i) {
    int kind = c.choose(7);
    NodeP x = some(kind, s), at = dirs[c.choose(int(dirs.size()))];
    at->kids[NAME[i]] = x;
    if (kind == 1) dirs.push_back(x);
  }
  int budget = n <= (c.thorough ? 4 : 3) && c.flag();
  Model m;
  m.root = dir({{"top", top}, {"out", dir({{"s", s}, {"t", dir({{"u", file("kept too")}})}})}});
  Scratch t(m);
  std::error_code ec;
  string id;
  for (auto &[k, v] : m.list()) id += k + v;
  run(c, t, m, {Op::REMOVE_ALL, "top", ""}, ec, budget);
  c.outcome(id + std::to_string(faults::injected) + std::to_string(c.pos));
}
MC_INPUTS(large, 2, "removal of directories of up to 3000 entries and of nested directories of depth up to 200; creation of nested directories")
{
  Model m;
  m.root = dir({{"keep", file("x")}});
  int what = c.choose(3), n;
  NodeP top = dir();
  string p  = "top";
  if (what == 0) {
    static int const N[] = {1, 2, 10, 100, 511, 512, 1000, 1023, 1024, 1025, 2048, 3000};
    n = N[c.choose(12)];
    for (int i = 0; i < n; ++i) top->kids[mc::strf("entry-%d", i)] = i % 3 ? file("") : i % 2 ? dir() : link_to("../keep");
  } else {
    static int const N[] = {1, 2, 3, 10, 50, 63, 64, 65, 100, 150, 199, 200};
    n = N[c.choose(12)];
    NodeP at = top;
    for (int i = 0; i < n; ++i) {
      if (what == 1) at = at->kids[mc::strf("d%d", i)] = dir({{"f", file("")}});
      p += mc::strf("/d%d", i);
    }
  }
  if (what != 2) m.root->kids["top"] = top;
  Scratch t(m);
  std::error_code ec;
  run(c, t, m, {what == 2 ? Op::MKDIRS : Op::REMOVE_ALL, what == 2 ? p : "top", ""}, ec, 0);
  c.outcome(mc::strf("%d %d", what, n));
}
