// C33: queries about files and paths.
#include "fs_common.h"
#include <climits>
#include <optional>
#include <swoc/swoc_file.h>
#include <sys/socket.h>
#include <sys/un.h>

namespace sf = swoc::file;
using clk    = std::chrono::system_clock;

static Model tree()
{
  Model m;
  NodeP f = file("content of f"), u = file("u", 0604);
  m.root = dir({{"in", dir({{"f", f},
                            {"h", f},
                            {"z", file("", 0)},
                            {"d", dir({{"x", file(string(5000, 'x'), 0640)}, {"e", dir()}, {"up", link_to("..")}, {"f", link_to("../f")}, {"far", link_to("../../out/./t")}})},
                            {"l", link_to("f")},
                            {"ll", link_to("d/f")},
                            {"ld", link_to("d/")},
                            {"lo", link_to("@/out")},
                            {"no", link_to("nowhere")},
                            {"lp", link_to("lq")},
                            {"lq", link_to("lp")},
                            {"p", fifo()}})},
                {"out", dir({{"s", file("0123456789")}, {"t", dir({{"u", u}, {"back", link_to("@/in/d/")}})}})}});
  m.cwd = {"in"};
  return m;
}
static string name_of(Model const &m, Node const *d)
{
  if (d == m.root.get()) return "";
  return "/" + *m.names(d).begin();
}
/// Absolute path of an entry without links and dots.
static string true_path(Model const &m, Where const &w)
{
  if (w.dots) return name_of(m, w.node.get());
  return name_of(m, w.dir) + "/" + w.name;
}
static mode_t type_bits(Node const &x) { return x.type == Node::FILE ? S_IFREG : x.type == Node::DIR ? S_IFDIR : x.type == Node::LINK ? S_IFLNK : S_IFIFO; }

static void check_status(mc::Ctx &c, sf::path const &p, string const &t, sf::file_status const &fs, bool there, mode_t mode)
{
  using ft = enum sf::file_type;
  ft type  = !there ? fs.type() : S_ISREG(mode) ? ft::regular : S_ISDIR(mode) ? ft::directory : S_ISFIFO(mode) ? ft::fifo : S_ISCHR(mode) ? ft::character : S_ISSOCK(mode) ? ft::socket : S_ISBLK(mode) ? ft::block : ft::unknown;
  MC_CHECK(c, fs.type() == type && (!there || fs.mode() == mode), "status of %s: type %d mode %o", t.c_str(), int(fs.type()), fs.mode());
  MC_CHECK(c, sf::is_regular_file(fs) == (there && S_ISREG(mode)) && sf::is_dir(fs) == (there && S_ISDIR(mode)) && sf::is_char_device(fs) == (there && S_ISCHR(mode)) &&
                  sf::is_block_device(fs) == (there && S_ISBLK(mode)) && sf::exists(fs) == there && sf::exists(p) == there,
           "kind of %s: file %d, directory %d, character %d, block %d, exists %d %d", t.c_str(), sf::is_regular_file(fs), sf::is_dir(fs), sf::is_char_device(fs), sf::is_block_device(fs),
           sf::exists(fs), sf::exists(p));
}

/// Not found is something else than not known.
static void check_error(mc::Ctx &c, string const &t, sf::file_status const &fs, std::error_code const &ec)
{
  using ft = enum sf::file_type;
  if (!ec) return;
  MC_CHECK(c, ec.category() == std::system_category(), "status of %s: category of the error is %s", t.c_str(), ec.category().name());
  if (ec.value() == ENOENT) MC_CHECK(c, fs.type() == ft::not_found, "status of missing %s: type %d", t.c_str(), int(fs.type()));
  else if (ec.value() != ENOTDIR) MC_CHECK(c, fs.type() != ft::not_found, "status of %s, error '%s', is not found", t.c_str(), ec.message().c_str());
}

MC_INPUTS(paths, 2, "all paths of up to 4 (5) components of 13 names, absolute or relative, with and without trailing separators: status, readability, canonical and absolute path in a tree with links of all kinds")
{
  static char const *const W[] = {"f", "d", "up", "ld", "lo", "..", ".", "t", "back", "no", "lp", "", "far", "x", "ll", "p", "in", "n"};
  static Model const m         = tree();
  static Shared shared;
  Shared::Use use(shared, m);
  auto &s = shared.s;
  bool abs = c.flag();
  int n    = 1 + c.choose(c.thorough ? 5 : 4);
  string t;
  for (int i = 0; i < n; ++i) t += (i ? "/" : "") + string(W[c.choose(i < 2 || c.thorough ? 18 : 13)]);
  if (t.empty() || t[0] == '/') c.skip();
  if (abs) t = "@/in/" + t;
  Where w = m.find(t, true);
  if (w.above) c.skip();
  bool is = !w.err && w.node;
  sf::path const p(s->real(t));
  std::error_code ec = std::make_error_code(std::errc::owner_dead);
  auto fs            = sf::status(p, ec);
  MC_CHECK(c, is == !ec, "status of %s: error '%s'", t.c_str(), ec.message().c_str());
  check_error(c, t, fs, ec);
  check_status(c, p, t, fs, is, is ? type_bits(*w.node) | w.node->mode : 0);
  if (is && w.node->type == Node::FILE) MC_CHECK(c, sf::file_size(fs) == w.node->data.size(), "size of %s is %ju", t.c_str(), sf::file_size(fs));
  MC_CHECK(c, sf::is_readable(p) == (is && (w.node->mode & 0400)), "%s is readable: %d", t.c_str(), sf::is_readable(p));
  ec      = std::make_error_code(std::errc::owner_dead);
  auto cn = sf::canonical(p, ec);
  MC_CHECK(c, is == !ec, "canonical path of %s: error '%s'", t.c_str(), ec.message().c_str());
  string want = is ? s->top + true_path(m, w) : "";
  MC_CHECK(c, cn.string() == want, "canonical path of %s is %s, expected %s", t.c_str(), cn.c_str(), want.c_str());
  ec     = std::make_error_code(std::errc::owner_dead);
  auto a = sf::absolute(p, ec);
  if (p.is_absolute()) {
    MC_CHECK(c, a == p && !ec, "absolute path of %s is %s", t.c_str(), a.c_str());
  } else {
    MC_CHECK(c, is == !ec, "absolute path of %s: error '%s'", t.c_str(), ec.message().c_str());
    if (is) {
      struct stat x, y;
      MC_CHECK(c, a.is_absolute() && stat(a.c_str(), &x) == 0 && stat(p.c_str(), &y) == 0 && x.st_ino == y.st_ino && x.st_dev == y.st_dev, "absolute path of %s is %s", t.c_str(), a.c_str());
    } else {
      MC_CHECK(c, a.empty(), "absolute path of %s is %s", t.c_str(), a.c_str());
    }
  }
  ec     = std::make_error_code(std::errc::owner_dead);
  auto l = sf::last_write_time(p, ec);
  MC_CHECK(c, is == !ec && (is || l == sf::file_time_type::min()), "last write time of %s", t.c_str());
  c.outcome(t);
}
MC_INPUTS(hidden, 2, "files, directories, links and missing entries in nested directories with all 8 owner permissions")
{
  Model m;
  mode_t d = c.choose(8) << 6, e = c.choose(8) << 6, x = c.choose(8) << 6;
  m.root = dir({{"d", dir({{"e", dir({{"x", file("inner", x)}, {"k", dir()}, {"l", link_to("x")}, {"o", link_to("../../z")}}, e)}, {"y", file("text", x)}}, d)}, {"z", file("another", 0600)}, {"m", link_to("d/e/x")}});
  Scratch s(m);
  static char const *const P[] = {"d", "d/e", "d/e/x", "d/e/k", "d/e/l", "d/e/o", "d/e/n", "d/n", "d/y", "m", "d/e/../y", "d/e/x/n", "d/y/n", "d/n/n"};
  int k    = c.choose(14);
  string t = P[k];
  sf::path p(c.flag() ? s.top + "/" + t : t);
  bool D = d & 0100, E = D && (e & 0100); // what is in it can be looked at
  bool seen  = k == 0 ? true : k == 1 || k == 8 ? D : k == 6 || k == 7 || k > 10 ? false : E;
  int error  = seen ? 0 : !D ? EACCES : k == 7 || k == 13 ? ENOENT : k == 12 ? ENOTDIR : !E ? EACCES : k == 6 ? ENOENT : ENOTDIR;
  mode_t is  = k == 0 ? S_IFDIR | d : k == 1 ? S_IFDIR | e : k == 3 ? S_IFDIR | 0755 : k == 5 ? S_IFREG | 0600 : S_IFREG | x;
  std::error_code ec = c.flag() ? std::make_error_code(std::errc::owner_dead) : std::error_code{};
  auto start         = ec;
  string what        = mc::strf("%s (permissions %03o %03o %03o)", t.c_str(), d, e, x);
  auto fs            = sf::status(p, ec);
  if (getuid() == 0) c.skip(); // permissions have no effect
  MC_CHECK(c, ec.value() == error, "status of %s: error '%s', expected '%s'", what.c_str(), ec.message().c_str(), strerror(error));
  check_error(c, what, fs, ec);
  check_status(c, p, what, fs, seen, is);
  MC_CHECK(c, sf::is_readable(p) == (seen && (is & 0400)), "%s is readable: %d", what.c_str(), sf::is_readable(p));
  ec     = start;
  auto l = sf::last_write_time(p, ec);
  MC_CHECK(c, seen == !ec && (seen || l == sf::file_time_type::min()), "last write time of %s: error '%s'", what.c_str(), ec.message().c_str());
  ec      = start;
  auto cn = sf::canonical(p, ec);
  if (k != 10) // resolved without looking into the directory
    MC_CHECK(c, seen == !ec && seen == !cn.empty(), "canonical path of %s is %s, error '%s'", what.c_str(), cn.c_str(), ec.message().c_str());
  c.outcome(what + (start ? "E" : "-"));
}
MC_INPUTS(kinds, 1, "all kinds of files with all permissions of the owner and others: status, size, readability; special paths")
{
  Model m;
  Scratch s(m);
  std::error_code ec = std::make_error_code(std::errc::owner_dead);
  mode_t mode        = mode_t(c.choose(8) << 6 | c.choose(8) << 3 | c.choose(8) | c.choose(8) << 9);
  int kind           = c.choose(5);
  if (!c.thorough && (mode & 070) && (mode & 070) != 070) c.skip();
  sf::path p(s.top + "/x");
  static size_t const SIZE[] = {0, 1, 100, 70000, size_t(1) << 33};
  size_t size                = 0;
  mode_t type                = S_IFREG;
  switch (kind) {
  case 0: {
    int fd = open(p.c_str(), O_CREAT | O_RDWR, 0600);
    size   = SIZE[mode % 5];
    Scratch::must(fd < 0 || ftruncate(fd, size), "file");
    close(fd);
    break;
  }
  case 1: Scratch::must(mkdir(p.c_str(), 0700), "dir"), type = S_IFDIR; break;
  case 2: Scratch::must(mkfifo(p.c_str(), 0600), "fifo"), type = S_IFIFO; break;
  case 3: {
    int fd = socket(AF_UNIX, SOCK_STREAM, 0);
    sockaddr_un a{};
    a.sun_family = AF_UNIX;
    Scratch::must(chdir(s.top.c_str()), "cwd");
    strcpy(a.sun_path, "x");
    Scratch::must(fd < 0 || bind(fd, reinterpret_cast<sockaddr *>(&a), sizeof a), "socket");
    close(fd);
    type = S_IFSOCK;
    break;
  }
  default: p = "/dev/null"; type = S_IFCHR; mode = 0666;
  }
  if (kind < 4) Scratch::must(chmod(p.c_str(), mode), "chmod");
  struct stat st;
  Scratch::must(stat(p.c_str(), &st), "stat");
  if (kind < 4) mode = st.st_mode & 07777; // without set-group-id, should it not be allowed
  else mode = st.st_mode & 07777;
  auto fs  = sf::status(p, ec);
  string t = mc::strf("file of kind %d with mode %o", kind, mode);
  MC_CHECK(c, !ec, "%s: error '%s'", t.c_str(), ec.message().c_str());
  check_status(c, p, t, fs, true, type | mode);
  if (kind == 0) MC_CHECK(c, sf::file_size(fs) == size, "size of %s is %ju", t.c_str(), sf::file_size(fs));
  MC_CHECK(c, sf::is_readable(p) == !!(mode & (kind == 4 ? 04 : 0400)) || getuid() == 0, "%s is readable: %d", t.c_str(), sf::is_readable(p));
  c.outcome(t);
}
MC_INPUTS(times, 1, "26 times around second boundaries, negative and large, as access and modification time")
{
  static time_t const SEC[] = {0, 1, -1, 1000000000, 1700000000, 2147483647, 2147483648, -2147483648, 4294967295, 4294967296, 9000000000, 1234567890, -1000000};
  static long const NS[]    = {0, 1, 999999999, 500000000, 123456789};
  Model m;
  m.root->kids["f"] = file("");
  Scratch s(m);
  timespec t[2] = {{SEC[c.choose(13)], NS[c.choose(5)]}, {SEC[c.choose(13)], NS[c.choose(5)]}};
  string p      = s.top + "/f";
  Scratch::must(utimensat(AT_FDCWD, p.c_str(), t, 0), "utimensat");
  struct stat st;
  Scratch::must(stat(p.c_str(), &st), "stat");
  auto tp = [](timespec const &x) { return clk::time_point(std::chrono::duration_cast<clk::duration>(std::chrono::nanoseconds(x.tv_sec * 1000000000ll + x.tv_nsec))); };
  std::error_code ec = std::make_error_code(std::errc::owner_dead);
  auto fs            = sf::status(sf::path(p), ec);
  string what        = mc::strf("%ld.%09ld %ld.%09ld", long(t[0].tv_sec), t[0].tv_nsec, long(t[1].tv_sec), t[1].tv_nsec);
  MC_CHECK(c, sf::access_time(fs) == tp(st.st_atim), "access time %s", what.c_str());
  MC_CHECK(c, sf::last_write_time(fs) == tp(st.st_mtim), "modification time %s", what.c_str());
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
  MC_CHECK(c, sf::modify_time(fs) == tp(st.st_mtim), "modification time %s (old name)", what.c_str());
#pragma GCC diagnostic pop
  MC_CHECK(c, sf::status_time(fs) == tp(st.st_ctim), "change time %s", what.c_str());
  ec = std::make_error_code(std::errc::owner_dead);
  MC_CHECK(c, sf::last_write_time(sf::path(p), ec) == tp(st.st_mtim) && !ec, "modification time %s of a path", what.c_str());
  c.outcome(what);
}
MC_INPUTS(places, 1, "current directory in all directories of the tree and in nested ones of 1 to 5000 characters; removed ones; temporary directory for all settings of the environment variables")
{
  int what = c.choose(3);
  if (what == 0) {
    Model m = tree();
    Scratch s(m);
    static char const *const D[] = {"", "d", "ld", "d/e", "lo", "lo/t", "d/far", "d/up", "lo/t/back", "..", "/"};
    string t                     = D[c.choose(11)];
    string want                  = t == "/" ? "/" : t.empty() ? s.top + "/in" : s.top + true_path(m, m.find(t, true));
    if (!t.empty()) Scratch::must(chdir(t.c_str()), t);
    MC_CHECK(c, sf::current_path() == sf::path(want), "current directory is %s, expected %s", sf::current_path().c_str(), want.c_str());
    c.outcome("at " + t);
  } else if (what == 1) {
    Model m;
    Scratch s(m);
    static int const LEN[] = {1, 10, 100, 255};
    int len = LEN[c.choose(4)], n = c.choose(len == 255 ? 20 : 12), removed = c.flag();
    string want = s.top, name(len, 'n');
    Scratch::must(chdir(want.c_str()), "cwd");
    for (int i = 0; i < n; ++i) {
      Scratch::must(mkdir(name.c_str(), 0755) || chdir(name.c_str()), "nested");
      want += "/" + name;
    }
    if (removed && n) Scratch::must(rmdir(("../" + name).c_str()), "rmdir");
    std::error_code ec = std::make_error_code(std::errc::owner_dead);
    auto p             = sf::current_path();
    auto q             = sf::canonical(sf::path("."), ec);
    bool gone          = removed && n;
    ec                 = std::make_error_code(std::errc::owner_dead);
    std::error_code e2 = ec;
    auto r             = sf::absolute(sf::path("."), e2);
    q                  = sf::canonical(sf::path("."), ec);
    auto too_long = [&](std::error_code const &x) { return want.size() >= PATH_MAX - 1 && x.value() == ENAMETOOLONG; }; // system limit
    // tear down, too long for absolute paths
    if (n && !gone) Scratch::must(chdir(".."), "..");
    for (int i = n; i-- > 0;) {
      if (gone && i == n - 1) {
        Scratch::must(chdir(s.top.c_str()), "top");
        for (int j = 0; j < n - 1; ++j) Scratch::must(chdir(name.c_str()), "down");
        if (i) Scratch::must(chdir(".."), "..");
        continue;
      }
      Scratch::must(rmdir(name.c_str()), "rmdir");
      if (i) Scratch::must(chdir(".."), "..");
    }
    MC_CHECK(c, gone ? p.empty() : p.string() == want, "current directory is %zu characters, expected %zu", p.string().size(), want.size());
    MC_CHECK(c, e2 ? (gone || too_long(e2)) && r.empty() : !gone && r.string() == want, "absolute current directory is %zu characters, expected %zu, error '%s'", r.string().size(), want.size(), e2.message().c_str());
    MC_CHECK(c, ec ? (gone || too_long(ec)) && q.empty() : !gone && q.string() == want, "canonical current directory is %zu characters, expected %zu, error '%s'", q.string().size(), want.size(), ec.message().c_str());
    c.outcome(mc::strf("%d %d %d", len, n, removed));
  } else {
    static char const *const V[] = {"TMPDIR", "TMP", "TEMP", "TEMPDIR"};
    int k                        = c.choose(16);
    string want                  = "/tmp";
    for (int i = 3; i >= 0; --i) {
      string v = mc::strf("/some/dir-%d", i);
      if (k >> i & 1) setenv(V[i], v.c_str(), 1), want = v;
      else unsetenv(V[i]);
    }
    auto p = sf::temp_directory_path();
    for (auto v : V) unsetenv(v);
    MC_CHECK(c, p.string() == want, "temporary directory is %s, expected %s", p.c_str(), want.c_str());
    c.outcome(want + std::to_string(k));
  }
}
MC_HISTORIES(descriptors, 2, "all sequences of up to 6 (7) operations on 3 file descriptor owners: open, take, move, release, destroy; each descriptor is closed exactly when its owner ends")
{
  std::optional<sf::unique_fd> slot[3];
  int owned[3] = {-1, -1, -1};
  std::set<int> open_now;
  auto opened = [&](int fd) { return fcntl(fd, F_GETFD) != -1; };
  struct Close {
    std::set<int> &z;
    ~Close()
    {
      for (int fd : z) close(fd);
    }
  } guard{open_now};
  int depth = c.thorough ? 7 : 6;
  for (int i = 0; i < depth; ++i) {
    int s = c.choose(3), op = c.choose(5);
    switch (op) {
    case 0: { // open
      if (slot[s]) c.skip();
      int fd = open("/dev/null", O_RDONLY);
      MC_CHECK(c, fd >= 0 && !open_now.count(fd), "descriptor %d was closed", fd);
      open_now.insert(fd);
      slot[s].emplace(fd);
      owned[s] = fd;
      break;
    }
    case 1: // take from the next
    case 2: {
      int o = (s + op) % 3;
      if (slot[s] || !slot[o]) c.skip();
      slot[s].emplace(std::move(*slot[o]));
      owned[s] = owned[o];
      owned[o] = -1;
      break;
    }
    case 3:
      if (!slot[s]) c.skip();
      MC_CHECK(c, slot[s]->release() == owned[s], "released descriptor is not %d", owned[s]);
      if (owned[s] != -1) {
        MC_CHECK(c, opened(owned[s]), "released descriptor is closed");
        close(owned[s]);
        open_now.erase(owned[s]);
      }
      owned[s] = -1;
      break;
    case 4:
      if (!slot[s]) c.skip();
      slot[s].reset();
      if (owned[s] != -1) {
        MC_CHECK(c, !opened(owned[s]), "descriptor %d is still open", owned[s]);
        open_now.erase(owned[s]);
      }
      owned[s] = -1;
      break;
    }
    c.step();
    string st;
    for (int k = 0; k < 3; ++k) {
      if (slot[k]) MC_CHECK(c, int(*slot[k]) == owned[k], "owner %d has descriptor %d instead of %d", k, int(*slot[k]), owned[k]);
      st += !slot[k] ? "-" : owned[k] < 0 ? "e" : "o";
    }
    for (int fd : open_now) MC_CHECK(c, opened(fd), "descriptor %d was closed", fd);
    c.state(st);
  }
  for (int k = 0; k < 3; ++k) {
    slot[k].reset();
    if (owned[k] != -1) {
      MC_CHECK(c, !opened(owned[k]), "descriptor %d is left open", owned[k]);
      open_now.erase(owned[k]);
    }
  }
}
