// Real files in a scratch directory owned by an unprivileged user, a model of them, and system call faults.
#pragma once
#include "mc.h"
#include <algorithm>
#include <cerrno>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <grp.h>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>
#include <sanitizer/asan_interface.h>

using std::string;

// --- privileges

/// Everything a case does is done as a user that owns nothing but the scratch directory.
struct Unprivileged {
  static constexpr uid_t ID = 61234;
  bool root;
  Unprivileged() : root(getuid() == 0)
  {
    if (!root) return;
    if (setgroups(0, nullptr) != 0 || setresgid(ID, ID, 0) != 0 || setresuid(ID, ID, 0) != 0 || geteuid() == 0) {
      fprintf(stderr, "MC-ERROR: can't drop privileges\n");
      _exit(77);
    }
  }
  ~Unprivileged()
  {
    if (root && (setresuid(0, 0, 0) != 0 || setresgid(0, 0, 0) != 0)) _exit(77);
  }
};

// --- faults: libc functions defined here replace those of the library in the whole program

struct Fault {
  int kind;  // 0 none, otherwise fails with errno or (SHORT) transfers less
  static constexpr int SHORT1 = -1, HALF = -2;
};
namespace faults {
inline mc::Ctx *ctx;      // decisions about faults, null when there are none
inline int budget;        // number of faults left
inline int injected;      // number of faults of this case
inline size_t chunk;      // most bytes transferred by a read or write, 0 no limit
inline bool bad_buffer;   // a read or write was outside of its buffer
inline std::string log;

inline int ask(char const *what, std::initializer_list<int> kinds)
{
  if (!ctx || budget <= 0) return 0;
  auto c = ctx;
  ctx    = nullptr; // not for calls of the explorer
  int k  = c->choose(1 + int(kinds.size()));
  ctx    = c;
  if (!k) return 0;
  --budget, ++injected;
  int kind = kinds.begin()[k - 1];
  c->note("fault: %s %s", what, kind == Fault::SHORT1 ? "transfers 1 byte" : kind == Fault::HALF ? "transfers half" : strerror(kind));
  return kind;
}
template <typename F> F *next(char const *name)
{
  static_assert(std::is_function_v<F>);
  auto f = reinterpret_cast<F *>(dlsym(RTLD_NEXT, name));
  if (!f) _exit(77);
  return f;
}
inline ssize_t transfer(char const *what, bool out, long nr, int fd, void const *buf, size_t n, off_t at)
{
  int k = fd > 2 ? ask(what, {EIO, EINTR, Fault::SHORT1, Fault::HALF}) : 0;
  if (k > 0) {
    errno = k;
    return -1;
  }
  if (k == Fault::SHORT1 && n > 1) n = 1;
  if (k == Fault::HALF && n > 1) n = n / 2;
  if (ctx && chunk && n > chunk) n = chunk;
  if (ctx && out && n && __asan_region_is_poisoned(const_cast<void *>(buf), n)) bad_buffer = true;
  ssize_t r = syscall(nr, fd, buf, n, at);
  if (ctx && !out && r > 0 && __asan_region_is_poisoned(const_cast<void *>(buf), r)) bad_buffer = true;
  return r;
}
} // namespace faults

#define FAULT(what, ...)                                  \
  if (int k_ = faults::ask(what, {__VA_ARGS__}); k_) {    \
    errno = k_;                                           \
    return -1;                                            \
  }
extern "C" {
#define OPEN_MODE                                         \
  mode_t mode = 0;                                        \
  if (flags & (O_CREAT | __O_TMPFILE)) {                  \
    va_list ap;                                           \
    va_start(ap, flags);                                  \
    mode = va_arg(ap, mode_t);                            \
    va_end(ap);                                           \
  }
int open(char const *p, int flags, ...) { OPEN_MODE FAULT("open", EIO) return int(syscall(SYS_openat, AT_FDCWD, p, flags, mode)); }
int open64(char const *p, int flags, ...) { OPEN_MODE FAULT("open", EIO) return int(syscall(SYS_openat, AT_FDCWD, p, flags, mode)); }
int openat(int d, char const *p, int flags, ...) { OPEN_MODE FAULT("openat", EIO) return int(syscall(SYS_openat, d, p, flags, mode)); }
int openat64(int d, char const *p, int flags, ...) { OPEN_MODE FAULT("openat", EIO) return int(syscall(SYS_openat, d, p, flags, mode)); }
ssize_t read(int fd, void *b, size_t n) { return faults::transfer("read", false, SYS_read, fd, b, n, 0); }
ssize_t write(int fd, void const *b, size_t n) { return faults::transfer("write", true, SYS_write, fd, b, n, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return faults::transfer("pread", false, SYS_pread64, fd, b, n, o); }
ssize_t pwrite(int fd, void const *b, size_t n, off_t o) { return faults::transfer("pwrite", true, SYS_pwrite64, fd, b, n, o); }
int stat(char const *p, struct stat *s) noexcept { FAULT("stat", EIO) return int(syscall(SYS_newfstatat, AT_FDCWD, p, s, 0)); }
int lstat(char const *p, struct stat *s) noexcept { FAULT("lstat", EIO) return int(syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW)); }
int fstat(int fd, struct stat *s) noexcept { FAULT("fstat", EIO) return int(syscall(SYS_fstat, fd, s)); }
int fstatat(int d, char const *p, struct stat *s, int f) noexcept { FAULT("fstatat", EIO) return int(syscall(SYS_newfstatat, d, p, s, f)); }
int ftruncate(int fd, off_t n) noexcept { FAULT("ftruncate", EIO) return int(syscall(SYS_ftruncate, fd, n)); }
int truncate(char const *p, off_t n) noexcept { FAULT("truncate", EIO) return int(syscall(SYS_truncate, p, n)); }
int mkdir(char const *p, mode_t m) noexcept { FAULT("mkdir", EIO) return int(syscall(SYS_mkdirat, AT_FDCWD, p, m)); }
int mkdirat(int d, char const *p, mode_t m) noexcept { FAULT("mkdirat", EIO) return int(syscall(SYS_mkdirat, d, p, m)); }
int rmdir(char const *p) noexcept { FAULT("rmdir", EIO) return int(syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR)); }
int unlink(char const *p) noexcept { FAULT("unlink", EIO) return int(syscall(SYS_unlinkat, AT_FDCWD, p, 0)); }
int unlinkat(int d, char const *p, int f) noexcept { FAULT("unlinkat", EIO) return int(syscall(SYS_unlinkat, d, p, f)); }
int remove(char const *p) noexcept
{
  FAULT("remove", EIO)
  static auto f = faults::next<int(char const *)>("remove");
  return f(p);
}
int rename(char const *p, char const *q) noexcept { FAULT("rename", EIO) return int(syscall(SYS_renameat2, AT_FDCWD, p, AT_FDCWD, q, 0)); }
ssize_t sendfile(int o, int i, off_t *at, size_t n) noexcept { FAULT("sendfile", EIO, EINTR) return syscall(SYS_sendfile, o, i, at, faults::ctx && faults::chunk && n > faults::chunk ? faults::chunk : n); }
ssize_t copy_file_range(int i, off64_t *ia, int o, off64_t *oa, size_t n, unsigned f) { FAULT("copy_file_range", EIO, EINTR) return syscall(SYS_copy_file_range, i, ia, o, oa, n, f); }
DIR *opendir(char const *p)
{
  if (int k = faults::ask("opendir", {EMFILE}); k) {
    errno = k;
    return nullptr;
  }
  static auto f = faults::next<DIR *(char const *)>("opendir");
  return f(p);
}
DIR *fdopendir(int fd)
{
  if (int k = faults::ask("fdopendir", {EMFILE}); k) {
    errno = k;
    return nullptr;
  }
  static auto f = faults::next<DIR *(int)>("fdopendir");
  return f(fd);
}
struct dirent *readdir(DIR *d)
{
  if (int k = faults::ask("readdir", {EIO}); k) {
    errno = k;
    return nullptr;
  }
  static auto f = faults::next<struct dirent *(DIR *)>("readdir");
  return f(d);
}
}

/// Faults are injected into the calls made while this exists.
struct WithFaults {
  WithFaults(mc::Ctx &c, int budget, size_t chunk = 0)
  {
    faults::budget     = budget;
    faults::injected   = 0;
    faults::chunk      = chunk;
    faults::bad_buffer = false;
    faults::ctx        = &c;
  }
  ~WithFaults() { faults::ctx = nullptr; }
};

// --- model

struct Node;
using NodeP = std::shared_ptr<Node>;
struct Node {
  enum Type { FILE, DIR, LINK, FIFO } type;
  string data; // content or target; "@" at the start of a target stands for the scratch directory
  mode_t mode;
  std::map<string, NodeP> kids;
};
inline NodeP file(string data, mode_t mode = 0644) { return std::make_shared<Node>(Node{Node::FILE, std::move(data), mode, {}}); }
inline NodeP dir(std::map<string, NodeP> kids = {}, mode_t mode = 0755) { return std::make_shared<Node>(Node{Node::DIR, "", mode, std::move(kids)}); }
inline NodeP link_to(string target) { return std::make_shared<Node>(Node{Node::LINK, std::move(target), 0777, {}}); }
inline NodeP fifo() { return std::make_shared<Node>(Node{Node::FIFO, "", 0644, {}}); }

/// What can be seen of a tree: path -> type, mode, content; names of the same file share a number.
using Listing = std::map<string, string>;
inline string described(char type, mode_t mode, string const &data, string const &first) { return mc::strf("%c %04o %s ", type, mode & 07777, first.c_str()) + (data.size() > 100 ? mc::strf("%zu:%016llx", data.size(), (unsigned long long)mc::hash(data)) : data); }

struct Where {
  int err = 0;              // why the path leads nowhere
  Node *dir = nullptr;      // directory and name of the last component
  string name;
  NodeP node;               // null if there is no such entry
  bool slash = false, dots = false;
  bool above = false;       // leads out of the scratch directory
};

struct Model {
  NodeP root = dir();
  std::vector<string> cwd; // names from the root

  static std::vector<string> parts(string const &p)
  {
    std::vector<string> z{""};
    for (char x : p)
      if (x == '/') z.emplace_back();
      else z.back() += x;
    return z;
  }
  Where find(string const &path, bool follow) const
  {
    Where w;
    if (path.empty()) return w.err = ENOENT, w;
    std::vector<NodeP> at{root};
    std::vector<string> todo;
    int links = 0;
    auto push = [&](string const &p) {
      auto v = parts(p);
      if (v[0] == "@") at.resize(1), v[0] = "";
      todo.insert(todo.end(), v.rbegin(), v.rend());
    };
    for (auto &n : cwd) at.push_back(at.back()->kids.at(n));
    push(path);
    while (!todo.empty()) {
      string n = todo.back();
      todo.pop_back();
      bool last  = std::all_of(todo.begin(), todo.end(), [](string const &x) { return x.empty(); });
      bool slash = last && !todo.empty();
      if (n == "" || n == ".") {
        if (last) w.dots = true, w.node = at.back(), w.slash = slash;
        continue;
      }
      if (n == "..") {
        if (at.size() > 1) at.pop_back();
        else w.above = true;
        if (last) w.dots = true, w.node = at.back();
        continue;
      }
      auto spot = at.back()->kids.find(n);
      NodeP x   = spot == at.back()->kids.end() ? nullptr : spot->second;
      if (x && x->type == Node::LINK && (!last || follow || slash)) {
        if (++links > 40) return w.err = ELOOP, w;
        push(x->data);
        continue;
      }
      if (last) {
        w.dir = at.back().get(), w.name = n, w.node = x, w.slash = slash, w.dots = false;
        if (slash && x && x->type != Node::DIR) w.err = ENOTDIR;
        return w;
      }
      if (!x) return w.err = ENOENT, w;
      if (x->type != Node::DIR) return w.err = ENOTDIR, w;
      at.push_back(x);
    }
    return w; // a path that ends in dots
  }
  void list(Listing &z, std::map<Node *, string> &first, string const &at, Node &d) const
  {
    for (auto &[n, k] : d.kids) {
      string p   = at + n;
      string f   = first.try_emplace(k.get(), p).first->second;
      z[p]       = described("FDLP"[k->type], k->mode, k->data, k->type == Node::FILE ? f : "");
      if (k->type == Node::DIR) list(z, first, p + "/", *k);
    }
  }
  Listing list() const
  {
    Listing z;
    std::map<Node *, string> first;
    list(z, first, "", *root);
    return z;
  }
  /// All names of a node.
  std::set<string> names(Node const *x) const
  {
    std::set<string> z;
    std::function<void(string const &, Node &)> walk = [&](string const &at, Node &d) {
      for (auto &[n, k] : d.kids) {
        if (k.get() == x) z.insert(at + n);
        if (k->type == Node::DIR) walk(at + n + "/", *k);
      }
    };
    walk("", *root);
    return z;
  }
  static size_t count(Node const &x)
  {
    size_t n = 1;
    for (auto &[k, v] : x.kids) n += count(*v);
    return n;
  }
  static NodeP copy(NodeP const &x, std::map<Node *, NodeP> &done)
  {
    auto &z = done[x.get()];
    if (!z) {
      z = std::make_shared<Node>(*x);
      auto y = z;
      for (auto &[k, v] : y->kids) v = copy(v, done);
      return y;
    }
    return z;
  }
  Model clone() const
  {
    Model m;
    std::map<Node *, NodeP> done;
    m.root = copy(root, done);
    m.cwd  = cwd;
    return m;
  }
};

// --- scratch directory

struct Scratch {
  std::optional<Unprivileged> user;
  string top;
  Scratch(Model const &m)
  {
    user.emplace();
    umask(022);
    char const *base = getenv("MC_SCRATCH");
    top              = mc::strf("%s/%d", base ? base : "/tmp/mc-scratch", int(getpid()));
    if (!base) mkdir("/tmp/mc-scratch", 0777), chmod("/tmp/mc-scratch", 0777);
    wipe(top);
    std::map<Node *, string> first;
    make(*m.root, top, first);
    string wd = top;
    for (auto &n : m.cwd) wd += "/" + n;
    must(chdir(wd.c_str()), wd);
    modes(*m.root, top);
  }
  ~Scratch()
  {
    if (!user) user.emplace();
    (void)!chdir("/");
    wipe(top);
  }
  static void must(int r, string const &what)
  {
    if (r == 0) return;
    fprintf(stderr, "MC-ERROR: %s: %s\n", what.c_str(), strerror(errno));
    _exit(77);
  }
  string real(string const &p) const { return !p.empty() && p[0] == '@' ? top + p.substr(1) : p; }
  void make(Node &x, string const &at, std::map<Node *, string> &first)
  {
    if (auto [spot, nu] = first.try_emplace(&x, at); !nu) return must(link(spot->second.c_str(), at.c_str()), at);
    switch (x.type) {
    case Node::FILE: {
      int fd = open(at.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0600);
      must(fd < 0, at);
      must(write(fd, x.data.data(), x.data.size()) != ssize_t(x.data.size()), at);
      close(fd);
      must(chmod(at.c_str(), x.mode), at);
      break;
    }
    case Node::DIR:
      must(mkdir(at.c_str(), 0755), at);
      for (auto &[n, k] : x.kids) make(*k, at + "/" + n, first);
      break;
    case Node::LINK:
      must(symlink(real(x.data).c_str(), at.c_str()), at);
      break;
    case Node::FIFO:
      must(mkfifo(at.c_str(), x.mode), at);
      break;
    }
  }
  void modes(Node &x, string const &at)
  {
    for (auto &[n, k] : x.kids)
      if (k->type == Node::DIR) modes(*k, at + "/" + n);
    if (x.type == Node::DIR && x.mode != 0755) must(chmod(at.c_str(), x.mode), at);
  }
  static std::vector<string> entries(string const &at)
  {
    std::vector<string> z;
    DIR *d = opendir(at.c_str());
    must(!d, at);
    while (auto e = readdir(d))
      if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) z.push_back(e->d_name);
    closedir(d);
    return z;
  }
  static void wipe(string const &at)
  {
    struct stat s;
    if (lstat(at.c_str(), &s) != 0) return;
    if (!S_ISDIR(s.st_mode)) return must(unlink(at.c_str()), at);
    chmod(at.c_str(), 0700);
    for (auto &n : entries(at)) wipe(at + "/" + n);
    must(rmdir(at.c_str()), at);
  }
  /// What is there now.
  void list(Listing &z, string const &at) const
  {
    for (auto &n : entries(top + at)) {
      string p = at + "/" + n, full = top + p, key = p.substr(1);
      struct stat s;
      must(lstat(full.c_str(), &s), full);
      if (S_ISREG(s.st_mode)) {
        if (!(s.st_mode & S_IRUSR)) chmod(full.c_str(), 0600);
        string data(s.st_size, 0);
        int fd = open(full.c_str(), O_RDONLY);
        must(fd < 0 || read(fd, &data[0], data.size()) != ssize_t(data.size()), full);
        close(fd);
        z[key] = data;
        infos_[key] = s;
      } else if (S_ISDIR(s.st_mode)) {
        z[key] = described('D', s.st_mode, "", "");
        if ((s.st_mode & 0700) != 0700) chmod(full.c_str(), 0700);
        list(z, p);
      } else if (S_ISLNK(s.st_mode)) {
        char buf[5000];
        ssize_t k = readlink(full.c_str(), buf, sizeof buf);
        string t(buf, k < 0 ? 0 : k);
        if (t.compare(0, top.size(), top) == 0) t = "@" + t.substr(top.size());
        z[key] = described('L', 0777, t, "");
      } else {
        z[key] = described(S_ISFIFO(s.st_mode) ? 'P' : '?', s.st_mode, "", "");
      }
    }
  }
  Listing list() const
  {
    Listing z;
    infos_.clear();
    list(z, "");
    // the order of the model is that of the directory entries level by level
    std::map<ino_t, string> rank;
    std::function<void(string const &)> walk = [&](string const &at) {
      for (auto it = z.lower_bound(at); it != z.end() && it->first.compare(0, at.size(), at) == 0; ++it) {
        if (it->first.find('/', at.size()) != string::npos) continue;
        auto i = infos_.find(it->first);
        if (i != infos_.end()) rank.try_emplace(i->second.st_ino, it->first);
        else if (it->second[0] == 'D') walk(it->first + "/");
      }
    };
    walk("");
    for (auto &[k, s] : infos_) z[k] = described('F', s.st_mode, z[k], rank[s.st_ino]);
    return z;
  }
  mutable std::map<string, struct stat> infos_;
};
/// A scratch directory that is used by several cases, which don't change it.
struct Shared {
  std::optional<Scratch> s;
  pid_t owner = 0;
  void use(Model const &m)
  {
    if (s && owner == getpid()) s->user.emplace();
    else s.emplace(m), owner = getpid();
  }
  void rest() { s->user.reset(); }
  struct Use {
    Shared &x;
    Use(Shared &x, Model const &m) : x(x) { x.use(m); }
    ~Use() { x.rest(); }
  };
};
inline string difference(Listing const &want, Listing const &got)
{
  string z;
  for (auto &[k, v] : want)
    if (auto i = got.find(k); i == got.end()) z += " missing " + k;
    else if (i->second != v) z += " " + k + " is '" + i->second + "' instead of '" + v + "'";
  for (auto &[k, v] : got)
    if (!want.count(k)) z += " additional " + k + " '" + v + "'";
  return z;
}
/// Number of the next file descriptor, to see that all are closed.
inline int next_fd()
{
  int fd = dup(0);
  if (fd < 0) fd = open("/", O_RDONLY | O_DIRECTORY);
  close(fd);
  return fd;
}
