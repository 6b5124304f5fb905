FSC = "code/src/swoc_file.cc"
BWC = "code/src/bw_format.cc"
TVC = "code/src/TextView.cc"
LXH = "code/include/swoc/Lexicon.h"
bug("c33-deep-cwd", "C33",
    [(FSC, "ERANGE == errno", "ENAMETOOLONG == errno")],
    r"""
#include <swoc/swoc_file.h>
#include <unistd.h>
#include <sys/stat.h>
#include <string>
int main() {
  char top[4096];
  if (!getcwd(top, sizeof(top))) return 1;
  std::string name(250, 'n'), want = top;
  int n = 20;
  for (int i = 0; i < n; ++i) {
    if (mkdir(name.c_str(), 0755) || chdir(name.c_str())) return 3;
    want += "/" + name;
  }
  bool ok = swoc::file::current_path().string() == want;
  for (int i = 0; i < n; ++i)
    if (chdir("..") || rmdir(name.c_str())) return 4;
  return !ok;
}""", "a current directory of more than 4096 characters", "it is reported as empty path")
bug("c32-copy-exec", "C32",
    [(FSC, "O_WRONLY | O_CREAT, src_fs.mode())", "O_WRONLY | O_CREAT, src_fs.mode() & 0666)")],
    r"""
#include <swoc/swoc_file.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
int main() {
  umask(022);
  int fd = open("prog", O_WRONLY | O_CREAT, 0755);
  if (fd < 0 || write(fd, "#!", 2) != 2) return 3;
  close(fd);
  std::error_code ec;
  if (!swoc::file::copy(swoc::file::path("prog"), swoc::file::path("copy"), ec)) return 1;
  struct stat s;
  return stat("copy", &s) || (s.st_mode & 0777) != 0755;
}""", "a source that can be executed", "the copy can't be executed")
bug("c19-pattern-full", "C19",
    [(BWC, "    while (n < limit) {\n", "    while (n < limit && w.remaining() > 0) { // no point in going on if it's full.\n")],
    r"""
#include <swoc/BufferWriter.h>
#include <swoc/bwf_base.h>
#include <swoc/bwf_ex.h>
int main() {
  std::string s;
  swoc::bwprint(s, "{}", swoc::bwf::Pattern{100, "abc"}); // grows from nothing
  if (s.size() != 300) return 1;
  char buff[10];
  swoc::FixedBufferWriter w(buff, sizeof(buff));
  w.print("{}", swoc::bwf::Pattern{7, "xy"});
  return w.extent() != 14;
}""", "a pattern that doesn't fit the buffer", "the extent is that of the buffer and not of the output, a growing string is cut off")
