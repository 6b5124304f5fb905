// C18: buffer writers under every operation sequence, a byte array as model.
#include "mc.h"
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <swoc/ArenaWriter.h>
#include <swoc/BufferWriter.h>
#include <swoc/MemArena.h>
#include <swoc/MemSpan.h>
#include <swoc/TextView.h>
using swoc::ArenaWriter;
using swoc::BufferWriter;
using swoc::FixedBufferWriter;
using swoc::LocalBufferWriter;
using swoc::MemArena;
using swoc::MemSpan;
using swoc::TextView;

static constexpr int UNKNOWN = -1; // byte with unspecified value.

struct Model {
  std::vector<int> mem; // bytes of the buffer.
  size_t cap = 0, ext = 0;
  size_t size() const { return std::min(cap, ext); }
  void put(int ch)
  {
    if (ext < cap) mem[ext] = ch;
    ++ext;
  }
  void copy(size_t dst, size_t src, size_t n)
  {
    auto at    = [&](size_t i) { return i < cap ? mem[i] : UNKNOWN; };
    std::vector<int> out = mem;
    for (size_t i = 0; i < n && dst + i < ext && src + i < ext; ++i)
      if (dst + i < cap) out[dst + i] = at(src + i);
    mem = out;
  }
};

/// A writer without any overrides beyond those required.
struct Plain : public BufferWriter {
  std::string text;
  size_t cap;
  size_t ext = 0;
  explicit Plain(size_t n) : text(n, '.'), cap(n) {}
  using BufferWriter::write;
  Plain &write(char c) override
  {
    if (ext < cap) text[ext] = c;
    ++ext;
    return *this;
  }
  const char *data() const override { return text.data(); }
  bool error() const override { return ext > cap; }
  size_t capacity() const override { return cap; }
  size_t extent() const override { return ext; }
  bool commit(size_t n) override
  {
    ext += n;
    return true;
  }
  Plain &discard(size_t n) override
  {
    ext -= n;
    return *this;
  }
  Plain &restrict(size_t n) override
  {
    cap -= n;
    return *this;
  }
  Plain &restore(size_t n) override
  {
    cap += n;
    return *this;
  }
  Plain &copy(size_t, size_t, size_t) override { return *this; }
  std::ostream &operator>>(std::ostream &s) const override { return s << std::string(text.data(), size()); }
};

static void verify(mc::Ctx &c, FixedBufferWriter &w, Model &m, char const *base)
{
  MC_CHECK(c, w.capacity() == m.cap, "capacity is %zu, not %zu", w.capacity(), m.cap);
  MC_CHECK(c, w.extent() == m.ext, "extent is %zu, not %zu", w.extent(), m.ext);
  MC_CHECK(c, w.size() == m.size(), "size is %zu, not %zu", w.size(), m.size());
  MC_CHECK(c, w.remaining() == m.cap - m.size(), "remaining is %zu, not %zu", w.remaining(), m.cap - m.size());
  MC_CHECK(c, w.error() == (m.ext > m.cap), "error is %d at extent %zu, capacity %zu", w.error(), m.ext, m.cap);
  MC_CHECK(c, w.data() == base, "start of the buffer moved");
  for (size_t i = 0; i < m.mem.size(); ++i) {
    if (m.mem[i] == UNKNOWN) m.mem[i] = static_cast<unsigned char>(base[i]);
    MC_CHECK(c, m.mem[i] == static_cast<unsigned char>(base[i]), "byte %zu of the buffer is %d, not %d (extent %zu, capacity %zu)", i, static_cast<unsigned char>(base[i]), m.mem[i], m.ext, m.cap);
  }
  TextView v = w.view();
  MC_CHECK(c, v.size() == m.size() && v.data() == base, "view is not the used part of the buffer");
  MC_CHECK(c, std::string_view(w) == v && TextView(w) == v, "conversion differs from view()");
  auto span = w.aux_span();
  MC_CHECK(c, span.size() == m.cap - m.size(), "aux_span is of size %zu, not %zu", span.size(), m.cap - m.size());
  if (span.size()) MC_CHECK(c, w.aux_data() == base + m.ext && span.data() == base + m.ext, "aux_data is not the first unused byte");
  if (m.ext > m.cap) MC_CHECK(c, w.aux_data() == nullptr, "aux_data of a full writer is not null");
  std::ostringstream os;
  os << w;
  MC_CHECK(c, os.str() == std::string_view(v), "streamed text differs from the content");
}

static std::string canon(Model const &m, size_t withheld)
{
  std::string s = mc::strf("%zu/%zu/%zu:", m.cap, m.ext, withheld);
  std::map<int, int> names;
  for (int b : m.mem) s += char('a' + names.emplace(b, int(names.size())).first->second);
  return s;
}

static void run_fixed(mc::Ctx &c, int max_cap, int depth)
{
  size_t n   = c.choose(max_cap + 1);
  auto store = std::make_unique<char[]>(n ? n : 1);
  auto other = std::make_unique<char[]>(3);
  char *base = store.get();
  memset(base, '.', n ? n : 1);
  memset(other.get(), ':', 3);
  std::unique_ptr<FixedBufferWriter> w;
  switch (c.choose(n ? 3 : 4)) {
  case 0: w = std::make_unique<FixedBufferWriter>(base, n); break;
  case 1: w = std::make_unique<FixedBufferWriter>(MemSpan<char>{base, n}); break;
  case 2: w = std::make_unique<FixedBufferWriter>(MemSpan<void>{base, n}); break;
  default:
    c.note("measuring writer");
    base = nullptr;
    w    = std::make_unique<FixedBufferWriter>(nullptr);
  }
  Model m;
  m.cap = n;
  m.mem.assign(n, '.');
  size_t withheld = 0;
  char next       = 'A';
  verify(c, *w, m, base);
  for (int d = 0; d < depth; ++d) {
    c.prune(canon(m, withheld) + (base ? base == store.get() ? "" : "o" : "n"), depth - d);
    static const size_t LENS[] = {0, 1, 2, 3, 6};
    switch (c.choose(13)) {
    case 0: {
      c.note("write '%c'", next);
      w->write(next);
      m.put(next++);
      break;
    }
    case 1: {
      std::string text;
      for (size_t k = LENS[c.choose(5)]; k; --k) text += next++;
      c.note("write %s", mc::show(text).c_str());
      switch (c.choose(text.size() == 2 ? 4 : 1)) {
      case 0: w->write(text.data(), text.size()); break;
      case 1: w->write(std::string_view(text)); break;
      case 2: w->write(MemSpan<void const>{text.data(), text.size()}); break;
      default: static_cast<BufferWriter &>(*w).write(TextView(text)); break;
      }
      for (char ch : text) m.put(ch);
      break;
    }
    case 2: {
      // Normal use of the unused space: fill some, commit that much.
      auto span = w->aux_span();
      size_t k  = c.choose(int(span.size()) + 1);
      c.note("fill %zu and commit", k);
      for (size_t i = 0; i < k; ++i) {
        span[i]          = next;
        m.mem[m.ext + i] = next++;
      }
      MC_CHECK(c, w->commit(k), "commit has to be final");
      m.ext += k;
      break;
    }
    case 3: {
      size_t k = 1 + c.choose(3);
      c.note("commit %zu", k);
      MC_CHECK(c, w->commit(k), "commit has to be final");
      m.ext += k;
      break;
    }
    case 4: {
      size_t k = c.choose(int(std::min<size_t>(m.ext, 6)) + 2);
      c.note("discard %zu", k);
      w->discard(k);
      m.ext -= std::min(m.ext, k);
      break;
    }
    case 5: {
      size_t k = c.choose(int(m.cap) + 2);
      c.note("restrict %zu", k);
      bool thrown = false;
      try {
        w->restrict(k);
      } catch (std::invalid_argument &) {
        thrown = true;
      }
      MC_CHECK(c, thrown == (k > m.cap), "restricting capacity %zu by %zu %s", m.cap, k, thrown ? "threw" : "did not throw");
      if (!thrown) {
        m.cap    -= k;
        withheld += k;
      }
      break;
    }
    case 6: {
      size_t k = c.choose(int(withheld) + 1);
      c.note("restore %zu", k);
      w->restore(k);
      if (m.ext > m.cap) m.ext = m.cap;
      m.cap    += k;
      withheld -= k;
      break;
    }
    case 7: {
      size_t lim = std::min<size_t>(m.ext, 5) + 1;
      size_t dst = c.choose(int(lim) + 1), src = c.choose(int(lim) + 1), k = c.choose(int(lim) + 1);
      c.note("copy to %zu from %zu, %zu bytes", dst, src, k);
      w->copy(dst, src, k);
      m.copy(dst, src, k);
      break;
    }
    case 8:
      c.note("clear");
      w->clear();
      m.ext = 0;
      break;
    case 9: {
      c.note("move construct");
      auto v = std::make_unique<FixedBufferWriter>(std::move(*w));
      MC_CHECK(c, w->capacity() == 0 && w->extent() == 0 && w->size() == 0 && !w->error(), "moved from writer is not empty");
      w->write("xyz", 3);
      MC_CHECK(c, w->extent() == 3 && w->error(), "moved from writer does not measure");
      w = std::move(v);
      break;
    }
    case 10: {
      c.note("move assign");
      auto v = std::make_unique<FixedBufferWriter>(MemSpan<char>{other.get(), 3});
      v->write('?');
      other[0] = ':';
      *v       = std::move(*w);
      MC_CHECK(c, w->capacity() == 0 && w->extent() == 0, "moved from writer is not empty");
      w = std::move(v);
      for (int i = 0; i < 3; ++i) MC_CHECK(c, other[i] == ':', "previous buffer was changed");
      break;
    }
    case 11: {
      c.note("assign the original buffer");
      w->assign(MemSpan<char>{store.get(), n});
      base     = store.get();
      m.cap    = n;
      m.ext    = 0;
      withheld = 0;
      break;
    }
    default: {
      c.note("detach");
      w->detach();
      base  = nullptr;
      m.cap = m.ext = withheld = 0;
      m.mem.clear();
      m.mem.shrink_to_fit();
      for (size_t i = 0; i < n; ++i) m.mem.push_back(static_cast<unsigned char>(store[i]));
      // Keep watching the buffer by attaching it again.
      MC_CHECK(c, w->data() == nullptr && w->capacity() == 0 && w->extent() == 0 && w->view().empty(), "detached writer is not empty");
      w->write("abc", 3).write('d');
      MC_CHECK(c, w->extent() == 4 && w->size() == 0 && w->error(), "detached writer does not measure");
      for (size_t i = 0; i < n; ++i) MC_CHECK(c, m.mem[i] == static_cast<unsigned char>(store[i]), "detached buffer was changed");
      w->assign(MemSpan<char>{store.get(), n});
      base  = store.get();
      m.cap = n;
      break;
    }
    }
    c.step();
    verify(c, *w, m, base);
    c.state(canon(m, withheld));
  }
}

MC_HISTORIES(fixed_writer, 3, "all operation sequences on fixed and measuring buffer writers of each small capacity")
{
  run_fixed(c, c.thorough ? 5 : 4, c.thorough ? 5 : 4);
}

template <size_t N> static void run_local(mc::Ctx &c, int depth)
{
  struct {
    unsigned char front[16];
    LocalBufferWriter<N> w;
    unsigned char back[16];
  } s;
  memset(s.front, 0xA5, 16);
  memset(s.back, 0x5A, 16);
  std::string full;
  for (int d = 0; d < depth; ++d) {
    switch (c.choose(5)) {
    case 0: {
      size_t k = c.choose(int(N) + 3);
      std::string text;
      for (size_t i = 0; i < k; ++i) text += char('a' + (full.size() + i) % 26);
      c.note("write %zu", k);
      s.w.write(text);
      full += text;
      break;
    }
    case 1:
      s.w.write('!');
      c.note("write one");
      full += '!';
      break;
    case 2: {
      // Open space in front of the content, as done for alignment.
      size_t k = 1 + c.choose(int(N) + 1), ext = full.size();
      c.note("shift by %zu", k);
      s.w.commit(k);
      s.w.copy(k, 0, ext);
      s.w.discard(ext + k);
      for (size_t i = 0; i < k; ++i) s.w.write('-');
      s.w.commit(ext);
      full.insert(0, k, '-');
      break;
    }
    case 3:
      s.w.clear();
      c.note("clear");
      full.clear();
      break;
    default: {
      size_t k = c.choose(int(std::min<size_t>(full.size(), N + 2)) + 1);
      c.note("discard %zu", k);
      s.w.discard(k);
      full.resize(full.size() - k);
      break;
    }
    }
    c.step();
    MC_CHECK(c, s.w.capacity() == N && s.w.extent() == full.size(), "extent is %zu of %zu", s.w.extent(), full.size());
    MC_CHECK(c, s.w.view() == TextView(full).prefix(N), "content is %s, not the start of %s", mc::show(s.w.view()).c_str(), mc::show(full).c_str());
    MC_CHECK(c, s.w.error() == (full.size() > N), "error state");
    for (auto b : s.front) MC_CHECK(c, b == 0xA5, "write in front of the writer");
    for (auto b : s.back) MC_CHECK(c, b == 0x5A, "write behind the writer");
    c.state(mc::strf("%zu:", N) + full);
  }
}

MC_HISTORIES(local_writer, 2, "all operation sequences on writers with an internal buffer, the full output as model")
{
  int depth = c.thorough ? 5 : 4;
  switch (c.choose(3)) {
  case 0: run_local<1>(c, depth + 1); break;
  case 1: run_local<3>(c, depth); break;
  default: run_local<5>(c, depth); break;
  }
}

MC_HISTORIES(arena_writer, 2, "all operation sequences on arena backed writers, the full output as model")
{
  int depth = c.thorough ? 5 : 4;
  alignas(16) char block[128];
  auto mk = [&]() -> std::unique_ptr<MemArena> {
    switch (c.choose(4)) {
    case 0: return std::make_unique<MemArena>();
    case 1: return std::make_unique<MemArena>(MemSpan<void>{block, sizeof(block)});
    case 2: {
      auto a = std::make_unique<MemArena>();
      a->alloc(11);
      return a;
    }
    default: {
      auto a = std::make_unique<MemArena>(64);
      a->alloc(a->remaining());
      return a;
    }
    }
  };
  auto arena = mk();
  // Something already in the arena, which has to survive, leaving only a bit of space.
  size_t leave = c.choose(4);
  if (arena->remaining() > leave) arena->alloc(arena->remaining() - leave);
  auto keep = arena->alloc(arena->remaining() ? 1 : 0).rebind<char>();
  if (keep.size()) keep[0] = '#';
  size_t before = arena->size();
  ArenaWriter w(*arena);
  std::string full;
  int ch       = 0;
  auto fresh = [&]() { return char('a' + ch++ % 26); };
  for (int d = 0; d < depth; ++d) {
    switch (c.choose(7)) {
    case 0:
      c.note("write one");
      full += fresh();
      w.write(full.back());
      break;
    case 1: {
      size_t rest = w.remaining();
      std::vector<size_t> lens{0, 2, rest, rest + 1, w.capacity() + 700};
      size_t k = lens[c.choose(int(lens.size()))];
      std::string text;
      while (text.size() < k) text += fresh();
      c.note("write %zu with %zu remaining", k, rest);
      if (k == 2) w.write(std::string_view(text));
      else w.write(text.data(), k);
      full += text;
      break;
    }
    case 2: {
      size_t rest = w.remaining();
      std::vector<size_t> lens{0, 1, rest, rest + 1, rest + 40};
      size_t k = lens[c.choose(int(lens.size()))];
      c.note("fill and commit %zu with %zu remaining", k, rest);
      std::string text;
      while (text.size() < k) text += fresh();
      int tries = 0;
      while (true) {
        auto span = w.aux_span();
        memcpy(span.data(), text.data(), std::min(k, span.size()));
        bool fits = k <= span.size();
        bool ok   = w.commit(k);
        MC_CHECK(c, ok == fits, "commit of %zu in %zu is %d", k, span.size(), ok);
        if (ok) break;
        MC_CHECK(c, ++tries < 3, "commit asks for a retry for ever");
        MC_CHECK(c, w.extent() == full.size(), "commit to be retried changed the extent");
        MC_CHECK(c, w.view() == TextView(full), "commit to be retried changed the content to %s", mc::show(w.view()).c_str());
      }
      full += text;
      break;
    }
    case 3: {
      size_t k = full.size() > 1 && c.flag() ? full.size() - 1 : 1;
      c.note("discard %zu", k);
      w.discard(k);
      full.resize(full.size() - std::min(k, full.size()));
      break;
    }
    case 4: {
      if (full.empty()) c.skip();
      size_t k = 1 + c.choose(3);
      c.note("shift by %zu", k);
      // Open space in front, shifting the content.
      std::string pad(k, '-');
      w.write(pad);
      w.copy(k, 0, full.size());
      w.copy(0, k + full.size(), 5); // nothing there.
      full = full.substr(0, k) + full;
      // Content before the copy stays in the first part, if there was less then it is the padding.
      full = (full.size() < k + k ? std::string(w.view()) : full);
      break;
    }
    case 5:
      c.note("clear");
      w.clear();
      full.clear();
      break;
    default: {
      c.note("keep the output, continue with a new writer");
      auto span = arena->alloc(w.extent()).rebind<char>();
      MC_CHECK(c, TextView(span.data(), span.size()) == TextView(full), "memory allocated for the output holds %s, not %s", mc::show(TextView(span.data(), span.size())).c_str(), mc::show(full).c_str());
      MC_CHECK(c, arena->size() == before + full.size(), "arena size");
      c.step();
      c.state(mc::strf("kept %zu", full.size()));
      return;
    }
    }
    c.step();
    MC_CHECK(c, w.extent() == full.size() && w.size() == full.size() && !w.error(), "extent %zu, size %zu after output of %zu", w.extent(), w.size(), full.size());
    MC_CHECK(c, w.capacity() >= full.size() && w.remaining() == w.capacity() - full.size(), "capacity %zu, remaining %zu", w.capacity(), w.remaining());
    MC_CHECK(c, w.view() == TextView(full), "content is %s, not %s", mc::show(w.view()).c_str(), mc::show(full).c_str());
    MC_CHECK(c, arena->size() == before, "the writer allocated arena memory");
    if (full.size()) MC_CHECK(c, arena->contains(w.data()) && arena->contains(w.data() + full.size() - 1), "content is not in the arena");
    if (keep.size()) MC_CHECK(c, keep[0] == '#', "memory in use in the arena was changed");
    c.state(mc::strf("%zu/%zu", full.size(), w.remaining()));
  }
}

MC_HISTORIES(plain_writer, 1, "default implementations of the writer base class")
{
  size_t n = c.choose(5);
  Plain w(n);
  std::string full;
  for (int d = 0; d < 4; ++d) {
    size_t k = c.choose(4);
    std::string text;
    for (size_t i = 0; i < k; ++i) text += char('a' + full.size() + i);
    switch (c.choose(4)) {
    case 0: static_cast<BufferWriter &>(w).write(text.data(), k); break;
    case 1: w.write(MemSpan<void const>{text.data(), k}); break;
    case 2: w.write(std::string_view{text}); break;
    default:
      w.commit(k);
      text = std::string(k, '.');
      break;
    }
    full += text;
    c.step();
    MC_CHECK(c, w.extent() == full.size(), "extent");
    MC_CHECK(c, w.size() == std::min(n, full.size()) && w.remaining() == n - w.size(), "size %zu remaining %zu", w.size(), w.remaining());
    MC_CHECK(c, w.aux_data() == nullptr, "aux_data without override");
    MC_CHECK(c, w.text == (full + std::string(n, '.')).substr(0, n), "content %s of %s", w.text.c_str(), full.c_str());
    c.state(mc::strf("%zu", n) + full);
  }
}

MC_INPUTS(construct, 1, "construction from null and other memory")
{
  size_t n    = c.choose(3);
  bool thrown = false;
  try {
    FixedBufferWriter w{static_cast<char *>(nullptr), n};
    MC_CHECK(c, w.capacity() == 0, "capacity");
  } catch (std::invalid_argument &) {
    thrown = true;
  }
  MC_CHECK(c, thrown == (n != 0), "null buffer of size %zu accepted", n);
  c.outcome(mc::strf("%zu", n));
}

// ---- scale ----
static void verify_big(mc::Ctx &c, FixedBufferWriter &w, std::string &mem, size_t cap, size_t ext, char const *base)
{
  size_t size = std::min(cap, ext);
  MC_CHECK(c, w.capacity() == cap && w.extent() == ext && w.size() == size && w.remaining() == cap - size && w.error() == (ext > cap), "capacity %zu, extent %zu, size %zu: expected %zu, %zu, %zu", w.capacity(), w.extent(), w.size(), cap, ext, size);
  MC_CHECK(c, w.data() == base && memcmp(base, mem.data(), mem.size()) == 0, "content differs at extent %zu of %zu", ext, cap);
  auto span = w.aux_span();
  MC_CHECK(c, span.size() == cap - size && (span.empty() || span.data() == base + ext), "unused part is of size %zu of %zu", span.size(), cap - size);
}
MC_HISTORIES(fixed_scale, 3, "writers of 40..70000 bytes: sequences of a write, an operation, a write and an operation, sizes around powers of two and the capacity")
{
  static const size_t caps[] = {40, 255, 256, 257, 1000, 70000};
  size_t n = c.pick(caps);
  auto store = std::make_unique<char[]>(n);
  memset(store.get(), '.', n);
  std::string mem(n, '.');
  FixedBufferWriter w(store.get(), n);
  size_t cap = n, ext = 0;
  auto put = [&](size_t k) {
    std::string t;
    for (size_t i = 0; i < k; ++i) t += char('a' + (ext + i) % 26);
    c.note("write %zu", k);
    w.write(t.data(), k);
    if (ext < cap) mem.replace(ext, std::min(k, cap - ext), t, 0, std::min(k, cap - ext));
    ext += k;
  };
  for (int round = 0; round < 2; ++round) {
    std::vector<size_t> lens{1, 64, 255, 256, cap / 2, cap - std::min(cap, ext), cap + 1};
    if (round) lens = {0, 100, cap - std::min(cap, ext)};
    put(c.pick(lens));
    std::vector<size_t> ks{1, 31, 255, 256, ext / 2, ext, n / 2};
    if (round && !c.thorough) ks = {1, 256, ext};
    int op = c.choose(6);
    size_t k = c.pick(ks);
    switch (op) {
    case 0:
      c.note("discard %zu", k);
      w.discard(k);
      ext -= std::min(k, ext);
      break;
    case 1:
      if (k > cap) c.skip();
      c.note("restrict %zu", k);
      w.restrict(k);
      cap -= k;
      break;
    case 2:
      if (k > n - cap) c.skip();
      c.note("restore %zu", k);
      w.restore(k);
      ext = std::min(ext, cap);
      cap += k;
      break;
    case 3: { // as for alignment
      c.note("open space of %zu in front", k);
      size_t old = ext;
      w.commit(k);
      w.copy(k, 0, old);
      w.discard(old + k);
      std::string pad(k, '-');
      w.write(pad);
      w.commit(old);
      if (old > cap) { // part of the moved text was never kept
        cap = w.capacity();
      }
      std::string was = mem.substr(0, std::min(old, cap));
      if (k < cap) mem.replace(k, std::min(was.size(), cap - k), was, 0, std::min(was.size(), cap - k));
      mem.replace(0, std::min(k, cap), pad, 0, std::min(k, cap));
      ext = old + k;
      if (old > cap && k < cap) c.skip();
    } break;
    case 4: {
      if (k > ext) c.skip();
      c.note("copy to the front from %zu", k);
      size_t have = std::min(ext, cap);
      w.copy(0, k, have - std::min(k, have));
      if (k < have) mem.replace(0, have - k, mem.substr(k, have - k));
    } break;
    case 5: {
      c.note("move");
      FixedBufferWriter v(std::move(w));
      w = std::move(v);
      if (k != ks[0]) c.skip();
    } break;
    }
    c.step();
    verify_big(c, w, mem, cap, ext, store.get());
  }
  c.outcome(mc::strf("%zu %zu %zu", n, cap, ext));
}
MC_HISTORIES(arena_scale, 1, "output of up to 100000 bytes in pieces of 1..70000 to arena backed writers, by writes and by fill and commit, with discards and shifts in between")
{
  static const size_t pieces[] = {1, 13, 100, 255, 256, 1000, 4096, 5000, 70000};
  size_t piece = c.pick(pieces);
  int how = c.choose(4), start = c.choose(3);
  alignas(16) char block[300];
  MemArena arena = start == 0 ? MemArena() : start == 1 ? MemArena(MemSpan<void>{block, sizeof(block)}) : MemArena(5000);
  auto keep = arena.alloc(20).rebind<char>();
  memset(keep.data(), '#', 20);
  ArenaWriter w(arena);
  std::string full;
  size_t limit = piece < 10 ? 6000 : 100000;
  c.note("pieces of %zu, variant %d", piece, how);
  for (int i = 0; full.size() < limit; ++i) {
    std::string t;
    for (size_t k = 0; k < piece + i % 3; ++k) t += char('a' + (full.size() + k) % 26);
    if (how == 1) {
      for (int tries = 0;; ++tries) {
        MC_CHECK(c, tries < 3, "commit asks for a retry for ever");
        auto span = w.aux_span();
        memcpy(span.data(), t.data(), std::min(t.size(), span.size()));
        if (w.commit(t.size())) break;
      }
    } else if (piece == 1 && i % 2) {
      for (char x : t) w.write(x);
    } else {
      w.write(t);
    }
    full += t;
    if (how == 2 && i % 5 == 4) {
      size_t k = std::min(full.size(), piece / 2 + 1);
      w.discard(k);
      full.resize(full.size() - k);
    }
    if (how == 3 && i % 7 == 6) {
      std::string pad(33, '-');
      w.write(pad);
      w.copy(33, 0, full.size());
      full = full.substr(0, 33) + full;
      if (full.size() < 66) full = std::string(w.view());
    }
    c.step();
    MC_CHECK(c, w.extent() == full.size() && w.size() == full.size() && !w.error(), "extent %zu, size %zu after output of %zu", w.extent(), w.size(), full.size());
    if (piece > 50 || i % 50 == 0) MC_CHECK(c, w.view() == TextView(full), "content of %zu bytes is different", full.size());
    for (char x : keep) MC_CHECK(c, x == '#', "memory in use in the arena was changed");
    if (how == 2 && i > 2000) break;
  }
  MC_CHECK(c, w.view() == TextView(full), "content of %zu bytes is different", full.size());
  auto span = arena.alloc(w.extent()).rebind<char>();
  MC_CHECK(c, TextView(span.data(), span.size()) == TextView(full), "memory allocated for the output has other content");
  c.outcome(mc::strf("%zu %d %d %zu", piece, how, start, full.size()));
}
template <size_t N> static void local_scale(mc::Ctx &c)
{
  struct {
    unsigned char front[16];
    LocalBufferWriter<N> w;
    unsigned char back[16];
  } s;
  memset(s.front, 0xA5, 16);
  memset(s.back, 0x5A, 16);
  std::vector<size_t> ks{0, 1, 15, 16, 100, 255, 256, N / 2, N - 1, N, N + 1, 2 * N};
  std::string full;
  for (int i = 0; i < 3; ++i) {
    size_t k = c.pick(ks);
    std::string t;
    for (size_t j = 0; j < k; ++j) t += char('a' + (full.size() + j) % 26);
    c.note("write %zu", k);
    s.w.write(t);
    full += t;
    if (i == 1) {
      size_t d = c.pick(ks);
      if (d > full.size()) c.skip();
      if (full.size() > N && d > full.size() - N) ; // the content up to there is known
      c.note("discard %zu", d);
      s.w.discard(d);
      full.resize(full.size() - d);
    }
    c.step();
    MC_CHECK(c, s.w.capacity() == N && s.w.extent() == full.size() && s.w.error() == (full.size() > N), "extent is %zu of %zu", s.w.extent(), full.size());
    MC_CHECK(c, s.w.view() == TextView(full).prefix(N), "content of %zu bytes differs", full.size());
    for (auto b : s.front) MC_CHECK(c, b == 0xA5, "write in front of the writer");
    for (auto b : s.back) MC_CHECK(c, b == 0x5A, "write behind the writer");
  }
  c.outcome(mc::strf("%zu %zu", N, full.size()));
}
MC_HISTORIES(local_scale, 2, "three writes and a discard on writers with 64..1024 bytes inside")
{
  switch (c.choose(4)) {
  case 0: local_scale<64>(c); break;
  case 1: local_scale<255>(c); break;
  case 2: local_scale<256>(c); break;
  case 3: local_scale<1024>(c); break;
  }
}
