// C10: IntrusiveDList against plain sequences, complete reachable state space over a few elements and two lists.
#include "mc.h"
#include <algorithm>
#include <swoc/IntrusiveDList.h>
#include <vector>

struct Item {
  int id;
  Item *_next = nullptr, *_prev = nullptr;
  swoc::IntrusiveLinks<Item> other;
  struct OtherLink {
    static Item *&next_ptr(Item *i) { return i->other._next; }
    static Item *&prev_ptr(Item *i) { return i->other._prev; }
  };
  using Linkage = swoc::IntrusiveLinkage<Item>;
};
using List  = swoc::IntrusiveDList<Item::Linkage>;
using Other = swoc::IntrusiveDList<Item::OtherLink>;
using Seq   = std::vector<int>;

static std::string text(Seq const &s)
{
  std::string z;
  for (int i : s) z += char('a' + i);
  return z;
}

template <typename L> static void verify_list(mc::Ctx &c, L &l, Seq const &m, std::vector<Item> &items)
{
  L const &cl = l;
  Seq got;
  for (auto &i : l) {
    got.push_back(i.id);
    MC_CHECK(c, got.size() <= items.size(), "forward iteration does not end");
  }
  MC_CHECK(c, got == m, "list is %s, expected %s", text(got).c_str(), text(m).c_str());
  got.clear();
  for (auto const &i : cl) {
    got.push_back(i.id);
    MC_CHECK(c, got.size() <= items.size(), "const iteration does not end");
  }
  MC_CHECK(c, got == m, "list by const iteration is %s, expected %s", text(got).c_str(), text(m).c_str());
  got.clear();
  auto spot = l.end();
  while (spot.has_prev()) {
    --spot;
    got.push_back(spot->id);
    MC_CHECK(c, got.size() <= items.size(), "backward iteration does not end");
  }
  std::reverse(got.begin(), got.end());
  MC_CHECK(c, got == m, "list backwards is %s, expected %s", text(got).c_str(), text(m).c_str());
  MC_CHECK(c, l.count() == m.size() && cl.empty() == m.empty(), "count is %zu, expected %zu", l.count(), m.size());
  MC_CHECK(c, l.head() == (m.empty() ? nullptr : &items[m.front()]) && cl.head() == l.head(), "head");
  MC_CHECK(c, l.tail() == (m.empty() ? nullptr : &items[m.back()]) && cl.tail() == l.tail(), "tail");
  for (auto &i : items) MC_CHECK(c, cl.contains(&i) == (std::find(m.begin(), m.end(), i.id) != m.end()), "contains(%c)", 'a' + i.id);
  for (unsigned n = 0; n < m.size() + 2; ++n) {
    auto it = l.nth(n);
    if (n < m.size()) MC_CHECK(c, it->id == m[n], "nth(%u) is %c", n, 'a' + it->id);
    else MC_CHECK(c, !it.has_next(), "nth(%u) of %zu is not empty", n, m.size());
  }
  for (size_t k = 0; k < m.size(); ++k) {
    auto it  = l.iterator_for(&items[m[k]]);
    auto cit = cl.iterator_for(&items[m[k]]);
    MC_CHECK(c, it == cit && &*it == &items[m[k]] && static_cast<Item *>(it) == &items[m[k]], "iterator_for");
    MC_CHECK(c, it.has_next() && it.has_prev() == (k > 0) && it.has_predecessor() == (k > 0) && it.has_successor() == (k + 1 < m.size()), "neighbour queries at %zu of %zu", k, m.size());
    auto post = it++;
    MC_CHECK(c, post == cit && (k + 1 < m.size() ? it->id == m[k + 1] : it == l.end()), "increment at %zu", k);
    auto back = it--;
    MC_CHECK(c, it == cit && (k + 1 < m.size() ? back->id == m[k + 1] : back == l.end()), "decrement to %zu", k);
    auto cpost = cit++;
    MC_CHECK(c, cpost->id == m[k] && (k + 1 < m.size() ? cit->id == m[k + 1] : cit == cl.end()), "const increment at %zu", k);
    auto cafter = cit;
    auto cback  = cit--;
    MC_CHECK(c, cit == cpost && cback == cafter, "const decrement to %zu", k);
    --cafter;
    MC_CHECK(c, cafter == cpost, "const decrement to %zu", k);
  }
  MC_CHECK(c, !l.end().has_next() && !l.end().has_successor() && l.end().has_prev() == !m.empty() && l.end().has_predecessor() == !m.empty(), "neighbours of end");
}

struct World {
  mc::Ctx &c;
  std::vector<Item> items;
  List a, b;
  Other o;
  Seq ma, mb, mo;
  std::vector<bool> clean; // removed by an operation that has to unlink it
  World(mc::Ctx &ctx, int n) : c(ctx), items(n), clean(n, true)
  {
    for (int i = 0; i < n; ++i) items[i].id = i;
    for (int i = 0; i < n; i += 2) o.append(&items[i]), mo.push_back(i);
  }
  int free_item()
  {
    for (auto &i : items)
      if (std::find(ma.begin(), ma.end(), i.id) == ma.end() && std::find(mb.begin(), mb.end(), i.id) == mb.end()) return i.id;
    return -1;
  }
  void verify()
  {
    verify_list(c, a, ma, items);
    verify_list(c, b, mb, items);
    verify_list(c, o, mo, items);
    for (auto &i : items)
      if (clean[i.id] && std::find(ma.begin(), ma.end(), i.id) == ma.end() && std::find(mb.begin(), mb.end(), i.id) == mb.end())
        MC_CHECK(c, i._next == nullptr && i._prev == nullptr, "removed element %c is still linked", 'a' + i.id);
  }
  std::string canon()
  {
    std::string s = text(ma) + "/" + text(mb) + "/";
    for (bool b : clean) s += b ? '1' : '0';
    return s;
  }
};

static void sub(Seq &from, size_t i, size_t n, Seq &to)
{
  to.assign(from.begin() + i, from.begin() + i + n);
  from.erase(from.begin() + i, from.begin() + i + n);
}

/// One of [0, n): all of them, or those at the ends, in the middle and around powers of two.
static int some(mc::Ctx &c, int n)
{
  if (n < 12) return c.choose(n);
  std::vector<int> v;
  for (int i : {0, 1, 63, 64, n / 2, 255, 256, n - 3, n - 2, n - 1})
    if (i < n && (v.empty() || v.back() < i)) v.push_back(i);
  return c.pick(v);
}

static void op(World &w)
{
  auto &c  = w.c;
  int n    = int(w.ma.size());
  int v    = w.free_item();
  auto it  = [&](int k) { return k < n ? w.a.iterator_for(&w.items[w.ma[k]]) : w.a.end(); };
  auto ins = [&](int at) { w.ma.insert(w.ma.begin() + at, v); w.clean[v] = true; };
  // iterators taken before the operation
  std::vector<std::pair<int, List::iterator>> old;
  for (int i : w.ma) old.emplace_back(i, w.a.iterator_for(&w.items[i]));

  switch (c.choose(22)) {
  case 0:
    if (v < 0) c.skip();
    c.note("prepend %c", 'a' + v);
    w.a.prepend(&w.items[v]);
    ins(0);
    break;
  case 1:
    if (v < 0) c.skip();
    c.note("append %c", 'a' + v);
    w.a.append(&w.items[v]);
    ins(n);
    break;
  case 2: {
    if (v < 0) c.skip();
    int k = some(c, n + 1);
    bool i = c.flag();
    c.note("insert %c after position %d (%s)", 'a' + v, k, i ? "iterator" : "pointer");
    if (i) w.a.insert_after(it(k), &w.items[v]);
    else w.a.insert_after(static_cast<Item *>(it(k)), &w.items[v]);
    ins(std::min(k + 1, n));
  } break;
  case 3: {
    if (v < 0) c.skip();
    int k = some(c, n + 1);
    bool i = c.flag();
    c.note("insert %c before position %d (%s)", 'a' + v, k, i ? "iterator" : "pointer");
    if (i) w.a.insert_before(it(k), &w.items[v]);
    else w.a.insert_before(static_cast<Item *>(it(k)), &w.items[v]);
    ins(k);
  } break;
  case 4: {
    c.note("take_head");
    auto r = w.a.take_head();
    MC_CHECK(c, r == (n ? &w.items[w.ma[0]] : nullptr), "take_head result");
    if (n) w.ma.erase(w.ma.begin());
  } break;
  case 5: {
    c.note("take_tail");
    auto r = w.a.take_tail();
    MC_CHECK(c, r == (n ? &w.items[w.ma[n - 1]] : nullptr), "take_tail result");
    if (n) w.ma.pop_back();
  } break;
  case 6: {
    if (!n) c.skip();
    int k  = some(c, n);
    bool i = c.flag();
    c.note("erase position %d (%s)", k, i ? "iterator" : "pointer");
    Item *next = k + 1 < n ? &w.items[w.ma[k + 1]] : nullptr;
    if (i) MC_CHECK(c, static_cast<Item *>(w.a.erase(it(k))) == next, "erase result");
    else MC_CHECK(c, w.a.erase(static_cast<Item *>(it(k))) == next, "erase result");
    w.ma.erase(w.ma.begin() + k);
  } break;
  case 7: {
    int i = some(c, n + 1), j = i + some(c, n + 1 - i);
    c.note("erase [%d, %d)", i, j);
    auto r = w.a.erase(it(i), it(j));
    MC_CHECK(c, static_cast<Item *>(r) == (j < n ? &w.items[w.ma[j]] : nullptr), "range erase result");
    w.ma.erase(w.ma.begin() + i, w.ma.begin() + j);
  } break;
  case 8: case 9: case 10: case 11: {
    static char const *name[] = {"take_prefix", "split_prefix", "take_suffix", "split_suffix"};
    int how = c.sh->choice[c.pos - 1] - 8;
    int k   = some(c, n + 2);
    c.note("%s(%d), appended to the other list", name[how], k);
    List t = how == 0 ? w.a.take_prefix(k) : how == 1 ? w.a.split_prefix(k) : how == 2 ? w.a.take_suffix(k) : w.a.split_suffix(k);
    Seq mt;
    if (k <= n || how == 0 || how == 2) {
      size_t m = std::min(k, n);
      sub(w.ma, how < 2 ? 0 : n - m, m, mt);
    }
    verify_list(c, t, mt, w.items);
    w.b.append(t);
    verify_list(c, t, {}, w.items);
    w.mb.insert(w.mb.end(), mt.begin(), mt.end());
  } break;
  case 12:
    c.note("append the other list");
    w.a.append(w.b);
    w.ma.insert(w.ma.end(), w.mb.begin(), w.mb.end());
    w.mb.clear();
    break;
  case 13:
    c.note("prepend the other list");
    w.a.prepend(w.b);
    w.ma.insert(w.ma.begin(), w.mb.begin(), w.mb.end());
    w.mb.clear();
    break;
  case 14: case 15: {
    bool after = c.sh->choice[c.pos - 1] == 14;
    if (!n) c.skip();
    int k  = some(c, n);
    bool i = c.flag();
    c.note("splice the other list %s position %d (%s)", after ? "after" : "before", k, i ? "iterator" : "pointer");
    if (after) {
      if (i) w.a.insert_after(it(k), w.b);
      else w.a.insert_after(static_cast<Item *>(it(k)), w.b);
    } else {
      if (i) w.a.insert_before(it(k), w.b);
      else w.a.insert_before(static_cast<Item *>(it(k)), w.b);
    }
    w.ma.insert(w.ma.begin() + k + after, w.mb.begin(), w.mb.end());
    w.mb.clear();
  } break;
  case 16:
    c.note("clear");
    w.a.clear();
    for (int i : w.ma) w.clean[i] = false; // documented as no work on the elements
    w.ma.clear();
    break;
  case 17: {
    c.note("move construct and assign back");
    List t(std::move(w.a));
    verify_list(c, w.a, {}, w.items);
    verify_list(c, t, w.ma, w.items);
    w.a = std::move(t);
    verify_list(c, t, {}, w.items);
  } break;
  case 18:
    c.note("self move assign");
    w.a = std::move(*&w.a);
    break;
  case 19: {
    c.note("apply erasing every other element (pointer functor)");
    int k = 0;
    Seq seen, keep;
    w.a.apply([&](Item *i) {
      seen.push_back(i->id);
      if (k++ % 2 == 0) w.a.erase(i);
      else keep.push_back(i->id);
    });
    MC_CHECK(c, seen == w.ma, "apply visited %s of %s", text(seen).c_str(), text(w.ma).c_str());
    w.ma = keep;
  } break;
  case 20: {
    c.note("apply (reference functor)");
    Seq seen;
    w.a.apply([&](Item &i) -> void { seen.push_back(i.id); });
    MC_CHECK(c, seen == w.ma, "apply visited %s of %s", text(seen).c_str(), text(w.ma).c_str());
  } break;
  case 21:
    c.note("exchange lists");
    {
      List t(std::move(w.a));
      w.a = std::move(w.b);
      w.b = std::move(t);
    }
    std::swap(w.ma, w.mb);
    break;
  }
  // iterators to elements still in the list
  for (auto &[id, i] : old) {
    auto spot = std::find(w.ma.begin(), w.ma.end(), id);
    if (spot == w.ma.end()) continue;
    size_t k = spot - w.ma.begin();
    MC_CHECK(c, i->id == id, "iterator does not refer to its element any more");
    auto next = i;
    ++next;
    MC_CHECK(c, k + 1 < w.ma.size() ? next->id == w.ma[k + 1] : !next.has_next(), "iterator kept across an operation is off at its successor");
    if (k > 0) {
      --i;
      MC_CHECK(c, i->id == w.ma[k - 1], "iterator kept across an operation is off at its predecessor");
    }
  }
}

MC_HISTORIES(closure, 2, "every operation (all positions, ranges and counts, pointer and iterator forms) from every reachable arrangement of 4 (5) elements in two lists; an independent list through other links of the same elements")
{
  World w(c, c.thorough ? 5 : 4);
  int depth = c.thorough ? 12 : 11;
  for (int d = 0; d < depth; ++d) {
    op(w);
    c.step();
    if (c.pos > c.fresh_from) {
      w.verify();
      auto s = w.canon();
      c.state(s);
      if (c.pos > 3) c.prune(s, depth - d - 1);
    }
  }
}
MC_HISTORIES(unmatched, 2, "all histories of 4 (5) operations on 3 elements without state matching")
{
  World w(c, 3);
  int depth = c.thorough ? 5 : 4;
  for (int d = 0; d < depth; ++d) {
    op(w);
    c.step();
    if (c.pos > c.fresh_from) {
      w.verify();
      c.state(w.canon());
    }
  }
}
MC_HISTORIES(scale, 2, "lists of 30, 260 and 300 elements in two arrangements: every operation with positions and counts at the ends, in the middle and around powers of two, in sequences of 1 (2)")
{
  static const int sizes[] = {30, 260, 300};
  int n = c.pick(sizes), k = c.choose(4);
  World w(c, n);
  int in_b = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? n / 3 : n - 30;
  for (int i = 0; i + 2 < n; ++i) {
    List &l  = i < in_b ? w.b : w.a;
    Seq &seq = i < in_b ? w.mb : w.ma;
    if (k % 2) l.append(&w.items[i]), seq.push_back(i);
    else l.prepend(&w.items[i]), seq.insert(seq.begin(), i);
  }
  for (int d = 0; d < (c.thorough ? 2 : 1); ++d) {
    op(w);
    c.step();
    if (c.pos > c.fresh_from) w.verify();
  }
  c.outcome(w.canon());
}
