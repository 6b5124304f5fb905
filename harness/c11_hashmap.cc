// C11: IntrusiveHashMap against a multimap kept in insertion order per key.
#include "mc.h"
#include <algorithm>
#include <map>
#include <memory>
#include <swoc/IntrusiveHashMap.h>
#include <vector>

static uint64_t const *hash_table; // hash of each key, chosen per execution

struct Item {
  int id, key;
  Item *_next = nullptr, *_prev = nullptr;
};
struct Desc {
  static Item *&next_ptr(Item *i) { return i->_next; }
  static Item *&prev_ptr(Item *i) { return i->_prev; }
  static int key_of(Item *i) { return i->key; }
  static uint64_t hash_of(int k) { return hash_table[k]; }
  static bool equal(int a, int b) { return a == b; }
};
using Map = swoc::IntrusiveHashMap<Desc>;

static uint64_t const HASHES[][5] = {
  {0, 1, 2, 3, 4},                     // separate buckets
  {0, 7, 14, 91, 5},                   // collide with 7 buckets, not all with 13
  {5, 5, 5, 5, 5},                     // always collide
  {0, 3, 3, 9, 1},
  {~0ull, ~0ull - 7, 1ull << 63, 6, ~0ull >> 1},
};
static size_t const BUCKETS[] = {0, 1, 2, 7};

struct World {
  mc::Ctx &c;
  std::vector<Item> items;
  std::unique_ptr<Map> m;
  std::map<int, std::vector<int>> model; // key -> ids in insertion order
  std::vector<bool> in;
  Map::ExpansionPolicy policy = Map::AVERAGE;
  size_t limit                = 4;
  int erased = 0, clears = 0;
  int keys;

  World(mc::Ctx &ctx, std::vector<int> const &k) : c(ctx), in(k.size(), false), keys(0)
  {
    for (size_t i = 0; i < k.size(); ++i) items.push_back({int(i), k[i]}), keys = std::max(keys, k[i] + 1);
  }
  size_t size()
  {
    size_t n = 0;
    for (auto &[k, v] : model) n += v.size();
    return n;
  }
  void insert(int i)
  {
    auto &it = items[i];
    c.note("insert #%d (key %d)", i, it.key);
    size_t nb = m->bucket_count();
    m->insert(&it);
    model[it.key].push_back(i);
    in[i]     = true;
    size_t n  = size();
    size_t nn = m->bucket_count();
    MC_CHECK(c, nn >= nb, "bucket count went from %zu to %zu", nb, nn);
    if (nb == 0) return;
    size_t chain = 0, distinct = 0;
    for (auto &[k, v] : model)
      if (!v.empty() && hash_table[k] % nb == hash_table[it.key] % nb) chain += v.size(), ++distinct;
    switch (policy) {
    case Map::MANUAL: MC_CHECK(c, nn == nb, "manual expansion policy, but the table went from %zu to %zu", nb, nn); break;
    case Map::AVERAGE:
      if (n <= limit * nb) MC_CHECK(c, nn == nb, "average %zu/%zu is within the limit %zu, but the table was expanded", n, nb, limit);
      if (n / nb > limit) MC_CHECK(c, nn > nb, "average %zu/%zu is over the limit %zu, but the table was not expanded", n, nb, limit);
      break;
    case Map::MAXIMUM:
      if (chain <= limit || distinct == 1) MC_CHECK(c, nn == nb, "chain of %zu with %zu keys, limit %zu, but the table was expanded", chain, distinct, limit);
      else MC_CHECK(c, nn > nb, "chain of %zu with %zu keys, limit %zu, but the table was not expanded", chain, distinct, limit);
      break;
    }
  }
  void gone(int i)
  {
    auto &v = model[items[i].key];
    v.erase(std::find(v.begin(), v.end(), i));
    in[i] = false;
    ++erased;
    MC_CHECK(c, items[i]._next == nullptr && items[i]._prev == nullptr, "erased element is still linked");
  }
  std::vector<int> order()
  {
    std::vector<int> o;
    for (auto &i : *m) {
      o.push_back(i.id);
      MC_CHECK(c, o.size() <= items.size(), "iteration does not end");
    }
    return o;
  }
  void verify()
  {
    Map const &cm = *m;
    auto o        = order();
    size_t n      = size();
    MC_CHECK(c, m->count() == n && cm.count() == n, "count is %zu, expected %zu", m->count(), n);
    MC_CHECK(c, o.size() == n, "iteration has %zu elements, expected %zu", o.size(), n);
    std::vector<int> co;
    for (auto const &i : cm) {
      co.push_back(i.id);
      MC_CHECK(c, co.size() <= items.size(), "const iteration does not end");
    }
    MC_CHECK(c, o == co, "const iteration differs");
    std::vector<bool> seen(items.size(), false);
    for (int i : o) {
      MC_CHECK(c, in[i] && !seen[i], "iteration has element #%d %s", i, in[i] ? "twice" : "that is not in the map");
      seen[i] = true;
    }
    for (int k = 0; k < keys; ++k) {
      auto const &v = model[k];
      auto f        = m->find(k);
      auto cf       = cm.find(k);
      auto r        = m->equal_range(k);
      auto cr       = cm.equal_range(k);
      if (v.empty()) {
        MC_CHECK(c, f == m->end() && cf == cm.end(), "found key %d that is not in the map", k);
        MC_CHECK(c, r.begin() == r.end() && cr.begin() == cr.end(), "range of absent key %d is not empty", k);
      } else {
        MC_CHECK(c, f != m->end() && cf != cm.end() && f->key == k && f->id == v[0] && cf->id == v[0], "find(%d) did not give the first inserted element of the key", k);
        std::vector<int> got;
        for (auto &i : r) {
          got.push_back(i.id);
          MC_CHECK(c, got.size() <= items.size(), "range iteration does not end");
        }
        MC_CHECK(c, got == v, "equal_range(%d) has %zu elements (expected %zu) or a different order", k, got.size(), v.size());
        got.clear();
        for (auto &i : cr) {
          got.push_back(i.id);
          MC_CHECK(c, got.size() <= items.size(), "range iteration does not end");
        }
        MC_CHECK(c, got == v, "const equal_range(%d)", k);
      }
    }
    for (auto &i : items) {
      auto f  = m->find(&i);
      auto cf = cm.find(static_cast<Item const *>(&i));
      if (in[i.id]) {
        MC_CHECK(c, f != m->end() && &*f == &i && cf != cm.end() && &*cf == &i, "element #%d not found by address", i.id);
        MC_CHECK(c, &*m->iterator_for(&i) == &i, "iterator_for");
      } else {
        MC_CHECK(c, f == m->end() && cf == cm.end(), "element #%d found although it is not in the map", i.id);
      }
    }
    MC_CHECK(c, m->get_expansion_policy() == policy && m->get_expansion_limit() == limit, "policy settings");
  }
  std::string canon()
  {
    std::string s = mc::strf("%d/%zu/%d/%zu/%d/%d:", int(hash_table - HASHES[0]), m->bucket_count(), int(policy), limit, std::min(erased, 3), std::min(clears, 1));
    for (int i : order()) s += char('a' + i);
    return s;
  }
};

static void op(World &w, bool small)
{
  auto &c = w.c;
  int N   = int(w.items.size());
  switch (c.choose(small ? 9 : 13)) {
  case 0: case 1: { // twice as likely to matter: insertion of any element not in the map
    if (c.sh->choice[c.pos - 1] == 1) { // erase by address, also of elements that are not in the map
      int i = c.choose(N);
      c.note("erase by address #%d", i);
      bool r = w.m->erase(&w.items[i]);
      MC_CHECK(c, r == w.in[i], "erase of an element %s the map returned %d", w.in[i] ? "in" : "not in", r);
      if (r) w.gone(i);
    } else {
      int i = c.choose(N);
      if (w.in[i]) c.skip();
      w.insert(i);
    }
  } break;
  case 2: {
    auto o = w.order();
    if (o.empty()) c.skip();
    int k = c.choose(int(o.size()));
    c.note("erase iterator at #%d", o[k]);
    auto r = w.m->erase(w.m->iterator_for(&w.items[o[k]]));
    MC_CHECK(c, k + 1 < int(o.size()) ? r != w.m->end() && r->id == o[k + 1] : r == w.m->end(), "erase result is not the next element");
    w.gone(o[k]);
  } break;
  case 3: {
    int k = c.choose(w.keys);
    c.note("erase equal range of key %d", k);
    auto v = w.model[k];
    auto o = w.order();
    auto r = w.m->erase(w.m->equal_range(k));
    if (!v.empty()) {
      size_t at = std::find(o.begin(), o.end(), v.back()) - o.begin();
      MC_CHECK(c, at + 1 < o.size() ? r != w.m->end() && r->id == o[at + 1] : r == w.m->end(), "range erase result");
    }
    for (int i : v) w.gone(i);
  } break;
  case 4: {
    auto o = w.order();
    int n = int(o.size());
    int i = c.choose(n + 1), j = i + c.choose(n + 1 - i);
    c.note("erase positions [%d, %d)", i, j);
    auto at = [&](int k) { return k < n ? w.m->iterator_for(&w.items[o[k]]) : w.m->end(); };
    auto r  = w.m->erase(at(i), at(j));
    MC_CHECK(c, j < n ? r != w.m->end() && r->id == o[j] : r == w.m->end(), "range erase result");
    for (int k = i; k < j; ++k) w.gone(o[k]);
  } break;
  case 5: {
    size_t nb = w.m->bucket_count();
    c.note("expand");
    if (nb > 3000) c.skip();
    w.m->expand();
    MC_CHECK(c, w.m->bucket_count() > nb, "expand did not add buckets");
  } break;
  case 6:
    c.note("clear");
    w.m->clear();
    for (auto &[k, v] : w.model) v.clear();
    w.in.assign(w.in.size(), false);
    ++w.clears;
    break;
  case 7: {
    static const struct { Map::ExpansionPolicy p; size_t n; } set[] = {{Map::AVERAGE, 1}, {Map::MAXIMUM, 1}, {Map::MAXIMUM, 2}, {Map::MANUAL, 4}, {Map::AVERAGE, 0}};
    int k = c.choose(5);
    c.note("policy %d limit %zu", int(set[k].p), set[k].n);
    w.m->set_expansion_policy(set[k].p).set_expansion_limit(set[k].n);
    w.policy = set[k].p, w.limit = set[k].n;
  } break;
  case 8: {
    c.note("apply erasing every other");
    int k = 0;
    std::vector<int> seen, die;
    auto o = w.order();
    w.m->apply([&](Item *i) {
      seen.push_back(i->id);
      if (k++ % 2 == 0) w.m->erase(w.m->iterator_for(i)), die.push_back(i->id);
    });
    MC_CHECK(c, seen == o, "apply did not visit every element once in order");
    for (int i : die) w.gone(i);
  } break;
  case 9: {
    c.note("move construct");
    auto t = std::make_unique<Map>(std::move(*w.m));
    MC_CHECK(c, w.m->count() == 0 && w.m->begin() == w.m->end(), "moved-from map is not empty");
    MC_CHECK(c, w.m->find(0) == w.m->end(), "moved-from map finds elements");
    Item x{99, 0};
    w.m->insert(&x);
    MC_CHECK(c, w.m->count() == 1 && w.m->find(0) != w.m->end(), "moved-from map is not usable");
    w.m = std::move(t);
  } break;
  case 10: {
    c.note("apply by reference");
    std::vector<int> seen;
    auto o = w.order();
    w.m->apply([&](Item &i) -> void { seen.push_back(i.id); });
    MC_CHECK(c, seen == o, "apply did not visit every element once in order");
  } break;
  case 11: {
    c.note("erase everything one by one from the front");
    while (w.m->count()) {
      int i = w.m->begin()->id;
      w.m->erase(w.m->begin());
      w.gone(i);
    }
  } break;
  case 12: {
    c.note("insert all");
    for (int i = 0; i < N; ++i)
      if (!w.in[i]) w.insert(i);
  } break;
  }
}

static void run(mc::Ctx &c, std::vector<int> const &keys, int depth, bool match, bool small)
{
  bool all = c.thorough || small;
  int h = c.choose(all ? 5 : 4), b = all ? c.choose(4) : c.choose(2) * 3;
  if (!all && h == 3) h = 4;
  hash_table = HASHES[h];
  World w(c, keys);
  c.note("hashes %d, %zu buckets", h, BUCKETS[b]);
  w.m = std::make_unique<Map>(BUCKETS[b]);
  MC_CHECK(c, w.m->bucket_count() >= BUCKETS[b], "%zu buckets asked, got %zu", BUCKETS[b], w.m->bucket_count());
  for (int d = 0; d < depth; ++d) {
    op(w, small);
    c.step();
    if (c.pos > c.fresh_from) {
      w.verify();
      auto s = w.canon() + std::to_string(b);
      c.state(s);
      if (match && d >= 1) c.prune(s, depth - d - 1);
    }
  }
}

MC_HISTORIES(histories, 3, "5 elements with 3 keys, 4 (5) hash patterns, 2 (4) initial sizes: all histories of 5 (6) of 13 operations, matched by iteration order, size, policy and erasures")
{
  run(c, {0, 1, 0, 2, 1}, c.thorough ? 6 : 5, true, false);
}
MC_HISTORIES(unmatched, 3, "4 elements with 2 keys: all histories of 4 (5) of 9 operations without state matching")
{
  run(c, {0, 1, 1, 0}, c.thorough ? 5 : 4, false, true);
}
MC_HISTORIES(policy, 3, "8 elements with 5 keys inserted in every order of keys with one erase and one policy change at any position: expansion and content after each insert")
{
  int h = c.choose(int(std::size(HASHES))), b = c.choose(int(std::size(BUCKETS)));
  hash_table = HASHES[h];
  static const struct { Map::ExpansionPolicy p; size_t n; } set[] = {{Map::AVERAGE, 1}, {Map::AVERAGE, 2}, {Map::MAXIMUM, 1}, {Map::MAXIMUM, 3}, {Map::MANUAL, 1}, {Map::AVERAGE, 4}};
  int s = c.choose(6);
  int n = c.thorough ? 8 : 6;
  std::vector<int> keys(n);
  for (auto &k : keys) k = c.choose(3) * 2;
  World w(c, keys);
  w.m = std::make_unique<Map>(BUCKETS[b]);
  w.m->set_expansion_policy(set[s].p).set_expansion_limit(set[s].n);
  w.policy = set[s].p, w.limit = set[s].n;
  int at = c.choose(n), victim = c.choose(2);
  for (int i = 0; i < n; ++i) {
    if (i == at && i > 0) {
      auto o = w.order();
      int v  = victim ? o.back() : o[o.size() / 2];
      c.note("erase #%d", v);
      w.m->erase(&w.items[v]);
      w.gone(v);
    }
    w.insert(i);
    c.step();
    w.verify();
  }
  c.state(w.canon());
}

MC_HISTORIES(scale, 3, "300 (1200) elements with 3..300 (1200) keys under 5 hash patterns and 5 expansion settings from 4 initial sizes, erased at three places while growing: content, expansion and then one operation")
{
  int n = c.thorough ? 1200 : 300;
  static std::vector<uint64_t> table;
  int keys = std::vector<int>{3, n / 5, n}[c.choose(3)];
  int h    = c.choose(5);
  table.resize(n);
  for (int i = 0; i < n; ++i) table[i] = h == 0 ? i : h == 1 ? uint64_t(i) * 7 * 13 : h == 2 ? uint64_t(i % 10) : h == 3 ? ~0ull - uint64_t(i) * 0x100000001ull : uint64_t(i) << 40;
  hash_table = table.data();
  static const struct { Map::ExpansionPolicy p; size_t n; } set[] = {{Map::AVERAGE, 4}, {Map::AVERAGE, 1}, {Map::MAXIMUM, 4}, {Map::MAXIMUM, 20}, {Map::MANUAL, 1}};
  int s = c.choose(5);
  if (h == 2 && keys > 3 && (s == 2 || s == 3)) c.skip(); // many keys of equal hash: expands on every insert, by that policy
  std::vector<int> k(n);
  for (int i = 0; i < n; ++i) k[i] = i * 11 % keys;
  World w(c, k);
  int b = c.choose(4);
  c.note("%d keys, hash pattern %d, policy %d limit %zu, %zu buckets", keys, h, int(set[s].p), set[s].n, BUCKETS[b]);
  w.m = std::make_unique<Map>(BUCKETS[b]);
  w.m->set_expansion_policy(set[s].p).set_expansion_limit(set[s].n);
  w.policy = set[s].p, w.limit = set[s].n;
  for (int i = 0; i < n; ++i) {
    w.insert(i);
    if (i % 50 == 49) {
      int v = i - 1 - i % 7;
      if (w.in[v]) w.m->erase(&w.items[v]), w.gone(v);
      if (auto it = w.m->iterator_for(&w.items[i]); true) w.m->erase(it), w.gone(i);
    }
    if (i % 30 == 0) c.step();
    if (i % 100 == 0) w.verify();
  }
  w.verify();
  switch (c.choose(5)) {
  case 0: {
    auto r = w.m->erase(w.m->equal_range(1));
    auto v = w.model[1];
    for (int i : v) w.gone(i);
    (void)r;
  } break;
  case 1: {
    auto o = w.order();
    int a = int(o.size()) / 4, e = int(o.size()) * 3 / 4;
    auto r = w.m->erase(w.m->iterator_for(&w.items[o[a]]), w.m->iterator_for(&w.items[o[e]]));
    MC_CHECK(c, r->id == o[e], "range erase result");
    for (int i = a; i < e; ++i) w.gone(o[i]);
  } break;
  case 2: w.m->expand(); break;
  case 3: {
    auto o = w.order();
    for (size_t i = 0; i < o.size(); i += 2) w.m->erase(&w.items[o[i]]), w.gone(o[i]);
  } break;
  case 4: {
    auto t = std::make_unique<Map>(std::move(*w.m));
    w.m    = std::move(t);
  } break;
  }
  w.verify();
  c.outcome(mc::strf("%zu %zu", w.m->bucket_count(), w.m->count()));
}
