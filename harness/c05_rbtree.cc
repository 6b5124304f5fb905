// C05: the tree under DiscreteSpace, driven directly: every insert/remove history within the bound.
#include "mc.h"
#include <memory>
#include <swoc/RBTree.h>
#include <vector>
using swoc::detail::RBNode;
using Dir = RBNode::Direction;

struct Node : RBNode {
  int id;
  int size  = 1;  // number of nodes in the subtree, maintained only through the structure hook
  int alive = 1;
  explicit Node(int i) : id(i) {}
  Node *l() const { return static_cast<Node *>(_left); }
  Node *r() const { return static_cast<Node *>(_right); }
  void structure_fixup() override { size = 1 + (l() ? l()->size : 0) + (r() ? r()->size : 0); }
};

struct Tree {
  Node *root = nullptr;
  std::vector<std::unique_ptr<Node>> all;
  std::vector<Node *> order; // expected in-order sequence

  void insert(int at)
  {
    all.push_back(std::make_unique<Node>(int(all.size())));
    Node *n = all.back().get();
    if (!root) {
      root = static_cast<Node *>(n->rebalance_after_insert());
    } else if (size_t(at) < order.size()) {
      Node *spot = order[at];
      if (!spot->l()) {
        spot->set_child(n, Dir::LEFT);
      } else {
        order[at - 1]->set_child(n, Dir::RIGHT);
      }
      root = static_cast<Node *>(n->rebalance_after_insert());
    } else {
      order.back()->set_child(n, Dir::RIGHT);
      root = static_cast<Node *>(n->rebalance_after_insert());
    }
    order.insert(order.begin() + at, n);
  }
  void remove(int at)
  {
    Node *n = order[at];
    root    = static_cast<Node *>(n->remove());
    n->alive = 0;
    order.erase(order.begin() + at);
  }
};

struct Info {
  int count = 0, min_path = 0, max_path = 0, black = 0;
};

static Info walk(mc::Ctx &c, Node *n, Node *parent, std::vector<Node *> &seq, std::string &key, int depth)
{
  Info i;
  if (!n) {
    key += '.';
    return i;
  }
  MC_CHECK(c, depth < 64, "tree is deeper than 64 or cyclic");
  MC_CHECK(c, n->alive, "a removed node is still in the tree");
  MC_CHECK(c, n->_parent == parent, "parent link of node %d is wrong", n->id);
  if (parent) MC_CHECK(c, parent->direction_of(n) != Dir::NONE && parent->child_at(parent->direction_of(n)) == n, "direction_of/child_at of node %d", n->id);
  bool red = n->color() == RBNode::Color::RED;
  MC_CHECK(c, !(red && parent && parent->color() == RBNode::Color::RED), "red node %d under a red node", n->id);
  key += red ? '(' : '[';
  Info a = walk(c, n->l(), n, seq, key, depth + 1);
  seq.push_back(n);
  Info b = walk(c, n->r(), n, seq, key, depth + 1);
  key += ')';
  MC_CHECK(c, a.black == b.black, "black heights %d and %d below node %d", a.black, b.black, n->id);
  i.count    = a.count + b.count + 1;
  i.min_path = std::min(a.min_path, b.min_path) + 1;
  i.max_path = std::max(a.max_path, b.max_path) + 1;
  i.black    = a.black + (red ? 0 : 1);
  MC_CHECK(c, n->size == i.count, "structure hook value of node %d is stale: %d, subtree has %d nodes", n->id, n->size, i.count);
  MC_CHECK(c, i.max_path <= 2 * i.min_path, "paths of length %d and %d below node %d", i.min_path, i.max_path, n->id);
  return i;
}

static std::string verify(mc::Ctx &c, Tree &t)
{
  std::vector<Node *> seq;
  std::string key;
  Info i = walk(c, t.root, nullptr, seq, key, 0);
  MC_CHECK(c, i.count == int(t.order.size()), "%d nodes in the tree, %zu expected", i.count, t.order.size());
  for (size_t k = 0; k < seq.size(); ++k) MC_CHECK(c, seq[k] == t.order[k], "in-order position %zu has node %d, expected %d", k, seq[k]->id, t.order[k]->id);
  if (t.root) {
    MC_CHECK(c, t.root->left_most_descendant() == t.order.front(), "left most descendant");
    MC_CHECK(c, t.root->color() == RBNode::Color::BLACK, "root is not black");
  }
  return key;
}

MC_HISTORIES(insert_remove, 2, "every history of insertions (any position) and removals (any node) up to 12 (15) nodes and 26 (32) operations, matched by shape and colors: order, links, balance, colors, structure hook in every state")
{
  Tree t;
  int max   = c.thorough ? 15 : 12;
  int depth = c.thorough ? 32 : 26;
  for (int d = 0; d < depth; ++d) {
    int n   = int(t.order.size());
    int ins = n < max ? n + 1 : 0;
    int k   = c.choose(ins + n);
    if (k < ins) {
      c.note("insert at %d", k);
      t.insert(k);
    } else {
      c.note("remove at %d", k - ins);
      t.remove(k - ins);
    }
    c.step();
    if (c.pos > c.fresh_from) {
      auto key = verify(c, t);
      c.state(key);
      c.prune(key, depth - d - 1);
    }
  }
}

// Every tree that insertions can build, then removal of everything in every order that differs.
MC_HISTORIES(build_then_drain, 3, "every insertion order of 10 (12) nodes (matched by shape), then removals in every order, matched by shape")
{
  Tree t;
  int n = c.thorough ? 12 : 10;
  for (int i = 0; i < n; ++i) {
    int k = c.choose(i + 1);
    c.note("insert at %d", k);
    t.insert(k);
    c.step();
    if (c.pos > c.fresh_from) {
      auto key = verify(c, t);
      c.state(key);
      c.prune("i" + key, n - i);
    }
  }
  while (!t.order.empty()) {
    int k = c.choose(int(t.order.size()));
    c.note("remove at %d", k);
    t.remove(k);
    c.step();
    if (c.pos > c.fresh_from) {
      auto key = verify(c, t);
      c.state(key);
      c.prune("r" + key, int(t.order.size()));
    }
  }
}
// Larger trees, ordered and zig-zag construction, then every pair of removals.
MC_HISTORIES(large, 2, "trees of 8..40 (64) nodes built ascending, descending, from the middle or zig-zag, then every pair of removals and one insertion")
{
  Tree t;
  int n     = 8 + c.choose(c.thorough ? 57 : 33);
  int order = c.choose(4);
  for (int i = 0; i < n; ++i) t.insert(order == 0 ? i : order == 1 ? 0 : order == 2 ? i / 2 : (i % 2 ? i : 0));
  int a = c.choose(n);
  t.remove(a);
  verify(c, t);
  int b = c.choose(n - 1);
  t.remove(b);
  c.note("%d nodes, order %d, remove %d, remove %d", n, order, a, b);
  verify(c, t);
  t.insert(b);
  c.step();
  c.state(verify(c, t));
}

MC_HISTORIES(scale, 2, "trees of 65, 129 and 300 (1000) nodes built in 5 orders and taken apart in 6, with and without insertions in between")
{
  Tree t;
  int n     = std::vector<int>{65, 129, 300, 1000}[c.choose(c.thorough ? 4 : 3)];
  int build = c.choose(5), drain = c.choose(6), churn = c.choose(3), ops = 0;
  c.note("%d nodes, built in order %d, taken apart in order %d, churn %d", n, build, drain, churn);
  auto look = [&] {
    c.step();
    if (++ops % (n < 200 ? 1 : 7) == 0) verify(c, t);
  };
  for (int i = 0; i < n; ++i) {
    t.insert(build == 0 ? i : build == 1 ? 0 : build == 2 ? i / 2 : build == 3 ? (i % 2 ? i : 0) : i * 37 % (i + 1));
    look();
  }
  c.outcome(verify(c, t));
  for (int k = 0; !t.order.empty(); ++k) {
    int z = int(t.order.size());
    t.remove(drain == 0 ? 0 : drain == 1 ? z - 1 : drain == 2 ? z / 2 : drain == 3 ? (k % 2 ? z - 1 : 0) : drain == 4 ? k % z : k * 37 % z);
    look();
    if (churn && k < 2 * n && k % (churn + 1) == churn) {
      t.insert(k * 13 % (int(t.order.size()) + 1));
      look();
    }
  }
  MC_CHECK(c, t.root == nullptr, "the empty tree has a root");
}
