// Executable statement of C15: histories of a few trees against a plain model.
#include "common.hh"
#include "flpr/Tree.hh"
#include <memory>

using namespace hz;

namespace {
struct V {
  int v = 0;
  V() = default;
  explicit V(int x) : v(x) {}
};
using T = FLPR::Tree<V>;
using It = T::iterator;

struct M {
  int v;
  It it;
  M *up = nullptr;
  std::vector<std::unique_ptr<M>> kids;
  M(int x) : v(x) {}
  long size() const {
    long n = 1;
    for (auto const &k : kids)
      n += k->size();
    return n;
  }
  void all(std::vector<M *> &r) {
    r.push_back(this);
    for (auto &k : kids)
      k->all(r);
  }
  size_t place() const { // among the branches of its trunk
    for (size_t k = 0; k < up->kids.size(); ++k)
      if (up->kids[k].get() == this)
        return k;
    return 0;
  }
  bool above(M const *o) const {
    for (; o; o = o->up)
      if (o == this)
        return true;
    return false;
  }
};
int const NT = 3;
struct World {
  T t[NT];
  std::unique_ptr<M> m[NT];
  int fresh = 1;

  World() {
    for (int k = 0; k < NT; ++k)
      plant(k, k % 3);
  }
  // a tree of one node, made in one of the ways there are
  void plant(int k, int way) {
    int v = fresh++;
    if (way == 0)
      t[k] = T(V(v));
    else if (way == 1) {
      V x(v);
      t[k] = T(static_cast<V const &>(x));
    } else {
      t[k] = T(true);
      (**t[k]).v = v;
    }
    m[k] = std::make_unique<M>(v);
    m[k]->it = t[k].root();
  }
  void node(M &x, M *up, It trunk) {
    auto &n = *x.it;
    T::node const &cn = n;
    eq("value of a node", (long)(*n).v, (long)x.v);
    eq("value of a node (const)", (long)cn->v, (long)x.v);
    ok("a node knows its own place", n.self() == x.it && cn.self() == x.it);
    ok("a node knows the node it is a branch of",
       n.trunk() == trunk && cn.trunk() == trunk);
    eq("root", n.is_root(), up == nullptr);
    eq("leaf", n.is_leaf(), x.kids.empty());
    eq("fork", n.is_fork(), !x.kids.empty());
    eq("number of branches", (long)n.num_branches(), (long)x.kids.size());
    eq("size of a subtree", (long)n.size(), x.size());
    if (n.is_leaf())
      return;
    size_t k = 0;
    for (It b = n.branches().begin(); b != n.branches().end(); ++b, ++k) {
      ok("no branch too many", k < x.kids.size());
      ok("a branch is where it was put", b == x.kids[k]->it);
      node(*x.kids[k], &x, x.it);
    }
    eq("branches", (long)k, (long)x.kids.size());
    eq("branches of a const node", (long)cn.branches().size(), (long)k);
    It b = n.branches().end();
    while (k > 0)
      ok("branches from the back", --b == x.kids[--k]->it);
    ok("the first branch is the first from the back",
       b == n.branches().begin());
  }
  void check() {
    for (int k = 0; k < NT; ++k) {
      T const &c = t[k];
      ok("a tree with a node is not empty", !c.empty() && bool(c));
      ok("root", t[k].root() == m[k]->it && c.root() == m[k]->it &&
                     c.croot() == m[k]->it && &*t[k] == &*m[k]->it);
      eq("size of a tree", (long)c.size(), m[k]->size());
      c.check();
      node(*m[k], nullptr, m[k]->it);
    }
  }
  M *adopt(M *up, size_t pos, std::unique_ptr<M> x, It it) {
    x->it = it;
    x->up = up;
    M *r = x.get();
    up->kids.insert(up->kids.begin() + (long)pos, std::move(x));
    return r;
  }
  It at(M *up, size_t pos) { // position in the branches of a node
    It p = up->it->branches().begin();
    std::advance(p, (long)pos);
    return p;
  }
};
template <class C> void look(C &c, M *x) {
  eq("cursor: value", (long)c->v, (long)x->v);
  eq("cursor: value", (long)(*c).v, (long)x->v);
  ok("cursor: place", c.self() == x->it);
  ok("cursor: node", &c.node() == &*x->it);
  eq("cursor: up", c.has_up(), x->up != nullptr);
  eq("cursor: root", c.is_root(), x->up == nullptr);
  eq("cursor: down", c.has_down(), !x->kids.empty());
  eq("cursor: leaf", c.is_leaf(), x->kids.empty());
  eq("cursor: fork", c.is_fork(), !x->kids.empty());
  eq("cursor: number of branches", (long)c.num_branches(),
     (long)x->kids.size());
  eq("cursor: previous", c.has_prev(), x->up && x->place() > 0);
  eq("cursor: next", c.has_next(),
     x->up && x->place() + 1 < x->up->kids.size());
}
template <class C> void walk(C c, M *x, long path) {
  look(c, x);
  for (int n = 0; n < 8; ++n, path /= 6) {
    switch (path % 6) {
    case 0:
      if (x->kids.empty())
        break;
      c.down();
      x = x->kids[0].get();
      break;
    case 1:
      if (!x->up || x->place() + 1 >= x->up->kids.size())
        break;
      c.next();
      x = x->up->kids[x->place() + 1].get();
      break;
    case 2:
      if (!x->up || x->place() == 0)
        break;
      c.prev();
      x = x->up->kids[x->place() - 1].get();
      break;
    case 3:
      if (!x->up)
        break;
      c.up();
      x = x->up;
      break;
    case 4: { // as many as there are
      int want = (int)(path / 6 % 4), done = 0;
      bool r = c.try_next(want);
      while (done < want && x->up && x->place() + 1 < x->up->kids.size()) {
        x = x->up->kids[x->place() + 1].get();
        ++done;
      }
      eq("cursor: as many steps as asked", r, done == want);
      break;
    }
    case 5: {
      int want = (int)(path / 6 % 4), done = 0;
      bool r = c.try_down(want);
      while (done < want && !x->kids.empty()) {
        x = x->kids[0].get();
        ++done;
      }
      eq("cursor: as many levels as asked", r, done == want);
      break;
    }
    }
    look(c, x);
  }
}
int const OPS = 15;
// i: groups of four: operation and three numbers
void c15(Case const &c) {
  World w;
  w.check();
  {
    T e;
    T f(false);
    ok("an empty tree", e.empty() && !e && e.size() == 0 && f.empty() &&
                            f.size() == 0);
  }
  for (size_t k = 0; k + 3 < c.i.size(); k += 4) {
    long const op = std::abs(c.i[k]) % OPS, a = std::abs(c.i[k + 1]),
               b = std::abs(c.i[k + 2]), d = std::abs(c.i[k + 3]);
    int const ti = (int)(a % NT), tj = (int)((ti + 1 + b % (NT - 1)) % NT);
    std::vector<M *> na, nb;
    w.m[ti]->all(na);
    w.m[tj]->all(nb);
    M *root = w.m[ti].get();
    M *x = na[(size_t)(a / NT) % na.size()];
    size_t const pos = (size_t)d % (x->kids.size() + 1);
    auto graft = [&](It it, size_t p) {
      w.adopt(root, p, std::move(w.m[tj]), it);
    };
    switch (op) {
    case 0: // a whole tree becomes a branch of the root of another one
      graft(w.t[ti].graft_back(w.t[tj]), root->kids.size());
      ok("the donor is empty", w.t[tj].empty());
      w.plant(tj, (int)(d % 3));
      break;
    case 1:
      graft(w.t[ti].graft_front(w.t[tj]), 0);
      ok("the donor is empty", w.t[tj].empty());
      w.plant(tj, (int)(d % 3));
      break;
    case 2: {
      size_t p = (size_t)d % (root->kids.size() + 1);
      graft(w.t[ti].graft(w.at(root, p), w.t[tj]), p);
      ok("the donor is empty", w.t[tj].empty());
      w.plant(tj, (int)(d % 3));
      break;
    }
    case 3:
      graft(w.t[ti].graft_back(std::move(w.t[tj])), root->kids.size());
      w.plant(tj, (int)(d % 3));
      break;
    case 4:
      graft(w.t[ti].graft_front(std::move(w.t[tj])), 0);
      w.plant(tj, (int)(d % 3));
      break;
    case 5: {
      size_t p = (size_t)d % (root->kids.size() + 1);
      graft(w.t[ti].graft(T::const_iterator(w.at(root, p)),
                          std::move(w.t[tj])),
            p);
      w.plant(tj, (int)(d % 3));
      break;
    }
    case 6:
    case 7:
    case 8: { // a new branch of any node
      int v = w.fresh++;
      It it;
      size_t p = op == 6 ? 0 : op == 7 ? x->kids.size() : pos;
      if (op == 6)
        it = x->it->emplace_front(T::node(V(v)));
      else if (op == 7)
        it = x->it->emplace_back(T::node(V(v)));
      else
        it = x->it->emplace(w.at(x, p), T::node(V(v)));
      w.adopt(x, p, std::make_unique<M>(v), it);
      break;
    }
    case 9: // a branch is taken away
      if (x->up) {
        size_t p = x->place();
        It nx = x->it->trunk()->branches().erase(x->it->self());
        ok("erase returns the next branch",
           p + 1 < x->up->kids.size()
               ? nx == x->up->kids[p + 1]->it
               : nx == x->up->it->branches().end());
        x->up->kids.erase(x->up->kids.begin() + (long)p);
      }
      break;
    case 10:
    case 11: { // two nodes exchange what is in and below them
      std::vector<M *> &from = op == 10 ? na : nb;
      M *y = from[(size_t)d % from.size()];
      if (x == y || x->above(y) || y->above(x))
        break;
      x->it->swap(*y->it);
      std::swap(x->v, y->v);
      std::swap(x->kids, y->kids);
      for (auto &q : x->kids)
        q->up = x;
      for (auto &q : y->kids)
        q->up = y;
      break;
    }
    case 12: // two trees
      w.t[ti].swap(w.t[tj]);
      std::swap(w.m[ti], w.m[tj]);
      break;
    case 13: // a tree moves into another one
      if (d % 2) {
        w.t[tj] = std::move(w.t[ti]);
        ok("nothing is left", w.t[ti].empty() && w.t[ti].size() == 0);
      } else {
        T z(std::move(w.t[ti]));
        ok("nothing is left", w.t[ti].empty() && w.t[ti].size() == 0);
        w.t[tj].clear();
        ok("a cleared tree is empty", w.t[tj].empty());
        w.t[tj] = std::move(z);
      }
      w.m[tj] = std::move(w.m[ti]);
      w.plant(ti, (int)(d / 2 % 3));
      break;
    case 14: {
      walk(w.t[ti].cursor(), root, d);
      walk(w.t[ti].ccursor(), root, d);
      walk(T::cursor_t(x->it), x, d);
      walk(T::const_cursor_t(T::cursor_t(x->it)), x, d);
      break;
    }
    }
    w.check();
  }
}
void en15(std::function<void(Case const &)> const &f) {
  // a bush, then every operation on every node and, of some, two
  std::vector<long> const bush = {7, 0, 0, 0, 7, 0, 0, 0, 7, 3, 0, 0,
                                  7, 3, 0, 0, 7, 1, 0, 0, 6, 1, 0, 0};
  for (long op = 0; op < OPS; ++op)
    for (long a = 0; a < 15; ++a)
      for (long b = 0; b < 2; ++b)
        for (long d = 0; d < 6; ++d) {
          Case c;
          c.i = bush;
          for (long v : {op, a, b, d})
            c.i.push_back(v);
          c.i.insert(c.i.end(), {14, a, 0, 7777 * d + 1234567});
          f(c);
          for (long o2 : {0, 4, 9, 10, 11, 8}) {
            Case e = c;
            e.i.insert(e.i.end(), {o2, a + 3, b, d + 1});
            f(e);
          }
        }
}
Case rnd15(Rng &r) {
  Case c;
  int n = r.range(1, 30);
  while (n--) {
    c.i.push_back(r.chance(40) ? r.range(6, 8) : r.below(OPS));
    c.i.push_back(r.below(120));
    c.i.push_back(r.below(2));
    c.i.push_back(r.chance(70) ? r.below(12) : r.below(1679616));
  }
  return c;
}
} // namespace

int main(int argc, char **argv) {
  props()["C15"] = {c15, en15, rnd15,
                    "every operation on every node of three small trees, "
                    "alone and followed by one of six, then random histories "
                    "of up to 30 operations on three trees"};
  return run(argc, argv);
}
