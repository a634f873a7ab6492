// Q01: il::Deque against std::deque over every wrap position; il::Tree against an explicit
// node table. Elements are plain or lifetime-tracked.
#define VF_TRAP_ABORT
#include "vfil.h"
#include "elem.h"
#include <deque>
#include <il/Deque.h>
#include <il/Tree.h>
#include <il/String.h>
using vf::Rng;
using vf::Tracked;

template <typename T> static void sameDeque(il::Deque<T>& d, const std::deque<int64_t>& w, il::int_t cap) {
  VF_CHECK(d.size() == (il::int_t)w.size(), "size", "size() = %ld, the deque holds %zu elements", (long)d.size(), w.size());
  VF_CHECK(d.capacity() == cap, "capacity", "capacity() = %ld, expected %ld", (long)d.capacity(), (long)cap);
  if (!w.empty()) {
    const il::Deque<T>& c = d;
    VF_CHECK(vf::El<T>::id(c.front()) == vf::Norm<T>::n(w.front()) && vf::El<T>::id(d.Front()) == vf::Norm<T>::n(w.front()), "front", "front is %ld, expected %ld", (long)vf::El<T>::id(c.front()), (long)w.front());
    VF_CHECK(vf::El<T>::id(c.back()) == vf::Norm<T>::n(w.back()) && vf::El<T>::id(d.Back()) == vf::Norm<T>::n(w.back()), "back", "back is %ld, expected %ld", (long)vf::El<T>::id(c.back()), (long)w.back());
  }
}
template <typename T> static void drainCopy(const il::Deque<T>& d, const std::deque<int64_t>& w, Rng& r, il::int_t cap) {
  il::Deque<T> c(d);
  std::deque<int64_t> v(w);
  while (!v.empty()) {
    sameDeque(c, v, cap);
    if (r.chance(50)) { vf::op("PopFront (copy)"); c.PopFront(); v.pop_front(); } else { vf::op("PopBack (copy)"); c.PopBack(); v.pop_back(); }
  }
  sameDeque(c, v, cap);
  vf::event("drained");
}
template <typename T> static void deques(Rng& r) {
  const bool large = r.chance(1);
  il::int_t cap = large ? r.range(200, 700) : r.chance(60) ? r.range(1, 5) : r.range(1, 40);
  il::Deque<T>* p;
  if (r.chance(50)) { vf::op("Deque(n)", "%s n=%ld", vf::El<T>::name(), (long)cap); p = new il::Deque<T>{cap}; }
  else { vf::op("Deque() Reserve", "%s n=%ld", vf::El<T>::name(), (long)cap); p = new il::Deque<T>{}; VF_CHECK(p->size() == 0 && p->capacity() == 0, "size", "a new deque is not empty"); p->Reserve(cap); }
  struct G { il::Deque<T>*& p; ~G() { delete p; } } g{p};
  std::deque<int64_t> w;
  int64_t next = 1;
  sameDeque(*p, w, cap);
  int steps = (int)r.range(5, 90), bias = (int)r.below(3);
  if (large) { steps = (int)cap * 4; bias = (int)r.below(2); vf::event("large"); }
  int wraps = 0;
  for (int t = 0; t < steps; ++t) {
    int roll = (int)r.below(100), push = bias == 0 ? 65 : bias == 1 ? 50 : 40;
    bool front = r.chance(bias == 1 ? 15 : 50);
    if (roll < push) {
      bool full = (il::int_t)w.size() == cap;
      if (full) {
        T x = vf::El<T>::make(next);
        vf::op(front ? "PushFront on a full deque" : "PushBack on a full deque");
        bool em = r.chance(40);
        bool thrown = VF_ABORTS(if (em) { if (front) p->PushFront(il::emplace, 1); else p->PushBack(il::emplace, 1); } else if (front) p->PushFront(x); else p->PushBack(x));
        VF_CHECK(thrown, "full", "pushing onto a full deque is not reported");
        vf::event("full-rejected");
        sameDeque(*p, w, cap);
        vf::event("full");
        continue;
      }
      int64_t v = next++;
      if (r.chance(40)) { vf::op(front ? "PushFront(emplace)" : "PushBack(emplace)", "%ld", (long)v); if (front) p->PushFront(il::emplace, vf::El<T>::make(v)); else p->PushBack(il::emplace, vf::El<T>::make(v)); }
      else { T x = vf::El<T>::make(v); vf::op(front ? "PushFront" : "PushBack", "%ld", (long)v); if (front) p->PushFront(x); else p->PushBack(x); VF_CHECK(vf::El<T>::id(x) == vf::Norm<T>::n(v), "argument", "push changed its argument"); }
      if (front) w.push_front(v); else w.push_back(v);
      vf::event(front ? "push-front" : "push-back");
    } else if (roll < 92) {
      if (w.empty()) {
#ifdef VF_CONFIG_DBG
        bool thrown = false;
        vf::op("pop of an empty deque");
        try { if (front) p->PopFront(); else p->PopBack(); } catch (const il::AbortException&) { thrown = true; }
        VF_CHECK(thrown, "empty", "popping an empty deque is not reported");
        vf::event("empty-rejected");
#endif
        continue;
      }
      if (w.size() == 1) vf::event(front ? "pop-front-last" : "pop-back-last");
      vf::op(front ? "PopFront" : "PopBack");
      if (front) { p->PopFront(); w.pop_front(); } else { p->PopBack(); w.pop_back(); }
      vf::event(front ? "pop-front" : "pop-back");
    } else if (!w.empty()) {
      int64_t v = next++;
      vf::op(front ? "Front()=" : "Back()=", "%ld", (long)v);
      if (front) { p->Front() = vf::El<T>::make(v); w.front() = v; } else { p->Back() = vf::El<T>::make(v); w.back() = v; }
    }
    vf::lifeCheck();
    sameDeque(*p, w, cap);
    if (r.chance(12)) drainCopy(*p, w, r, cap);
    vf::lifeCheck();
    vf::event("operations");
  }
  drainCopy(*p, w, r, cap);
  (void)wraps;
  if (vf::wantSample()) vf::sample(vf::fmt("deque of %s, capacity %ld: %d operations, final size %zu", vf::El<T>::name(), (long)cap, steps, w.size()));
}

struct Nd { int64_t val; bool set; std::set<il::int_t> kids; };
template <typename T, int N> static void trees(Rng& r) {
  il::int_t maxDepth = N == 1 ? 12 : N == 2 ? 8 : N <= 4 ? 4 : 3;
  il::int_t d0 = r.range(0, N == 1 ? 6 : N <= 3 ? 3 : 2);
  typedef il::Tree<T, N> Tr;
  Tr* t;
  if (r.chance(50)) { vf::op("Tree()", "n=%d", N); t = new Tr{}; } else { vf::op("Tree(depth)", "n=%d depth=%ld", N, (long)d0); t = new Tr{d0}; }
  struct G { Tr*& p; ~G() { delete p; } } g{t};
  std::map<il::int_t, Nd> w;       // index -> node
  std::map<il::int_t, il::int_t> level;
  std::vector<il::int_t> ids;
  w[0] = Nd{0, false, {}};
  level[0] = 0;
  ids.push_back(0);
  auto check = [&]() {
    il::int_t deep = 0;
    for (auto& e : level) deep = std::max(deep, e.second);
    VF_CHECK(t->depth() == deep, "depth", "depth() = %ld, the deepest node is at depth %ld", (long)t->depth(), (long)deep);
    for (auto& e : w) {
      il::spot_t s{e.first};
      VF_CHECK(t->isEmpty(s) == !e.second.set, "isEmpty", "node %ld: isEmpty()=%d, a value was %sset", (long)e.first, (int)t->isEmpty(s), e.second.set ? "" : "not ");
      if (e.second.set) VF_CHECK(vf::El<T>::id(t->value(s)) == vf::Norm<T>::n(e.second.val), "value", "node %ld holds %ld, expected %ld", (long)e.first, (long)vf::El<T>::id(t->value(s)), (long)e.second.val);
      VF_CHECK(t->hasChild(s) == !e.second.kids.empty(), "hasChild", "node %ld: hasChild()=%d with %zu children", (long)e.first, (int)t->hasChild(s), e.second.kids.size());
      for (int i = 0; i < N; ++i) VF_CHECK(t->hasChild(s, i) == (e.second.kids.count(i) != 0), "hasChild", "node %ld: hasChild(%d)=%d", (long)e.first, i, (int)t->hasChild(s, i));
      il::SmallArray<il::int_t, N> c = t->children(s);
      VF_CHECK(c.size() == (il::int_t)e.second.kids.size(), "children", "node %ld lists %ld children, %zu were added", (long)e.first, (long)c.size(), e.second.kids.size());
      il::int_t k = 0;
      for (il::int_t i : e.second.kids) {
        VF_CHECK(c[k] == i, "children", "node %ld: child #%ld is %ld, expected %ld", (long)e.first, (long)k, (long)c[k], (long)i);
        ++k;
        il::spot_t cs = t->child(s, i);
        VF_CHECK(w.count(cs.index) && cs.index != e.first, "child", "child %ld of node %ld is at an unknown place", (long)i, (long)e.first);
        VF_CHECK(t->parent(cs).index == e.first, "parent", "the parent of child %ld of node %ld is node %ld", (long)i, (long)e.first, (long)t->parent(cs).index);
      }
    }
  };
  check();
  int steps = (int)r.range(3, 40);
  int64_t v = 10;
  for (int k = 0; k < steps; ++k) {
    il::int_t at = r.pick(ids);
    if (r.chance(55)) {
      if (level[at] >= maxDepth) continue;
      il::int_t i = r.below(N);
      vf::op("AddChild", "%ld #%ld", (long)at, (long)i);
      t->AddChild(il::spot_t{at}, i);
      bool fresh = w[at].kids.insert(i).second;
      il::int_t c = t->child(il::spot_t{at}, i).index;
      VF_CHECK(fresh == (w.count(c) == 0), "child", "child %ld of node %ld shares its place with another node", (long)i, (long)at);
      if (fresh) { w[c] = Nd{0, false, {}}; level[c] = level[at] + 1; ids.push_back(c); }
      vf::event("child");
      if (i >= 4) vf::event("child-beyond-fourth");
      if (i >= 6) vf::event("child-beyond-sixth");
    } else {
      vf::op("Set", "%ld =%ld", (long)at, (long)v);
      t->Set(il::spot_t{at}, vf::El<T>::make(v));
      w[at].val = v; w[at].set = true;
      ++v;
      vf::event("node-value");
    }
    vf::lifeCheck();
    if (r.chance(10)) { vf::op("copy"); Tr* c = new Tr(*t); delete t; t = c; }
    check();
    vf::lifeCheck();
    vf::event("operations");
  }
  if (vf::wantSample()) vf::sample(vf::fmt("tree with %d children per node: %zu nodes after %d operations", N, w.size(), steps));
}
void vf_case(Rng& r, uint64_t idx) {
  vf::lifeBegin();
  static const int life[] = {2, 5, 7};
  switch (vf::lifeOnly() ? life[idx % 3] : (int)(idx % 10)) {
    case 0: deques<int>(r); break;
    case 1: deques<double>(r); break;
    case 2: case 3: deques<Tracked>(r); break;
    case 4: trees<double, 2>(r); break;
    case 5: trees<Tracked, 3>(r); break;
    case 6: trees<int, 1>(r); break;
    case 7: trees<Tracked, 4>(r); break;
    case 8: trees<double, 6>(r); break;
    default: trees<int, 9>(r); break;
  }
  vf::nontrivial();
  vf::lifeEnd();
}
