// A04 / A02: multi-dimensional arrays of both orders against an index -> value model.
#include "vfil.h"
#include <il/Array2D.h>
#include <il/Array2C.h>
#include <il/Array3D.h>
#include <il/Array3C.h>
#include <il/Array4D.h>
#include <il/Array4C.h>
#include <il/StaticArray2D.h>
#include <il/StaticArray2C.h>
#include <il/StaticArray3D.h>
#include <il/StaticArray4D.h>
#include "elem.h"
using vf::Rng;
#ifndef VF_PART
#define VF_PART 0
#endif

struct Model {
  int rank;
  int64_t n[4];
  std::vector<int64_t> v;
  explicit Model(int r = 2) : rank(r) { n[0] = n[1] = n[2] = n[3] = 0; }
  int64_t total() const { int64_t t = 1; for (int d = 0; d < rank; ++d) t *= n[d]; return t; }
  int64_t ix(const int64_t* i) const { int64_t k = 0; for (int d = 0; d < rank; ++d) k = k * n[d] + i[d]; return k; }
  int64_t& at(const int64_t* i) { return v[ix(i)]; }
  int64_t at(const int64_t* i) const { return v[ix(i)]; }
  void shape(const int64_t* m, int64_t fill) {
    for (int d = 0; d < rank; ++d) n[d] = m[d];
    v.assign(total(), fill);
  }
  void resize(const int64_t* m, int64_t fill) {
    Model b(rank);
    b.shape(m, fill);
    b.each([&](const int64_t* i) {
      for (int d = 0; d < rank; ++d) if (i[d] >= n[d]) return;
      b.at(i) = at(i);
    });
    *this = b;
  }
  template <typename F> void each(F f) const {
    if (total() == 0) return;
    int64_t i[4] = {0, 0, 0, 0};
    for (;;) {
      f((const int64_t*)i);
      int d = rank - 1;
      while (d >= 0 && ++i[d] == n[d]) i[d--] = 0;
      if (d < 0) return;
    }
  }
  std::string str() const {
    std::string s;
    for (int d = 0; d < rank; ++d) s += vf::fmt(d ? "x%ld" : "%ld", (long)n[d]);
    return s;
  }
};

// ---- adapters ---------------------------------------------------------------
template <typename C> struct AD;
#define VF_AD2(CLS, ROW)                                                                       \
  template <typename T> struct AD<CLS<T>> {                                                    \
    typedef CLS<T> C; typedef T E; enum { rank = 2, row = ROW, aligned = 1 };                  \
    static C* make(const int64_t* n) { return new C(n[0], n[1]); }                             \
    static C* make(const int64_t* n, const T& x) { return new C(n[0], n[1], x); }              \
    static T& at(C& c, const int64_t* i) { return c(i[0], i[1]); }                             \
    static const T& at(const C& c, const int64_t* i) { return c(i[0], i[1]); }                 \
    static void resize(C& c, const int64_t* n) { c.Resize(n[0], n[1]); }                       \
    static void reserve(C& c, const int64_t* n) { c.Reserve(n[0], n[1]); }                     \
    static C* makeA(const int64_t* n, int64_t al) { return new C(n[0], n[1], il::align, al); } \
    static C* makeA(const int64_t* n, int64_t al, int64_t r, int64_t m) { return new C(n[0], n[1], il::align, al, r, m); } \
    static C* makeA(const int64_t* n, const T& x, int64_t al) { return new C(n[0], n[1], x, il::align, al); } \
    static C* makeA(const int64_t* n, const T& x, int64_t al, int64_t r, int64_t m) { return new C(n[0], n[1], x, il::align, al, r, m); } \
    static int64_t alignment(const C& c) { return c.alignment(); }                             \
    static int64_t stride(const C& c, int d) { return c.stride(d); }                           \
  };
#define VF_AD3(CLS, ROW)                                                                       \
  template <typename T> struct AD<CLS<T>> {                                                    \
    typedef CLS<T> C; typedef T E; enum { rank = 3, row = ROW, aligned = 1 };                  \
    static C* make(const int64_t* n) { return new C(n[0], n[1], n[2]); }                       \
    static C* make(const int64_t* n, const T& x) { return new C(n[0], n[1], n[2], x); }        \
    static T& at(C& c, const int64_t* i) { return c(i[0], i[1], i[2]); }                       \
    static const T& at(const C& c, const int64_t* i) { return c(i[0], i[1], i[2]); }           \
    static void resize(C& c, const int64_t* n) { c.Resize(n[0], n[1], n[2]); }                 \
    static void reserve(C& c, const int64_t* n) { c.Reserve(n[0], n[1], n[2]); }               \
    static C* makeA(const int64_t* n, int64_t al) { return new C(n[0], n[1], n[2], il::align, al); } \
    static C* makeA(const int64_t* n, int64_t al, int64_t r, int64_t m) { return new C(n[0], n[1], n[2], il::align, al, r, m); } \
    static C* makeA(const int64_t* n, const T& x, int64_t al) { return new C(n[0], n[1], n[2], x, il::align, al); } \
    static C* makeA(const int64_t* n, const T& x, int64_t al, int64_t r, int64_t m) { return new C(n[0], n[1], n[2], x, il::align, al, r, m); } \
    static int64_t alignment(const C& c) { return c.alignment(); }                             \
    static int64_t stride(const C& c, int d) { return c.stride(d); }                           \
  };
#define VF_AD4(CLS, ROW)                                                                       \
  template <typename T> struct AD<CLS<T>> {                                                    \
    typedef CLS<T> C; typedef T E; enum { rank = 4, row = ROW, aligned = 0 };                  \
    static C* make(const int64_t* n) { return new C(n[0], n[1], n[2], n[3]); }                 \
    static C* make(const int64_t* n, const T& x) { return new C(n[0], n[1], n[2], n[3], x); }  \
    static T& at(C& c, const int64_t* i) { return c(i[0], i[1], i[2], i[3]); }                 \
    static const T& at(const C& c, const int64_t* i) { return c(i[0], i[1], i[2], i[3]); }     \
    static void resize(C& c, const int64_t* n) { c.Resize(n[0], n[1], n[2], n[3]); }           \
    static void reserve(C& c, const int64_t* n) { c.Reserve(n[0], n[1], n[2], n[3]); }         \
    static C* makeA(const int64_t* n, int64_t) { return make(n); }                             \
    static C* makeA(const int64_t* n, int64_t, int64_t, int64_t) { return make(n); }           \
    static C* makeA(const int64_t* n, const T& x, int64_t) { return make(n, x); }              \
    static C* makeA(const int64_t* n, const T& x, int64_t, int64_t, int64_t) { return make(n, x); } \
    static int64_t alignment(const C&) { return 0; }                                           \
    static int64_t stride(const C&, int) { return -1; }                                        \
  };
VF_AD2(il::Array2D, 0) VF_AD2(il::Array2C, 1)
VF_AD3(il::Array3D, 0) VF_AD3(il::Array3C, 1)
VF_AD4(il::Array4D, 0) VF_AD4(il::Array4C, 1)

template <typename C>
void checkState(const C& c, const Model& m, const char* after) {
  typedef AD<C> A;
  typedef typename A::E T;
  vf::lifeCheck();
  for (int d = 0; d < A::rank; ++d) {
    VF_CHECK(c.size(d) == m.n[d], "nd:size", "after %s size(%d) is %ld, expected %ld (shape %s)", after, d, (long)c.size(d), (long)m.n[d], m.str().c_str());
    VF_CHECK(c.capacity(d) >= c.size(d), "nd:capacity", "after %s capacity(%d)=%ld < size %ld", after, d, (long)c.capacity(d), (long)c.size(d));
  }
  if (m.total() == 0) return;
  const T* base = c.data();
  std::vector<const T*> addr;
  { vf::Quiet q; addr.reserve(m.v.size()); }
  const int u = A::row ? A::rank - 1 : 0;  // unit-stride dimension
  m.each([&](const int64_t* i) {
    const T& x = A::at(c, i);
    int64_t g = vf::El<T>::id(x);
    VF_CHECK(g == m.at(i), "nd:element", "after %s element (%ld,%ld,%ld,%ld) of a %s array is %lld, expected %lld", after, (long)i[0], (long)i[1], (long)(A::rank > 2 ? i[2] : 0), (long)(A::rank > 3 ? i[3] : 0), m.str().c_str(), (long long)g, (long long)m.at(i));
    addr.push_back(&x);
    int64_t j[4] = {i[0], i[1], A::rank > 2 ? i[2] : 0, A::rank > 3 ? i[3] : 0};
    if (j[u] + 1 < m.n[u]) {
      j[u]++;
      VF_CHECK(&A::at(c, j) == &x + 1, "nd:order", "after %s the elements along dimension %d are not contiguous", after, u);
    }
    bool first = true;
    for (int d = 0; d < A::rank; ++d) if (i[d]) first = false;
    if (first) VF_CHECK(&x == base, "nd:data", "after %s data() is not the address of the first element", after);
  });
  for (int d = 0; d < A::rank; ++d) {
    if (m.n[d] < 2) continue;
    int64_t z[4] = {0, 0, 0, 0}, o[4] = {0, 0, 0, 0};
    o[d] = 1;
    int64_t s = A::stride(c, d);
    if (s >= 0 && A::rank == 2) VF_CHECK(&A::at(c, o) - &A::at(c, z) == s, "nd:stride", "after %s stride(%d)=%ld but the distance is %ld", after, d, (long)s, (long)(&A::at(c, o) - &A::at(c, z)));
  }
  std::sort(addr.begin(), addr.end());
  for (size_t k = 1; k < addr.size(); ++k) VF_CHECK(addr[k] - addr[k - 1] >= 1, "nd:alias", "after %s two distinct indices share an element", after);
  vf::lifeCheck();
}

template <typename C> struct Special {
  static bool ctor(Rng&, C*&, Model&, int64_t&) { return false; }
  static bool step(Rng&, C&, Model&, int64_t&, const int64_t*, const char*&) { return false; }
};

// now and then a case with large arrays
static bool g_big = false;
template <typename T> struct BigTotal { static const int64_t v = 20000; };
template <> struct BigTotal<vf::Tracked> { static const int64_t v = 1500; };

template <typename C>
struct Case {
  typedef AD<C> A;
  typedef typename A::E T;
  Rng& r;
  C* a[3];
  Model m[3];
  int64_t next = 1;
  int64_t fresh() { return vf::Norm<T>::n(next++); }
  explicit Case(Rng& r_) : r(r_) { for (int k = 0; k < 3; ++k) { a[k] = nullptr; m[k] = Model(A::rank); } }
  ~Case() { for (int k = 0; k < 3; ++k) delete a[k]; }
  void dims(int64_t* n) {
    int mx = A::rank == 2 ? 9 : A::rank == 3 ? 5 : 4;
    if (A::rank == 2 && r.chance(4)) mx = 40;
    for (int d = 0; d < 4; ++d) n[d] = r.chance(8) ? 0 : r.range(1, mx);
    if (r.chance(3)) for (int d = 0; d < 4; ++d) n[d] = 0;
    if (g_big && r.chance(70)) {
      int64_t left = BigTotal<T>::v;
      int d = (int)r.below(A::rank);
      for (int k = 0; k < A::rank; ++k, d = (d + 1) % A::rank) { n[d] = r.chance(40) ? std::min(left, r.range(1, k + 1 < A::rank ? 150 : left)) : std::max<int64_t>(1, r.mark(left)); left /= n[d]; }
    }
    bound(n);
  }
  void bound(int64_t* n) {
    if (!g_big) return;
    for (;;) {
      int64_t t = 1; int w = 0;
      for (int d = 0; d < A::rank; ++d) { t *= n[d] > 0 ? n[d] : 1; if (n[d] > n[w]) w = d; }
      if (t <= 2 * BigTotal<T>::v) return;
      n[w] /= 2;
    }
  }
  // capacities never shrink: a new capacity may hold the largest of every dimension
  void bound(int64_t* n, const int64_t* cap) {
    bound(n);
    if (!g_big) return;
    int64_t t = 1;
    for (int d = 0; d < A::rank; ++d) t *= std::max<int64_t>(1, std::max(n[d], cap[d]));
    if (t > 400000) for (int d = 0; d < A::rank; ++d) n[d] = std::min(n[d], cap[d]);
    bound(n);
  }
  void fillNew(int k, const Model& old) {  // writes every element whose index is not in old
    Model& mm = m[k];
    mm.each([&](const int64_t* i) {
      for (int d = 0; d < A::rank; ++d) if (i[d] >= old.n[d]) {
        int64_t id = fresh();
        A::at(*a[k], i) = vf::El<T>::make(id);
        mm.at(i) = id;
        return;
      }
    });
  }
  void construct(int k) {
    delete a[k];
    a[k] = nullptr;
    vf::lifeCheck();
    int64_t n[4];
    dims(n);
    int o = (k + 1) % 3;
    Model none(A::rank);
    const bool tr = il::isTrivial<T>::value;
    switch (r.below(8)) {
      case 0: vf::op("ctor-default", "[%d]", k); a[k] = new C; m[k] = none; break;
      case 1: vf::op("ctor-shape", "[%d] %ld %ld %ld %ld", k, (long)n[0], (long)n[1], (long)n[2], (long)n[3]); a[k] = A::make(n); m[k].shape(n, -1);
        if (!tr) checkState(*a[k], m[k], "ctor"); fillNew(k, none); break;
      case 2: { int64_t id = fresh(); vf::op("ctor-value", "[%d] %ld %ld %ld %ld", k, (long)n[0], (long)n[1], (long)n[2], (long)n[3]); a[k] = A::make(n, vf::El<T>::make(id)); m[k].shape(n, id); break; }
      case 3: case 4:
        if (tr && A::aligned) {
          int64_t al = (int64_t)sizeof(T) << r.below(r.chance(20) ? 8 : 4), am = al << r.below(3), ar = al * r.below(am / al);
          bool none0 = false; for (int d = 0; d < A::rank; ++d) if (n[d] == 0) none0 = true;
          vf::event("aligned");
          if (none0) vf::event("aligned-empty");
          int64_t id = fresh();
          int w = (int)r.below(4);
          vf::op("ctor-aligned", "[%d] %ld %ld %ld %ld al=%ld r=%ld m=%ld form %d", k, (long)n[0], (long)n[1], (long)n[2], (long)n[3], (long)al, (long)ar, (long)am, w);
          if (w == 0) a[k] = A::makeA(n, al); else if (w == 1) a[k] = A::makeA(n, al, ar, am);
          else if (w == 2) a[k] = A::makeA(n, vf::El<T>::make(id), al); else a[k] = A::makeA(n, vf::El<T>::make(id), al, ar, am);
          m[k].shape(n, id);
          if (w < 2) fillNew(k, none);
          break;
        }
        // fallthrough
      case 5: if (Special<C>::ctor(r, a[k], m[k], next)) break;  // fallthrough
      case 6: if (a[o]) { vf::op("ctor-copy", "[%d]<-[%d] %s", k, o, m[o].str().c_str()); a[k] = new C(*a[o]); m[k] = m[o]; vf::event("copy"); break; }  // fallthrough
      default:
        if (a[o]) { vf::op("ctor-move", "[%d]<-[%d] %s", k, o, m[o].str().c_str()); a[k] = new C(std::move(*a[o])); m[k] = m[o]; m[o] = none; checkState(*a[o], m[o], "move-out"); vf::event("move"); }
        else { a[k] = new C; m[k] = none; }
    }
    checkState(*a[k], m[k], "construction");
    if (a[o]) checkState(*a[o], m[o], "construction of another");
    checkAlign(k, "construction");
  }
  void checkAlign(int k, const char* after) {
    int64_t al = A::alignment(*a[k]);
    if (al > 0 && m[k].total() > 0) VF_CHECK((uintptr_t)a[k]->data() % (uintptr_t)al == 0, "nd:alignment", "after %s data() is not %ld-aligned", after, (long)al);
  }
  void step() {
    int k = (int)r.below(3), o = (int)((k + 1 + r.below(2)) % 3);
    C& c = *a[k];
    Model& mm = m[k];
    const T* p0 = c.data();
    int64_t cap[4] = {0, 0, 0, 0}, ctot = 1;
    for (int d = 0; d < A::rank; ++d) { cap[d] = c.capacity(d); ctot *= cap[d]; }
    auto fits = [&](const int64_t* n) { for (int d = 0; d < A::rank; ++d) if (n[d] > cap[d]) return false; return true; };
    bool stable = false;
    const char* name = "?";
    int64_t n[4];
    dims(n);
    if (r.chance(40)) for (int d = 0; d < A::rank; ++d) n[d] = std::max<int64_t>(0, mm.n[d] + r.range(-1, 1));
    if (r.chance(20)) for (int d = 0; d < A::rank; ++d) if (r.chance(50)) n[d] = g_big ? cap[d] : std::min<int64_t>(cap[d], 12);
    bound(n, &cap[0]);
    Model old = mm;
    switch (r.below(13)) {
      case 0: construct(k); return;
      case 1: case 2: name = "copy-assign"; vf::op(name, "[%d] %s (cap %ld %ld %ld %ld) = [%d] %s", k, mm.str().c_str(), (long)cap[0], (long)cap[1], (long)cap[2], (long)cap[3], o, m[o].str().c_str());
        stable = fits(m[o].n) && A::alignment(c) == 0 && A::alignment(*a[o]) == 0;
        if (stable && m[o].total() > 0) vf::event("copy-assign-within-capacity");
        c = *a[o]; mm = m[o]; vf::event("copy"); break;
      case 3: name = "move-assign"; vf::op(name, "[%d]=[%d]", k, o); c = std::move(*a[o]); mm = m[o]; m[o] = Model(A::rank); checkState(*a[o], m[o], "move-out"); vf::event("move"); break;
      case 4: name = "self-assign"; vf::op(name, "[%d]", k); { C& al = c; c = al; } stable = true; break;
      case 5: case 6: case 7: { name = "resize"; vf::op(name, "[%d] %s -> %ld %ld %ld %ld (cap %ld %ld %ld %ld)", k, mm.str().c_str(), (long)n[0], (long)n[1], (long)n[2], (long)n[3], (long)cap[0], (long)cap[1], (long)cap[2], (long)cap[3]);
        stable = fits(n);
        vf::event(stable ? "resize-within-capacity" : "resize-grow");
        A::resize(c, n); mm.resize(n, -1);
        if (!il::isTrivial<T>::value) checkState(c, mm, name);
        else mm.each([&](const int64_t* i) { for (int d = 0; d < A::rank; ++d) if (i[d] >= old.n[d]) return;
          VF_CHECK(vf::El<T>::id(A::at(c, i)) == old.at(i), "nd:element", "resize from %s to %s changed the element (%ld,%ld,%ld,%ld)", old.str().c_str(), mm.str().c_str(), (long)i[0], (long)i[1], (long)(A::rank > 2 ? i[2] : 0), (long)(A::rank > 3 ? i[3] : 0)); });
        fillNew(k, old);
        break; }
      case 8: case 9: { name = "reserve"; if (r.chance(50)) for (int d = 0; d < A::rank; ++d) n[d] = std::max<int64_t>(0, (g_big ? cap[d] : std::min<int64_t>(cap[d], 12)) + r.range(-2, 2));
        bound(n, &cap[0]);
        vf::op(name, "[%d] %s r %ld %ld %ld %ld (cap %ld %ld %ld %ld)", k, mm.str().c_str(), (long)n[0], (long)n[1], (long)n[2], (long)n[3], (long)cap[0], (long)cap[1], (long)cap[2], (long)cap[3]);
        stable = fits(n); A::reserve(c, n);
        for (int d = 0; d < A::rank; ++d) VF_CHECK(c.capacity(d) >= n[d], "nd:reserve", "reserving %ld in dimension %d left %ld", (long)n[d], d, (long)c.capacity(d));
        vf::event("reserve"); break; }
      case 10: { if (mm.total() == 0) return; int64_t i[4]; for (int d = 0; d < 4; ++d) i[d] = d < A::rank ? r.below(mm.n[d]) : 0;
        int64_t id = fresh(); name = "write"; vf::op(name, "[%d] %ld %ld %ld %ld", k, (long)i[0], (long)i[1], (long)i[2], (long)i[3]); A::at(c, i) = vf::El<T>::make(id); mm.at(i) = id; stable = true; break; }
      default: if (!Special<C>::step(r, c, mm, next, n, name)) return;
    }
    if (stable && ctot > 0) {
      VF_CHECK(c.data() == p0, "nd:reallocation", "%s reallocated although the capacity was sufficient", name);
      for (int d = 0; d < A::rank; ++d) VF_CHECK(c.capacity(d) == cap[d], "nd:capacity-kept", "%s changed capacity(%d) although it was sufficient", name, d);
    }
    checkState(c, mm, name);
    checkState(*a[o], m[o], name);
    checkAlign(k, name);
    vf::nontrivial();
  }
};

// class-specific operations
// lists of other shapes: outer(inner), some of them empty; ids of the elements in the order of the list
template <typename T, typename C> static C* list2(Rng& r, int64_t& nx, int64_t& outer, int64_t& inner, int64_t* id) {
  typedef std::initializer_list<T> L; typedef std::initializer_list<L> LL;
  for (int i = 0; i < 5; ++i) id[i] = vf::Norm<T>::n(nx++);
  auto E = [&](int i) { return vf::El<T>::make(id[i]); };
  int k = (int)r.below(7);
  static const int sh[7][2] = {{0, 0}, {1, 0}, {3, 0}, {1, 1}, {1, 5}, {5, 1}, {2, 2}};
  outer = sh[k][0]; inner = sh[k][1];
  vf::op("ctor-list", "%ld lists of %ld", (long)outer, (long)inner);
  if (outer * inner == 0) vf::event("empty-lists");
  L e{};
  switch (k) {
    case 0: { LL l{}; return new C(il::value, l); }
    case 1: { LL l{e}; return new C(il::value, l); }
    case 2: { LL l{e, e, e}; return new C(il::value, l); }
    case 3: { L a{E(0)}; LL l{a}; return new C(il::value, l); }
    case 4: { L a{E(0), E(1), E(2), E(3), E(4)}; LL l{a}; return new C(il::value, l); }
    case 5: { L a{E(0)}, b{E(1)}, c{E(2)}, d{E(3)}, f{E(4)}; LL l{a, b, c, d, f}; return new C(il::value, l); }
    default: { L a{E(0), E(1)}, b{E(2), E(3)}; LL l{a, b}; return new C(il::value, l); }
  }
}
template <typename T, typename C> static C* list3(Rng& r, int64_t& nx, int64_t* n, int64_t* id) {
  typedef std::initializer_list<T> L; typedef std::initializer_list<L> LL; typedef std::initializer_list<LL> LLL;
  for (int i = 0; i < 4; ++i) id[i] = vf::Norm<T>::n(nx++);
  auto E = [&](int i) { return vf::El<T>::make(id[i]); };
  int k = (int)r.below(7);
  static const int sh[7][3] = {{0, 0, 0}, {1, 0, 0}, {2, 1, 0}, {1, 3, 0}, {1, 1, 4}, {1, 4, 1}, {4, 1, 1}};
  for (int d = 0; d < 3; ++d) n[d] = sh[k][d];
  vf::op("ctor-list", "%ld lists of %ld lists of %ld", (long)n[0], (long)n[1], (long)n[2]);
  if (n[2] == 0) vf::event("empty-lists");
  L e{}; LL ee{};
  switch (k) {
    case 0: { LLL l{}; return new C(il::value, l); }
    case 1: { LLL l{ee}; return new C(il::value, l); }
    case 2: { LL a{e}, b{e}; LLL l{a, b}; return new C(il::value, l); }
    case 3: { LL a{e, e, e}; LLL l{a}; return new C(il::value, l); }
    case 4: { L a{E(0), E(1), E(2), E(3)}; LL b{a}; LLL l{b}; return new C(il::value, l); }
    case 5: { L a{E(0)}, b{E(1)}, c{E(2)}, d{E(3)}; LL f{a, b, c, d}; LLL l{f}; return new C(il::value, l); }
    default: { L a{E(0)}, b{E(1)}, c{E(2)}, d{E(3)}; LL f{a}, g{b}, h{c}, i{d}; LLL l{f, g, h, i}; return new C(il::value, l); }
  }
}
template <typename T> struct Special<il::Array2D<T>> {
  typedef il::Array2D<T> C;
  static int64_t fr(int64_t& nx) { return vf::Norm<T>::n(nx++); }
  static bool ctor(Rng& r, C*& a, Model& m, int64_t& nx) {
    if (r.chance(30)) {
      int64_t n[4] = {r.below(6), r.below(6), 0, 0}; int64_t id = fr(nx); const T x = vf::El<T>::make(id);
      vf::op("ctor-emplace", "%ld %ld", (long)n[0], (long)n[1]);
      a = new C(n[0], n[1], il::emplace, x); m.shape(n, id); return true;
    }
    int64_t id[6];
    if (r.chance(40)) {
      int64_t out, in;
      a = list2<T, C>(r, nx, out, in, id);
      int64_t n[4] = {in, out, 0, 0}; m.shape(n, 0);
      m.each([&](const int64_t* i) { m.at(i) = id[i[1] * in + i[0]]; });
      return true;
    }
    for (int i = 0; i < 6; ++i) id[i] = fr(nx);
    vf::op("ctor-list", "2x3");
    a = new C(il::value, {{vf::El<T>::make(id[0]), vf::El<T>::make(id[1])}, {vf::El<T>::make(id[2]), vf::El<T>::make(id[3])}, {vf::El<T>::make(id[4]), vf::El<T>::make(id[5])}});
    int64_t n[4] = {2, 3, 0, 0}; m.shape(n, 0);
    m.each([&](const int64_t* i) { m.at(i) = id[i[1] * 2 + i[0]]; });
    return true;
  }
  static bool step(Rng& r, C& c, Model& m, int64_t& nx, const int64_t* n, const char*& name) {
    int64_t id = fr(nx);
    if (r.chance(50)) { name = "resize-value"; vf::op(name, "%s -> %ld %ld", m.str().c_str(), (long)n[0], (long)n[1]); c.Resize(n[0], n[1], vf::El<T>::make(id)); }
    else { name = "resize-emplace"; vf::op(name, "%s -> %ld %ld", m.str().c_str(), (long)n[0], (long)n[1]); const T x = vf::El<T>::make(id); c.Resize(n[0], n[1], il::emplace, x); }
    m.resize(n, id);
    vf::event("resize-with-value");
    if (n[1] > 0) for (il::int_t j = 0; j < n[1] && n[0] > 0; ++j) VF_CHECK(c.data(j) == &c(0, j) && c.Data(j) == &c(0, j), "nd:column", "data(%ld) is not the address of column %ld", (long)j, (long)j);
    return true;
  }
};
template <typename T> struct Special<il::Array2C<T>> {
  typedef il::Array2C<T> C;
  static int64_t fr(int64_t& nx) { return vf::Norm<T>::n(nx++); }
  static bool ctor(Rng& r, C*& a, Model& m, int64_t& nx) {
    int64_t id[6];
    if (r.chance(40)) {
      int64_t out, in;
      a = list2<T, C>(r, nx, out, in, id);
      int64_t n[4] = {out, in, 0, 0}; m.shape(n, 0);
      m.each([&](const int64_t* i) { m.at(i) = id[i[0] * in + i[1]]; });
      return true;
    }
    for (int i = 0; i < 6; ++i) id[i] = fr(nx);
    vf::op("ctor-list", "3x2");
    a = new C(il::value, {{vf::El<T>::make(id[0]), vf::El<T>::make(id[1])}, {vf::El<T>::make(id[2]), vf::El<T>::make(id[3])}, {vf::El<T>::make(id[4]), vf::El<T>::make(id[5])}});
    int64_t n[4] = {3, 2, 0, 0}; m.shape(n, 0);
    m.each([&](const int64_t* i) { m.at(i) = id[i[0] * 2 + i[1]]; });
    return true;
  }
  static bool step(Rng& r, C& c, Model& m, int64_t& nx, const int64_t*, const char*& name) {
    int64_t id = fr(nx);
    name = "set-all"; vf::op(name, "%s", m.str().c_str());
    c.Set(vf::El<T>::make(id)); m.v.assign(m.v.size(), id);
    for (il::int_t i = 0; i < m.n[0] && m.n[1] > 0; ++i) VF_CHECK(c.data(i) == &c(i, 0) && c.Data(i) == &c(i, 0), "nd:row", "data(%ld) is not the address of row %ld", (long)i, (long)i);
    return true;
  }
};
#define VF_LIST3(CLS, EXPR, FLIP)                                                                                           \
  template <typename T> struct Special<CLS<T>> {                                                                      \
    typedef CLS<T> C;                                                                                                 \
    static bool ctor(Rng& r, C*& a, Model& m, int64_t& nx) {                                                          \
      int64_t id[12];                                                                                                 \
      if (r.chance(40)) {                                                                                             \
        int64_t k[4] = {0, 0, 0, 0}; a = list3<T, C>(r, nx, k, id);                                                   \
        int64_t n[4] = {k[FLIP ? 2 : 0], k[1], k[FLIP ? 0 : 2], 0}; m.shape(n, 0);                                    \
        m.each([&](const int64_t* i) { m.at(i) = id[(i[FLIP ? 2 : 0] * k[1] + i[1]) * k[2] + i[FLIP ? 0 : 2]]; });    \
        return true;                                                                                                  \
      }                                                                                                               \
      for (int i = 0; i < 12; ++i) id[i] = vf::Norm<T>::n(nx++);                                                      \
      auto E = [&](int i) { return vf::El<T>::make(id[i]); };                                                         \
      vf::op("ctor-list", "3d");                                                                                      \
      a = new C(il::value, {{{E(0), E(1)}, {E(2), E(3)}, {E(4), E(5)}}, {{E(6), E(7)}, {E(8), E(9)}, {E(10), E(11)}}}); \
      int64_t n[4] = {2, 3, 2, 0}; m.shape(n, 0);                                                                     \
      m.each([&](const int64_t* i) { m.at(i) = id[EXPR]; });                                                          \
      return true;                                                                                                    \
    }                                                                                                                 \
    static bool step(Rng&, C&, Model&, int64_t&, const int64_t*, const char*&) { return false; }                      \
  };
VF_LIST3(il::Array3D, (i[2] * 3 + i[1]) * 2 + i[0], true)
VF_LIST3(il::Array3C, (i[0] * 3 + i[1]) * 2 + i[2], false)

template <typename C>
void runND(Rng& r, const char* what) {
  vf::lifeBegin();
  {
    Case<C> c(r);
    for (int k = 0; k < 3; ++k) c.construct(k);
    int steps = g_big ? (int)r.range(3, 8) : (int)r.range(4, 25);
    for (int i = 0; i < steps; ++i) c.step();
    if (g_big) vf::event("large");
    vf::sample(vf::fmt("%s<%s>: %d operations, final shapes %s %s %s", what, vf::El<typename AD<C>::E>::name(), steps, c.m[0].str().c_str(), c.m[1].str().c_str(), c.m[2].str().c_str()));
    vf::event("operations", steps);
  }
  vf::lifeEnd();
}

#if VF_PART == 4
template <typename T, typename C, int N0, int N1, typename L>
void static2(Rng& r, bool row, L list) {
  vf::lifeBegin();
  {
    int64_t nx = 1;
    auto fr = [&]() { return vf::Norm<T>::n(nx++); };
    int64_t id0 = fr();
    vf::op("static2", "%dx%d", N0, N1);
    C a(vf::El<T>::make(id0));
    VF_CHECK(a.size(0) == N0 && a.size(1) == N1, "static:size", "sizes");
    std::vector<int64_t> m(N0 * N1, id0);
    auto chk = [&](const C& c, const std::vector<int64_t>& mm, const char* w) {
      vf::lifeCheck();
      for (int i = 0; i < N0; ++i) for (int j = 0; j < N1; ++j) {
        VF_CHECK(vf::El<T>::id(c(i, j)) == mm[i * N1 + j], "static:element", "%s (%d,%d)", w, i, j);
        VF_CHECK(&c(i, j) == c.data() + (row ? i * N1 + j : j * N0 + i), "static:order", "%s (%d,%d)", w, i, j);
      }
    };
    chk(a, m, "value");
    for (int t = 0; t < 10; ++t) { int i = (int)r.below(N0), j = (int)r.below(N1); int64_t id = fr(); a(i, j) = vf::El<T>::make(id); m[i * N1 + j] = id; }
    chk(a, m, "write");
    C b(a); auto mb = m; a(0, 0) = vf::El<T>::make(fr()); chk(b, mb, "copy"); a = b; chk(a, mb, "assign");
    list(chk);
    vf::event("static"); vf::nontrivial(); vf::sig(N0 * 10 + N1); vf::sig(row);
  }
  vf::lifeEnd();
}
template <typename T>
void runStatics(Rng& r) {
  static2<T, il::StaticArray2D<T, 3, 2>, 3, 2>(r, false, [&](std::function<void(const il::StaticArray2D<T, 3, 2>&, const std::vector<int64_t>&, const char*)> chk) {
    auto E = [](int i) { return vf::El<T>::make(i); };
    il::StaticArray2D<T, 3, 2> l(il::value, {{E(1), E(2), E(3)}, {E(4), E(5), E(6)}});
    chk(l, std::vector<int64_t>{1, 4, 2, 5, 3, 6}, "list"); });
  static2<T, il::StaticArray2C<T, 3, 4>, 3, 4>(r, true, [&](std::function<void(const il::StaticArray2C<T, 3, 4>&, const std::vector<int64_t>&, const char*)> chk) {
    auto E = [](int i) { return vf::El<T>::make(i); };
    il::StaticArray2C<T, 3, 4> l(il::value, {{E(1), E(2), E(3), E(4)}, {E(5), E(6), E(7), E(8)}, {E(9), E(10), E(11), E(12)}});
    chk(l, std::vector<int64_t>{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}, "list"); });
  vf::lifeBegin();
  {
    vf::op("static3", "");
    il::StaticArray3D<T, 2, 3, 4> a(vf::El<T>::make(1));
    int64_t nx = 2; std::set<const T*> ad; std::vector<int64_t> ids;
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 4; ++k) { VF_CHECK(vf::El<T>::id(a(i, j, k)) == 1, "static:element", "3d"); ad.insert(&a(i, j, k)); }
    VF_CHECK(ad.size() == 24 && *ad.rbegin() - *ad.begin() == 23, "static:alias", "3d");
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 4; ++k) { int64_t id = vf::Norm<T>::n(nx++); ids.push_back(id); a(i, j, k) = vf::El<T>::make(id); }
    const il::StaticArray3D<T, 2, 3, 4> b(a);
    int q = 0;
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 4; ++k) { VF_CHECK(vf::El<T>::id(b(i, j, k)) == ids[q] && vf::El<T>::id(a(i, j, k)) == ids[q] && &b(i, j, k) - &b(0, 0, 0) == &a(i, j, k) - &a(0, 0, 0), "static:element", "3d"); ++q; if (i) VF_CHECK(&b(i, j, k) == &b(0, j, k) + 1, "static:order", "3d"); }
    VF_CHECK(b.size(0) == 2 && b.size(1) == 3 && b.size(2) == 4, "static:size", "3d");
    vf::op("static4", "");
    il::StaticArray4D<T, 2, 3, 2, 3> c(vf::El<T>::make(1));
    ids.clear(); ad.clear();
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 2; ++k) for (int l = 0; l < 3; ++l) { VF_CHECK(vf::El<T>::id(c(i, j, k, l)) == 1, "static:element", "4d"); int64_t id = vf::Norm<T>::n(nx++); ids.push_back(id); c(i, j, k, l) = vf::El<T>::make(id); ad.insert(&c(i, j, k, l)); }
    VF_CHECK(ad.size() == 36 && *ad.rbegin() - *ad.begin() == 35, "static:alias", "4d");
    q = 0;
    const il::StaticArray4D<T, 2, 3, 2, 3> d(c);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 2; ++k) for (int l = 0; l < 3; ++l) { VF_CHECK(vf::El<T>::id(c(i, j, k, l)) == ids[q] && vf::El<T>::id(d(i, j, k, l)) == ids[q] && &d(i, j, k, l) - &d(0, 0, 0, 0) == &c(i, j, k, l) - &c(0, 0, 0, 0), "static:element", "4d"); ++q; if (i) VF_CHECK(&c(i, j, k, l) == &c(0, j, k, l) + 1, "static:order", "4d"); }
    VF_CHECK(c.size(0) == 2 && c.size(1) == 3 && c.size(2) == 2 && c.size(3) == 3, "static:size", "4d");
    vf::event("static");
  }
  vf::lifeEnd();
}
#endif

#if VF_PART == 0
#define CLS il::Array2D
#elif VF_PART == 1
#define CLS il::Array2C
#elif VF_PART == 2
#define CLS il::Array3D
#elif VF_PART == 3
#define CLS il::Array3C
#elif VF_PART == 4
#define CLS il::Array4D
#else
#define CLS il::Array4C
#endif
#define STR2(x) #x
#define STR(x) STR2(x)

void vf_case(Rng& r, uint64_t idx) {
  vf::sig(VF_PART);
  g_big = r.below(150) == 0;
  switch (vf::lifeOnly() ? (idx % 4 ? 2 : VF_PART == 4 ? 6 : 3) : (int)(idx % 8)) {
    case 0: case 1: runND<CLS<int>>(r, STR(CLS)); break;
    case 2: case 3: case 4: runND<CLS<vf::Tracked>>(r, STR(CLS)); break;
    case 5: runND<CLS<double>>(r, STR(CLS)); break;
#if VF_PART == 4
    case 6: if (!vf::lifeOnly() && r.chance(50)) runStatics<int>(r); else runStatics<vf::Tracked>(r); break;
#endif
    default: runND<CLS<char>>(r, STR(CLS));
  }
}
