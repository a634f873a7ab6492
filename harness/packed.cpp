// A05 / A02: triangular, banded, tridiagonal matrices against an index -> value model.
#include "vfil.h"
#include <cstring>
#include <il/Array.h>
#include <il/container/2d/LowerArray2D.h>
#include <il/container/2d/UpperArray2D.h>
#include <il/container/2d/BandArray2C.h>
#include <il/container/2d/TriDiagonal.h>
#include "elem.h"
using vf::Rng;

typedef std::map<std::pair<int64_t, int64_t>, int64_t> Val;

template <typename C> struct Tri;
template <typename T> struct Tri<il::LowerArray2D<T>> {
  typedef T E;
  static bool ok(int64_t i, int64_t j) { return j <= i; }
  static const char* name() { return "lower"; }
};
template <typename T> struct Tri<il::UpperArray2D<T>> {
  typedef T E;
  static bool ok(int64_t i, int64_t j) { return i <= j; }
  static const char* name() { return "upper"; }
};

template <typename C>
struct Slot { C* c; int64_t n; Val v; };

template <typename C>
void checkTri(const Slot<C>& s, const char* after) {
  typedef typename Tri<C>::E T;
  vf::lifeCheck();
  const C& c = *s.c;
  VF_CHECK(c.size() == s.n, "tri:size", "after %s size is %ld, expected %ld", after, (long)c.size(), (long)s.n);
  VF_CHECK(c.capacity() >= c.size(), "tri:capacity", "after %s capacity %ld < size", after, (long)c.capacity());
  std::vector<const T*> ad;
  const T* lo = s.c->Data();
  for (int64_t i = 0; i < s.n; ++i)
    for (int64_t j = 0; j < s.n; ++j)
      if (Tri<C>::ok(i, j)) {
        const T& x = c(i, j);
        int64_t g = vf::El<T>::id(x);
        Val::const_iterator it = s.v.find(std::make_pair(i, j));
        if (it != s.v.end()) VF_CHECK(g == it->second, "tri:element", "after %s entry (%ld,%ld) of order %ld is %lld, expected %lld", after, (long)i, (long)j, (long)s.n, (long long)g, (long long)it->second);
        VF_CHECK(&x >= lo && &x < lo + s.n * (s.n + 1) / 2, "tri:storage", "after %s entry (%ld,%ld) lies outside the packed storage", after, (long)i, (long)j);
        ad.push_back(&x);
      }
  std::sort(ad.begin(), ad.end());
  for (size_t k = 1; k < ad.size(); ++k) VF_CHECK(ad[k] != ad[k - 1], "tri:alias", "after %s two admissible index pairs share an entry", after);
  vf::lifeCheck();
}

template <typename C>
void triangular(Rng& r) {
  typedef typename Tri<C>::E T;
  vf::lifeBegin();
  Slot<C> s[3];
  int64_t next = 1;
  struct Fill {
    static void all(Slot<C>& x, int64_t& nx) {
      for (int64_t i = 0; i < x.n; ++i) for (int64_t j = 0; j < x.n; ++j) if (Tri<C>::ok(i, j)) {
        int64_t w = nx++ % 100;
        (*x.c)(i, j) = vf::El<T>::make(w);
        x.v[std::make_pair(i, j)] = vf::Norm<T>::n(w);
      }
    }
  };
  for (int k = 0; k < 3; ++k) {
    s[k].n = r.range(0, 7);
    vf::op("tri-ctor", "%s %s n=%ld", Tri<C>::name(), vf::El<T>::name(), (long)s[k].n);
    s[k].c = new C(s[k].n);
    Fill::all(s[k], next);
    checkTri(s[k], "construction");
  }
  vf::nontrivial();
  int steps = (int)r.range(3, 14);
  for (int q = 0; q < steps; ++q) {
    Slot<C>& a = s[r.below(3)];
    Slot<C>& b = s[r.below(3)];
    switch (r.below(7)) {
      case 0:
        vf::op("tri-copy-assign", "%ld (cap %ld) = %ld", (long)a.n, (long)a.c->capacity(), (long)b.n);
        if (b.n <= a.c->capacity() && &a != &b && b.n != a.n) vf::event("copy-assign-within-capacity");
        *a.c = *b.c;
        a.n = b.n; a.v = Val(b.v);
        vf::event("copy");
        break;
      case 1: {
        vf::op("tri-copy-ctor", "%ld", (long)b.n);
        C* x = new C(*b.c);
        delete a.c;
        a.c = x;
        { Val v = b.v; int64_t n = b.n; a.n = n; a.v = v; }
        vf::event("copy");
        break;
      }
      case 2:
        if (&a == &b) {
          vf::op("tri-self-move");
          C& y = *a.c;
          *a.c = std::move(y);
          break;
        }
        vf::op("tri-move-assign", "%ld = %ld", (long)a.n, (long)b.n);
        *a.c = std::move(*b.c);
        a.n = b.n; a.v = b.v;
        b.n = 0; b.v.clear();
        vf::event("move");
        break;
      case 3: {
        vf::op("tri-move-ctor", "%ld", (long)b.n);
        C* x = new C(std::move(*b.c));
        Val v = b.v; int64_t n = b.n;
        b.n = 0; b.v.clear();
        checkTri(b, "moved-from");
        if (&a == &b) { delete b.c; } else delete a.c;
        a.c = x; a.n = n; a.v = v;
        vf::event("move");
        break;
      }
      case 4: {
        vf::op("tri-default");
        delete a.c;
        a.c = new C();
        a.n = 0; a.v.clear();
        break;
      }
      case 5: {
        int64_t n = r.chance(2) ? r.range(10, 90) : r.range(0, 9);
        vf::op("tri-new", "%ld", (long)n);
        delete a.c;
        a.c = new C(n);
        a.n = n; a.v.clear();
        Fill::all(a, next);
        break;
      }
      default:
        if (a.n > 0) {
          int64_t i = r.below(a.n), j = r.below(a.n);
          if (!Tri<C>::ok(i, j)) std::swap(i, j);
          int64_t w = next++ % 100;
          vf::op("tri-write", "%ld %ld", (long)i, (long)j);
          (*a.c)(i, j) = vf::El<T>::make(w);
          a.v[std::make_pair(i, j)] = vf::Norm<T>::n(w);
        }
    }
    for (int k = 0; k < 3; ++k) checkTri(s[k], vf::st().last_op);
  }
  vf::event(Tri<C>::name());
  for (int k = 0; k < 3; ++k) delete s[k].c;
  vf::lifeEnd();
}

template <typename T>
void band(Rng& r) {
  vf::lifeBegin();
  {
    const int64_t most = r.chance(2) ? 100 : 8;
    int64_t n0 = r.range(0, most), n1, wl, wr;
    bool sq = r.chance(40);
    if (sq) { n1 = n0; wl = wr = r.range(0, 4); } else { n1 = r.range(0, most); wl = r.range(0, 5); wr = r.range(0, 5); }
    vf::op("band-ctor", "%ld x %ld widths %ld %ld %s", (long)n0, (long)n1, (long)wl, (long)wr, sq ? "square" : "");
    il::BandArray2C<T>* a = sq ? new il::BandArray2C<T>(n0, wl) : new il::BandArray2C<T>(n0, n1, wl, wr);
    VF_CHECK(a->size(0) == n0 && a->size(1) == n1, "band:size", "wrong size %ld x %ld", (long)a->size(0), (long)a->size(1));
    VF_CHECK(a->widthLeft() == wl && a->widthRight() == wr, "band:width", "wrong widths");
    VF_CHECK(a->capacityRight() >= wr, "band:capacity", "capacityRight %ld < width %ld", (long)a->capacityRight(), (long)wr);
    Val v;
    int64_t zero = vf::Norm<T>::n(0);
    if (std::is_same<T, double>::value) zero = -55;  // El<double> ids are offset by 0.25
    int64_t nx = 1;
    vf::nontrivial();
    for (int pass = 0; pass < 3; ++pass) {
      std::vector<const T*> ad;
      for (int64_t i = 0; i < n0; ++i)
        for (int64_t k = -wl; k <= wr; ++k) {
          if (i + k < 0 || i + k >= n1) continue;
          const il::BandArray2C<T>& ca = *a;
          if (pass == 0 && std::is_same<T, double>::value) VF_CHECK(*(const double*)&ca(i, k) == 0.0, "band:zero", "entry (%ld,%+ld) of a new band matrix is not 0", (long)i, (long)k);
          if (pass > 0) {
            int64_t g = vf::El<T>::id(ca(i, k));
            VF_CHECK(g == v[std::make_pair(i, k)], "band:element", "entry (%ld,%+ld) is %lld, expected %lld", (long)i, (long)k, (long long)g, (long long)v[std::make_pair(i, k)]);
          }
          VF_CHECK(&ca(i, k) == &(*a)(i, k), "band:const", "const and mutable accessors disagree");
          VF_CHECK(&ca(i, k) >= a->Data() && &ca(i, k) < a->Data() + n0 * (1 + wl + a->capacityRight()), "band:storage", "entry outside the storage");
          ad.push_back(&ca(i, k));
        }
      std::sort(ad.begin(), ad.end());
      for (size_t k = 1; k < ad.size(); ++k) VF_CHECK(ad[k] != ad[k - 1], "band:alias", "two band entries share storage");
      if (pass == 2) break;
      vf::op("band-write");
      for (int64_t i = 0; i < n0; ++i)
        for (int64_t k = -wl; k <= wr; ++k) {
          if (i + k < 0 || i + k >= n1) continue;
          if (pass == 1 && r.chance(50)) continue;
          int64_t w = nx++ % 110;
          (*a)(i, k) = vf::El<T>::make(w);
          v[std::make_pair(i, k)] = vf::Norm<T>::n(w);
        }
    }
    vf::op("band-copy");
    il::BandArray2C<T> b(*a);
    delete a;
    for (Val::iterator it = v.begin(); it != v.end(); ++it) VF_CHECK(vf::El<T>::id(b(it->first.first, it->first.second)) == it->second, "band:copy", "a copied band matrix differs");
    vf::event("band");
    (void)zero;
  }
  vf::lifeEnd();
}

template <typename T>
void tri3(Rng& r) {
  vf::lifeBegin();
  {
    int64_t n = r.chance(2) ? r.range(10, 90) : r.range(0, 9);
    vf::op("tridiagonal", "n=%ld", (long)n);
    il::TriDiagonal<T> a{n};
    VF_CHECK(a.size() == n, "tridiag:size", "size %ld", (long)a.size());
    Val v;
    int64_t nx = 1;
    vf::nontrivial();
    for (int64_t i = 0; i < n; ++i) for (int64_t k = -1; k <= 1; ++k) { int64_t w = nx++; a(i, k) = vf::El<T>::make(w); v[std::make_pair(i, k)] = vf::Norm<T>::n(w); }
    for (int q = 0; q < 6 && n > 0; ++q) { int64_t i = r.below(n), k = r.range(-1, 1), w = nx++; vf::op("tridiagonal-write", "%ld %ld", (long)i, (long)k); a(i, k) = vf::El<T>::make(w); v[std::make_pair(i, k)] = vf::Norm<T>::n(w); }
    il::TriDiagonal<T> b(a);
    il::TriDiagonal<T> c{1};
    c = a;
    const il::TriDiagonal<T>& ca = a;
    for (Val::iterator it = v.begin(); it != v.end(); ++it) {
      int64_t i = it->first.first, k = it->first.second;
      VF_CHECK(vf::El<T>::id(ca(i, k)) == it->second, "tridiag:element", "entry (%ld,%+ld) is not what was written", (long)i, (long)k);
      VF_CHECK(vf::El<T>::id(b(i, k)) == it->second && vf::El<T>::id(c(i, k)) == it->second, "tridiag:copy", "a copied tridiagonal matrix differs at (%ld,%+ld)", (long)i, (long)k);
      VF_CHECK(&b(i, k) != &a(i, k), "tridiag:copy-alias", "a copy shares storage");
      // the contiguous diagonals used by the solvers
      if (k == 0) VF_CHECK(a.DiagonalData() + i == &a(i, 0), "tridiag:diag", "DiagonalData()[%ld] is not entry (%ld,0)", (long)i, (long)i);
      if (k == 1 && i + 1 < n) VF_CHECK(a.UpperData() + i == &a(i, 1), "tridiag:upper", "UpperData()[%ld] is not entry (%ld,+1)", (long)i, (long)i);
      if (k == -1 && i > 0) VF_CHECK(a.LowerData() + (i - 1) == &a(i, -1), "tridiag:lower", "LowerData()[%ld] is not entry (%ld,-1)", (long)i - 1, (long)i);
    }
    vf::event("tridiagonal");
  }
  vf::lifeEnd();
}

template <typename T>
void any(Rng& r) {
  switch (r.below(5)) {
    case 0: case 1: return triangular<il::LowerArray2D<T>>(r);
    case 2: case 3: return triangular<il::UpperArray2D<T>>(r);
    default: if (r.chance(50)) return band<T>(r); return tri3<T>(r);
  }
}

void vf_case(Rng& r, uint64_t) {
  switch (vf::lifeOnly() ? 3 : r.below(4)) {
    case 0: any<int>(r); break;
    case 1: any<double>(r); break;
    case 2: any<char>(r); break;
    default: any<vf::Tracked>(r);
  }
  if (vf::wantSample()) vf::sample(vf::fmt("last op %s", vf::st().last_op));
}
