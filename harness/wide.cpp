// Objects beyond the reach of 32-bit arithmetic: more than 2^31 elements, or more than 2^31 or
// 2^32 bytes. Every case builds one such object with the repository's containers, places marks at
// chosen positions (first, last, around 2^31 and 2^32, random), goes through the operations that
// compute sizes, offsets or byte counts, and compares marks, addresses, sizes and capacities.
// The pages in between are never touched where the operation does not need them.
#include "vfil.h"
#include <il/Array.h>
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/Array2DView.h>
#include <il/Array3C.h>
#include <il/Array3D.h>
#include <il/Array4C.h>
#include <il/Array4D.h>
#include <il/ArrayView.h>
#include <il/Deque.h>
#include <il/LowerArray2D.h>
#include <il/SmallArray.h>
#include <il/String.h>
#include <il/container/string/algorithmString.h>
#include <il/TriDiagonal.h>
#include <il/container/2d/BandArray2C.h>
#include <il/container/2d/UpperArray2D.h>
#include <il/container/3d/Array3DView.h>
#include <il/algorithmArray.h>

#include <il/io/File.h>
#include <il/numpy.h>
#include <memory>
#include <sys/stat.h>
using vf::Rng;
typedef il::int_t I;
static const I G2 = (I)1 << 31, G4 = (I)1 << 32;

// ---- marks ------------------------------------------------------------------------------------
template <typename T> static T markOf(I k) { return (T)(1 + (uint64_t)k * 2654435761ull % 113); }
static std::vector<I> spots(Rng& r, I n) {
  std::vector<I> s;
  const I c[] = {0, 1, n - 1, n - 2, G2 - 1, G2, G2 + 1, G4 - 1, G4, G4 + 1, n / 2, G2 / 2, G2 / 4, G2 / 8, n - G2, n - G4};
  for (I k : c) if (k >= 0 && k < n) s.push_back(k);
  for (int k = 0; k < 12; ++k) s.push_back(r.below(n));
  std::sort(s.begin(), s.end());
  s.erase(std::unique(s.begin(), s.end()), s.end());
  return s;
}
template <typename V, typename T> static void put(V& v, const std::vector<I>& s, T) {
  for (I k : s) v[k] = markOf<T>(k);
}
template <typename V, typename T> static void look(const char* key, const V& v, const std::vector<I>& s, T, I from = 0, I upto = -1) {
  for (I k : s) {
    if (k < from || (upto >= 0 && k >= upto)) continue;
    T got = v[k - from];
    VF_CHECK(got == markOf<T>(k), key, "element %lld is %g instead of %g", (long long)(k - from), (double)got, (double)markOf<T>(k));
    vf::event("marks-compared");
  }
}
template <typename V> static void placed(const char* key, const V& v, const std::vector<I>& s) {
  for (I k : s)
    VF_CHECK(&v[k] == v.data() + k, key, "element %lld is not where the sequence has it", (long long)k);
}
template <typename V> static void shape(const char* key, const V& v, I n, I c) {
  VF_CHECK(v.size() == n, key, "size %lld instead of %lld", (long long)v.size(), (long long)n);
  VF_CHECK(v.capacity() >= c, key, "capacity %lld below %lld", (long long)v.capacity(), (long long)c);
}
// Objects of this size only make sense where there is room for them.
static bool room(double gb) {
  double avail = 1e9;
  if (FILE* f = fopen("/proc/meminfo", "r")) {
    char line[200];
    while (fgets(line, sizeof line, f)) {
      double kb;
      if (sscanf(line, "MemAvailable: %lf kB", &kb) == 1) avail = kb / 1048576.0;
    }
    fclose(f);
  }
  double lim = 1e9, cur = 0;
  if (FILE* f = fopen("/sys/fs/cgroup/memory.max", "r")) { double b; if (fscanf(f, "%lf", &b) == 1) lim = b / 1073741824.0; fclose(f); }
  if (FILE* f = fopen("/sys/fs/cgroup/memory.current", "r")) { double b; if (fscanf(f, "%lf", &b) == 1) cur = b / 1073741824.0; fclose(f); }
  if (lim < 1e8) avail = std::min(avail, lim - cur);
  void* p = malloc((size_t)(gb * 1073741824.0));
  bool fits = p != nullptr && avail > gb + 4;
  free(p);
  return fits;
}
// an anonymous region whose pages read as zeros
struct Region {
  char* p;
  size_t n;
  explicit Region(size_t n_) : n(n_) {
    p = (char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { fprintf(stderr, "no address space\n"); _exit(3); }
  }
  ~Region() { munmap(p, n); }
};

#if VF_WIDE == 1  // A01
template <typename V> struct ElemOf;
template <typename T> struct ElemOf<il::Array<T>> { typedef T type; };
template <typename T, I k> struct ElemOf<il::SmallArray<T, k>> { typedef T type; };
template <typename V> static void sequence(Rng& r, I n) {
  typedef typename ElemOf<V>::type T;
  const char* key = "wide-array";
  auto s = spots(r, n);
  vf::op("construct", "%lld of %d", (long long)n, (int)sizeof(T));
  V v(n);
  shape(key, v, n, n);
  put(v, s, T());
  placed(key, v, s);
  look(key, v, s, T());
  VF_CHECK(v.back() == v[n - 1] && &v.Back() == v.Data() + (n - 1), key, "back is not the last element");
  {
    vf::op("view");
    il::Range rg{r.below(n / 4), n - r.below(n / 4)};
    auto w = v.view(rg);
    VF_CHECK(w.size() == rg.end - rg.begin && w.data() == v.data() + rg.begin, key, "range view");
    look(key, w, s, T(), rg.begin, rg.end);
  }
  if (r.chance(50)) {
    I m = n + 1 + r.below(1000);
    vf::op("reserve", "%lld", (long long)m);
    v.Reserve(m);
    shape(key, v, n, m);
    look(key, v, s, T());
    v.Append(markOf<T>(n));
    vf::event("append-within");
  } else {
    vf::op("append");
    v.Append(markOf<T>(n));
    vf::event("append-grows");
  }
  shape(key, v, n + 1, n + 1);
  s.push_back(n);
  look(key, v, s, T());
  {
    vf::op("move");
    V w(std::move(v));
    shape(key, w, n + 1, n + 1);
    VF_CHECK(v.size() == 0, key, "moved-from array keeps %lld elements", (long long)v.size());
    v = std::move(w);
    look(key, v, s, T());
  }
  I m = n - r.below(1000);
  vf::op("shrink", "%lld", (long long)m);
  v.Resize(m);
  shape(key, v, m, n + 1);
  look(key, v, s, T(), 0, m);
  {
    vf::op("copy");
    V w(v);
    shape(key, w, m, m);
    look(key, w, s, T(), 0, m);
    vf::event("wide-copy");
  }
  {
    vf::op("copy-assign");
    V w;
    w = v;
    shape(key, w, m, m);
    look(key, w, s, T(), 0, m);
    vf::event("wide-copy-assign");
  }
  I big = n + 4096 + r.below(5000);
  vf::op("resize", "%lld", (long long)big);
  v.Resize(big);
  shape(key, v, big, big);
  look(key, v, s, T(), 0, m);
  v[big - 1] = 7;
  VF_CHECK(&v[big - 1] == v.data() + (big - 1), key, "last element after growing");
}
static void kind(Rng& r, int k) {
  switch (k) {
    case 0: sequence<il::Array<char>>(r, G2 + r.below(1000)); vf::event("elements-past-2^31"); break;
    case 1: sequence<il::Array<double>>(r, G2 / 8 + r.below(1000)); vf::event("bytes-past-2^31"); break;
    case 2: sequence<il::SmallArray<signed char, 4>>(r, G2 + r.below(1000)); vf::event("small-array"); break;
    case 3: sequence<il::SmallArray<int, 2>>(r, G2 / 4 + r.below(1000)); vf::event("small-array"); break;
    case 4: if (!room(10)) { vf::event("skipped-no-memory"); break; }
      sequence<il::Array<short>>(r, G2 + r.below(1000)); vf::event("bytes-past-2^32"); break;
    case 5: {
      const char* key = "wide-array";
      I n = G2 + r.below(100);
      vf::op("filled", "%lld", (long long)n);
      il::Array<char> v(n, 'x');
      shape(key, v, n, n);
      VF_CHECK(v[0] == 'x' && v[n - 1] == 'x' && v[G2 - 1] == 'x' && v[n / 2] == 'x', key, "not filled");
      I m = n + r.below(100);
      v.Resize(m, 'y');
      VF_CHECK(v[n - 1] == 'x', key, "an element changed");
      for (I i = n; i < m; ++i) VF_CHECK(v[i] == 'y', key, "a new element has no value");
      il::ArrayView<char> w = v.view();
      il::Array<char> c(w);
      shape(key, c, m, m);
      VF_CHECK(c[n - 1] == 'x' && c[m - 1] == (m > n ? 'y' : 'x') && c[G2 - 2] == 'x', key, "copy of a view");
      vf::event("wide-filled");
      break;
    }
  }
}
static const int kKinds = 6;

#elif VF_WIDE == 3  // A03
template <typename T> static void flat(Rng& r) {
  const char* key = "wide-view";
  I n = ((I)5 << 31) / (I)sizeof(T) * 4 + r.below(1000);
  Region g((size_t)n * sizeof(T));
  T* p = (T*)g.p;
  auto s = spots(r, n);
  vf::op("raw", "%lld of %d", (long long)n, (int)sizeof(T));
  il::ArrayEdit<T> e(p, n);
  il::ArrayView<T> v(p, n);
  VF_CHECK(e.size() == n && v.size() == n, key, "size");
  put(e, s, T());
  for (I k : s) VF_CHECK(&v[k] == p + k && &e[k] == p + k && p[k] == markOf<T>(k), key, "element %lld elsewhere", (long long)k);
  VF_CHECK(&v.back() == p + (n - 1) && &e.Back() == p + (n - 1), key, "back");
  for (int t = 0; t < 5; ++t) {
    I a = r.below(n), b = r.range(a, n);
    il::Range rg{a, b};
    auto w = v.view(rg);
    auto x = e.Edit(rg);
    auto y = e.view(rg);
    VF_CHECK(w.size() == b - a && x.size() == b - a && y.size() == b - a, key, "size of a range");
    VF_CHECK(w.data() == p + a && x.Data() == p + a && y.data() == p + a, key, "begin of a range");
    look(key, w, s, T(), a, b);
    vf::event("range");
  }
}
template <typename T> static void plane(Rng& r) {
  const char* key = "wide-view2";
  I n0 = r.chance(50) ? 60000 + r.below(20000) : 3 + r.below(5);
  I n1 = n0 > 100 ? 60000 + r.below(20000) : G2 / 2 + r.below(1000);
  if (r.chance(30)) std::swap(n0, n1);
  I st = n0 + r.below(10);
  Region g((size_t)st * n1 * sizeof(T));
  T* p = (T*)g.p;
  vf::op("raw2", "%lldx%lld stride %lld of %d", (long long)n0, (long long)n1, (long long)st, (int)sizeof(T));
  il::Array2DView<T> v(p, n0, n1, st, 0, 0);
  il::Array2DEdit<T> e(p, n0, n1, st, 0, 0);
  for (int t = 0; t < 40; ++t) {
    I i = t & 1 ? r.below(n0) : (t & 2 ? n0 - 1 : 0), j = t & 4 ? r.below(n1) : (t & 8 ? n1 - 1 : 0);
    VF_CHECK(&v(i, j) == p + j * st + i && &e(i, j) == p + j * st + i, key, "element (%lld, %lld) elsewhere", (long long)i, (long long)j);
    e(i, j) = (T)t;
    VF_CHECK(v(i, j) == (T)t, key, "element (%lld, %lld)", (long long)i, (long long)j);
    I a = r.range(0, i), b = r.range(i + 1, n0), c = r.range(0, j), d = r.range(j + 1, n1);
    auto w = v.view(il::Range{a, b}, il::Range{c, d});
    auto x = e.Edit(il::Range{a, b}, il::Range{c, d});
    VF_CHECK(w.size(0) == b - a && w.size(1) == d - c && x.size(0) == b - a && x.size(1) == d - c, key, "extents of a block");
    VF_CHECK(&w(i - a, j - c) == &v(i, j) && &x(i - a, j - c) == &v(i, j), key, "block of (%lld, %lld)", (long long)i, (long long)j);
    vf::event("block");
  }
  I m = 2000 + r.below(1000), q = 1000 + r.below(500), l = 1100 + r.below(300);
  Region h((size_t)m * q * l * sizeof(T));
  T* z = (T*)h.p;
  il::Array3DView<T> v3(z, m, q, l, m, q);
  il::Array3DEdit<T> e3(z, m, q, l, m, q);
  for (int t = 0; t < 20; ++t) {
    I i = t & 1 ? m - 1 : r.below(m), j = t & 2 ? q - 1 : r.below(q), k = t & 4 ? l - 1 : r.below(l);
    VF_CHECK(&v3(i, j, k) == z + (k * q + j) * m + i && &e3(i, j, k) == z + (k * q + j) * m + i, key, "element (%lld, %lld, %lld) elsewhere", (long long)i, (long long)j, (long long)k);
    vf::event("cube");
  }
}
template <typename A, bool cm> static void parent2(Rng& r) {
  const char* key = "wide-view-parent";
  I n0 = 46342 + r.below(100), n1 = 46342 + r.below(100);
  A a(n0, n1);
  for (int t = 0; t < 20; ++t) {
    I i = t & 1 ? r.below(n0) : n0 - 1, j = t & 2 ? r.below(n1) : n1 - 1;
    I b0 = r.range(0, i), c0 = r.range(i + 1, n0), b1 = r.range(0, j), c1 = r.range(j + 1, n1);
    auto w = a.view(il::Range{b0, c0}, il::Range{b1, c1});
    VF_CHECK(&w(i - b0, j - b1) == &a(i, j), key, "(%lld, %lld) of the view is not the parent's", (long long)i, (long long)j);
    vf::event("parent-block");
  }
}
static void columns(Rng& r) {
  const char* key = "wide-view-parent";
  I n0 = 46342 + r.below(100), n1 = 46342 + r.below(100);
  il::Array2D<char> a(n0, n1);
  il::Array2C<char> b(n0, n1);
  for (int t = 0; t < 20; ++t) {
    I i = t & 1 ? r.below(n0) : n0 - 1, j = t & 2 ? r.below(n1) : n1 - 1;
    I f = r.range(0, i), u = r.range(i + 1, n0);
    auto w = a.view(il::Range{f, u}, j);
    auto x = a.Edit(il::Range{f, u}, j);
    VF_CHECK(&w[i - f] == &a(i, j) && &x[i - f] == &a(i, j) && a.data(j) == &a(0, j) && a.Data(j) == &a(0, j), key, "column %lld of the parent", (long long)j);
    vf::event("column");
  }
}
static void kind(Rng& r, int k) {
  switch (k) {
    case 0: flat<char>(r); break;
    case 1: flat<double>(r); break;
    case 2: plane<char>(r); break;
    case 3: plane<double>(r); break;
    case 4: parent2<il::Array2D<char>, true>(r); break;
    case 5: parent2<il::Array2C<char>, false>(r); break;
    case 6: columns(r); break;
    case 7: flat<short>(r); plane<int>(r); break;
  }
}
static const int kKinds = 8;

#elif VF_WIDE == 4  // A04
// offsets of every element follow from the extents; big copies and resizes must keep the marks
struct Ix { I i[4]; };
template <int d> static std::vector<Ix> corners(Rng& r, const I* n) {
  std::vector<Ix> v;
  for (int t = 0; t < 40; ++t) {
    Ix x;
    for (int e = 0; e < 4; ++e) x.i[e] = e < d ? (t < 16 ? ((t >> e) & 1 ? n[e] - 1 : 0) : r.below(n[e])) : 0;
    v.push_back(x);
  }
  return v;
}
template <typename A> struct Acc;
template <typename T> struct Acc<il::Array2D<T>> { enum { d = 2, cm = 1 }; typedef T E; typedef il::Array2D<T> A;
  static A* make(const I* n) { return new A(n[0], n[1]); }
  static T& at(A& a, const Ix& x) { return a(x.i[0], x.i[1]); } static void resize(A& a, const I* n) { a.Resize(n[0], n[1]); } static void reserve(A& a, const I* n) { a.Reserve(n[0], n[1]); } };
template <typename T> struct Acc<il::Array2C<T>> { enum { d = 2, cm = 0 }; typedef T E; typedef il::Array2C<T> A;
  static A* make(const I* n) { return new A(n[0], n[1]); }
  static T& at(A& a, const Ix& x) { return a(x.i[0], x.i[1]); } static void resize(A& a, const I* n) { a.Resize(n[0], n[1]); } static void reserve(A& a, const I* n) { a.Reserve(n[0], n[1]); } };
template <typename T> struct Acc<il::Array3D<T>> { enum { d = 3, cm = 1 }; typedef T E; typedef il::Array3D<T> A;
  static A* make(const I* n) { return new A(n[0], n[1], n[2]); }
  static T& at(A& a, const Ix& x) { return a(x.i[0], x.i[1], x.i[2]); } static void resize(A& a, const I* n) { a.Resize(n[0], n[1], n[2]); } static void reserve(A& a, const I* n) { a.Reserve(n[0], n[1], n[2]); } };
template <typename T> struct Acc<il::Array3C<T>> { enum { d = 3, cm = 0 }; typedef T E; typedef il::Array3C<T> A;
  static A* make(const I* n) { return new A(n[0], n[1], n[2]); }
  static T& at(A& a, const Ix& x) { return a(x.i[0], x.i[1], x.i[2]); } static void resize(A& a, const I* n) { a.Resize(n[0], n[1], n[2]); } static void reserve(A& a, const I* n) { a.Reserve(n[0], n[1], n[2]); } };
template <typename T> struct Acc<il::Array4D<T>> { enum { d = 4, cm = 1 }; typedef T E; typedef il::Array4D<T> A;
  static A* make(const I* n) { return new A(n[0], n[1], n[2], n[3]); }
  static T& at(A& a, const Ix& x) { return a(x.i[0], x.i[1], x.i[2], x.i[3]); } static void resize(A& a, const I* n) { a.Resize(n[0], n[1], n[2], n[3]); } static void reserve(A& a, const I* n) { a.Reserve(n[0], n[1], n[2], n[3]); } };
template <typename T> struct Acc<il::Array4C<T>> { enum { d = 4, cm = 0 }; typedef T E; typedef il::Array4C<T> A;
  static A* make(const I* n) { return new A(n[0], n[1], n[2], n[3]); }
  static T& at(A& a, const Ix& x) { return a(x.i[0], x.i[1], x.i[2], x.i[3]); } static void resize(A& a, const I* n) { a.Resize(n[0], n[1], n[2], n[3]); } static void reserve(A& a, const I* n) { a.Reserve(n[0], n[1], n[2], n[3]); } };
template <typename A> static void block(Rng& r, I total) {
  typedef Acc<A> C;
  typedef typename C::E T;
  const char* key = "wide-block";
  // extents whose product is just above the total; the contiguous one is not too small
  I n[4] = {1, 1, 1, 1};
  const int d = C::d;
  int big = C::cm ? 0 : d - 1;
  if (d == 2) { n[big] = r.chance(50) ? 46342 : 1 << 20; n[1 - big] = total / n[big] + 1; }
  else {
    n[big] = 4096 + r.below(100);
    I left = total / n[big] + 1;
    for (int e = 0; e < d; ++e) if (e != big) { n[e] = (I)std::ceil(std::pow((double)left, 1.0 / (d - 1))) + 1; }
  }
  vf::op("construct", "%lld %lld %lld %lld of %d", (long long)n[0], (long long)n[1], (long long)n[2], (long long)n[3], (int)sizeof(T));
  std::unique_ptr<A> p(C::make(n));
  auto s = corners<C::d>(r, n);
  auto mark = [&](const Ix& x) { return (T)(1 + (x.i[0] * 31 + x.i[1] * 7 + x.i[2] * 3 + x.i[3]) % 97); };
  auto off = [&](const Ix& x) {
    I o = 0;
    if (C::cm) for (int e = d - 1; e >= 0; --e) o = o * n[e] + x.i[e];
    else for (int e = 0; e < d; ++e) o = o * n[e] + x.i[e];
    return o;
  };
  for (auto& x : s) {
    T& t = C::at(*p, x);
    VF_CHECK(&t == p->data() + off(x), key, "element (%lld %lld %lld %lld) is not where the extents put it", (long long)x.i[0], (long long)x.i[1], (long long)x.i[2], (long long)x.i[3]);
    t = mark(x);
    vf::event("element");
  }
  auto check = [&](A& a, const char* what) {
    for (int e = 0; e < d; ++e) VF_CHECK(a.size(e) == n[e], key, "%s: extent %d", what, e);
    for (auto& x : s) VF_CHECK(C::at(a, x) == mark(x), key, "%s: element (%lld %lld %lld %lld)", what, (long long)x.i[0], (long long)x.i[1], (long long)x.i[2], (long long)x.i[3]);
    vf::event("compared");
  };
  {
    { vf::op("copy"); A b(*p); check(b, "copy"); vf::event("wide-copy"); }
    { vf::op("copy-assign"); A b; b = *p; check(b, "assigned copy"); vf::event("wide-copy"); }
    {
      I m[4];
      for (int e = 0; e < 4; ++e) m[e] = e < d ? n[e] + (e != big && r.chance(50) ? 1 : 0) : 1;
      vf::op("reserve", "%lld %lld %lld %lld", (long long)m[0], (long long)m[1], (long long)m[2], (long long)m[3]);
      C::reserve(*p, m);
      check(*p, "reserved");
      vf::event("wide-reserve");
    }
  }
  vf::op("move");
  A c(std::move(*p));
  check(c, "moved");
  *p = std::move(c);
  check(*p, "moved back");
  I m[4];
  for (int e = 0; e < 4; ++e) m[e] = e < d ? n[e] + (e == big ? 0 : 1) : 1;
  vf::op("resize", "%lld %lld %lld %lld", (long long)m[0], (long long)m[1], (long long)m[2], (long long)m[3]);
  C::resize(*p, m);
  for (int e = 0; e < d; ++e) n[e] = m[e];
  check(*p, "resized");
  vf::event("wide-resize");
}
static void kind(Rng& r, int k) {
  switch (k) {
    case 0: block<il::Array2D<char>>(r, G2); break;
    case 1: block<il::Array2C<char>>(r, G2); break;
    case 2: block<il::Array3D<char>>(r, G2); break;
    case 3: block<il::Array3C<char>>(r, G2); break;
    case 4: block<il::Array4D<char>>(r, G2); break;
    case 5: block<il::Array4C<char>>(r, G2); break;
    case 6: block<il::Array2D<double>>(r, G2 / 8); break;
    case 7: block<il::Array2C<double>>(r, G2 / 8); break;
    case 8: block<il::Array3D<double>>(r, G2 / 8); break;
    case 9: block<il::Array3C<int>>(r, G2 / 4); break;
  }
}
static const int kKinds = 10;

#elif VF_WIDE == 5  // A05
template <typename A, bool lower> static void triangle(Rng& r) {
  const char* key = "wide-triangle";
  typedef typename std::remove_reference<decltype(std::declval<A>()(0, 0))>::type T;
  I n = sizeof(T) == 1 ? 65536 + r.below(50) : 23171 + r.below(20);
  vf::op("construct", "%lld of %d", (long long)n, (int)sizeof(T));
  A a(n);
  VF_CHECK(a.size() == n && a.capacity() >= n, key, "size");
  std::map<const void*, std::pair<I, I>> seen;
  std::map<std::pair<I, I>, typename std::remove_const<T>::type> model;
  T* lo = a.Data();
  T* hi = lo + n * (n + 1) / 2;
  for (int t = 0; t < 400; ++t) {
    I i = t % 3 == 0 ? n - 1 - r.below(3) : r.below(n), j = t % 3 == 1 ? 0 : r.below(n);
    if (t < 9) { i = n - 1 - t / 3; j = n - 1 - t % 3; }
    if (lower ? i < j : i > j) std::swap(i, j);
    T* p = &a(i, j);
    VF_CHECK(p >= lo && p < hi, key, "entry (%lld, %lld) lies outside of the storage", (long long)i, (long long)j);
    auto it = seen.find(p);
    VF_CHECK(it == seen.end() || it->second == std::make_pair(i, j), key, "entry (%lld, %lld) shares its place", (long long)i, (long long)j);
    seen[p] = std::make_pair(i, j);
    *p = (T)(1 + t % 100);
    model[std::make_pair(i, j)] = *p;
    vf::event("entry");
  }
  auto check = [&](A& b, const char* what) {
    for (auto& m : model) VF_CHECK(b(m.first.first, m.first.second) == m.second, key, "%s: entry (%lld, %lld)", what, (long long)m.first.first, (long long)m.first.second);
  };
  check(a, "written");
  { vf::op("copy"); A b(a); check(b, "copy"); }
  { vf::op("assign"); A b; b = a; check(b, "assigned"); }
  vf::op("move");
  A c(std::move(a));
  VF_CHECK(c.size() == n, key, "size moved");
  check(c, "moved");
  vf::event(lower ? "wide-lower" : "wide-upper");
}
template <typename T> static void band(Rng& r) {
  const char* key = "wide-band";
  I n = (sizeof(T) == 1 ? G2 : G2 / 8) / 7 + r.below(100), w = 2;
  vf::op("band", "%lld", (long long)n);
  il::BandArray2C<T> a(n, w);
  T* lo = a.Data();
  T* hi = lo + n * (1 + 3 * w);
  std::map<const void*, std::pair<I, I>> seen;
  std::map<std::pair<I, I>, T> model;
  for (int t = 0; t < 300; ++t) {
    I i = t % 3 == 0 ? n - 1 - r.below(5) : r.below(n), k = r.range(-w, w);
    if (i + k < 0 || i + k >= n) continue;
    T* p = &a(i, k);
    VF_CHECK(p >= lo && p < hi, key, "entry (%lld, %lld) lies outside of the storage", (long long)i, (long long)k);
    auto it = seen.find(p);
    VF_CHECK(it == seen.end() || it->second == std::make_pair(i, k), key, "entry (%lld, %lld) shares its place", (long long)i, (long long)k);
    seen[p] = std::make_pair(i, k);
    *p = (T)(1 + t % 100);
    model[std::make_pair(i, k)] = *p;
    vf::event("entry");
  }
  for (auto& m : model) VF_CHECK(a(m.first.first, m.first.second) == m.second, key, "entry (%lld, %lld)", (long long)m.first.first, (long long)m.first.second);
  I q = (sizeof(T) == 1 ? G2 : G2 / 8) / 3 + 1 + r.below(100);
  vf::op("tridiagonal", "%lld", (long long)q);
  il::TriDiagonal<T> d(q);
  seen.clear();
  model.clear();
  T* l2 = d.LowerData() - 1;
  for (int t = 0; t < 300; ++t) {
    I i = t % 3 == 0 ? q - 1 - r.below(5) : r.below(q), k = r.range(-1, 1);
    if (i + k < 0 || i + k >= q) continue;
    T* p = &d(i, k);
    VF_CHECK(p >= l2 && p < l2 + 3 * q, key, "tridiagonal entry (%lld, %lld) lies outside of the storage", (long long)i, (long long)k);
    auto it = seen.find(p);
    VF_CHECK(it == seen.end() || it->second == std::make_pair(i, k), key, "tridiagonal entry (%lld, %lld) shares its place", (long long)i, (long long)k);
    seen[p] = std::make_pair(i, k);
    *p = (T)(1 + t % 100);
    model[std::make_pair(i, k)] = *p;
    vf::event("entry");
  }
  for (auto& m : model) VF_CHECK(d(m.first.first, m.first.second) == m.second, key, "tridiagonal entry (%lld, %lld)", (long long)m.first.first, (long long)m.first.second);
  vf::event("wide-band");
}
static void kind(Rng& r, int k) {
  switch (k) {
    case 0: triangle<il::LowerArray2D<char>, true>(r); break;
    case 1: triangle<il::UpperArray2D<char>, false>(r); break;
    case 2: triangle<il::LowerArray2D<double>, true>(r); break;
    case 3: triangle<il::UpperArray2D<double>, false>(r); break;
    case 4: band<char>(r); break;
    case 5: band<double>(r); break;
  }
}
static const int kKinds = 6;

#elif VF_WIDE == 6  // A06
template <typename T> static void aligned1(Rng& r) {
  const char* key = "wide-aligned";
  static const I al[] = {16, 32, 64, 128, 4096};
  I a = al[r.below(5)], n = G2 / (I)sizeof(T) + r.below(1000);
  vf::op("aligned", "%lld of %d to %lld", (long long)n, (int)sizeof(T), (long long)a);
  auto s = spots(r, n);
  il::Array<T> v(n, il::align, a);
  auto good = [&](il::Array<T>& x, const char* w) {
    VF_CHECK((uintptr_t)x.data() % (uintptr_t)a == 0 && x.alignment() == a, key, "%s: not aligned", w);
    vf::event("aligned-checked");
  };
  good(v, "constructed");
  put(v, s, T());
  look(key, v, s, T());
  if (r.chance(50)) {
    vf::op("reserve");
    v.Reserve(n + 1 + r.below(100));
    good(v, "reserved");
    look(key, v, s, T());
  }
  {
    vf::op("copy");
    il::Array<T> w(v);
    good(w, "copied");
    look(key, w, s, T());
    w = v;
    good(w, "assigned");
    look(key, w, s, T());
  }
  vf::op("append");
  v.Append((T)5);
  good(v, "appended");
  look(key, v, s, T());
  il::Array<T> z(std::move(v));
  good(z, "moved");
  look(key, z, s, T());
  VF_CHECK(z.back() == (T)5 && z.size() == n + 1, key, "appended element");
}
template <typename A, bool cm> static void aligned2(Rng& r) {
  const char* key = "wide-aligned2";
  static const I al[] = {16, 32, 64, 128, 4096};
  I a = al[r.below(5)], n0 = 46342 + r.below(100), n1 = 46342 + r.below(100);
  vf::op("aligned2", "%lldx%lld to %lld", (long long)n0, (long long)n1, (long long)a);
  A m(n0, n1, il::align, a);
  I in = cm ? n0 : n1;
  I pitch = (in + a - 1) / a * a;
  char* base = &m(0, 0);
  VF_CHECK((uintptr_t)base % (uintptr_t)a == 0, key, "not aligned");
  std::map<std::pair<I, I>, char> model;
  for (int t = 0; t < 60; ++t) {
    I i = t & 1 ? r.below(n0) : n0 - 1, j = t & 2 ? r.below(n1) : n1 - 1;
    char* p = &m(i, j);
    I line = cm ? j : i, in2 = cm ? i : j;
    char* first = cm ? &m(0, j) : &m(i, 0);
    VF_CHECK((uintptr_t)first % (uintptr_t)a == 0, key, "line %lld is not aligned", (long long)line);
    VF_CHECK(p == first + in2 && first - base == line * (cm ? m.stride(1) : m.stride(0)) , key, "element (%lld, %lld) elsewhere", (long long)i, (long long)j);
    VF_CHECK((cm ? m.stride(1) : m.stride(0)) >= in && (cm ? m.stride(1) : m.stride(0)) <= pitch + a, key, "stride");
    model[std::make_pair(i, j)] = *p = (char)(1 + t);
    vf::event("line-checked");
  }
  auto check = [&](A& b) {
    for (auto& x : model) VF_CHECK(b(x.first.first, x.first.second) == x.second, key, "element (%lld, %lld) of a copy", (long long)x.first.first, (long long)x.first.second);
    VF_CHECK((uintptr_t)&b(0, 0) % (uintptr_t)a == 0 && (uintptr_t)(cm ? &b(0, n1 - 1) : &b(n0 - 1, 0)) % (uintptr_t)a == 0, key, "copy not aligned");
  };
  check(m);
  vf::op("copy2");
  A c(m);
  check(c);
}
static void kind(Rng& r, int k) {
  switch (k) {
    case 0: aligned1<char>(r); break;
    case 1: aligned1<double>(r); break;
    case 2: aligned2<il::Array2D<char>, true>(r); break;
    case 3: aligned2<il::Array2C<char>, false>(r); break;
  }
}
static const int kKinds = 4;

#elif VF_WIDE == 7  // S01, S03 and the deque
static void text(Rng& r) {
  const char* key = "wide-string";
  I n = G2 + r.below(1000);
  vf::op("text", "%lld", (long long)n);
  il::String s;
  s.Append(n, 'a');
  VF_CHECK(s.size() == n && s.capacity() >= n && !s.isSmall(), key, "size %lld", (long long)s.size());
  char* p = s.Data();
  VF_CHECK(p[0] == 'a' && p[n - 1] == 'a' && p[n] == 0 && p[G2 - 1] == 'a', key, "content");
  p[n - 1] = 'z';
  p[n - 2] = 'y';
  s.Append("tail");
  VF_CHECK(s.size() == n + 4 && memcmp(s.data() + n - 2, "yztail", 7) == 0, key, "appended text");
  vf::op("search");
  il::int_t at = s.search(il::StringView("yzt"));
  VF_CHECK(at == n - 2, "wide-search", "search gives %lld instead of %lld", (long long)at, (long long)(n - 2));
  VF_CHECK(s.count('a') == n - 2 + 1, "wide-search", "count gives %lld", (long long)s.count('a'));
  VF_CHECK(il::count('a', s.view()) == n - 1 && il::search(il::StringView("yzt"), s.view()) == n - 2 && il::search("zta", s.view()) == n - 1, "wide-search", "search in a view");
  VF_CHECK(s.endsWith(il::StringView("ztail")) && !s.endsWith(il::StringView("xtail")), "wide-search", "endsWith");
  vf::op("copy");
  il::String c(s);
  VF_CHECK(c.size() == n + 4 && memcmp(c.data() + n - 2, "yztail", 7) == 0 && c.data() != s.data(), key, "copy");
  vf::op("equal");
  VF_CHECK(c == s, "wide-search", "a copy differs");
  c.Data()[n + 1] = 'A';
  VF_CHECK(!(c == s), "wide-search", "texts that differ at %lld are equal", (long long)(n + 1));
  il::String t = s.substring(n - 3, n + 2);
  VF_CHECK(t.size() == 5 && memcmp(t.data(), "ayzta", 5) == 0, "wide-search", "substring");
  il::StringView v = s.subview(5, n + 1);
  VF_CHECK(v.size() == n - 4 && v.data() == s.data() + 5 && v[n - 6] == 'z', "wide-search", "subview");
  vf::op("insert");
  s.Insert(n - 1, "__");
  VF_CHECK(s.size() == n + 6 && memcmp(s.data() + n - 2, "y__ztail", 9) == 0, key, "insertion");
  c = std::move(s);
  VF_CHECK(c.size() == n + 6, key, "moved");
  vf::event("wide-text");
}
static void texts2(Rng& r) {
  const char* key = "wide-string";
  I n = G2 / 2 + 5 + r.below(1000);
  vf::op("concatenate", "%lld", (long long)n);
  Region g((size_t)n);
  memset(g.p, 'b', 4096);
  il::StringView v(il::StringType::Ascii, g.p, n);
  g.p[n - 1] = 'q';
  il::String s;
  s.Append(v, v);
  VF_CHECK(s.size() == 2 * n && s.data()[n - 1] == 'q' && s.data()[2 * n - 1] == 'q' && s.data()[n] == 'b' && s.data()[2 * n] == 0, key, "concatenation");
  il::StringView w = s.view();
  w.removePrefix(n);
  VF_CHECK(w.size() == n && w.data() == s.data() + n, "wide-search", "removePrefix");
  il::StringView x = s.view();
  I at = x.nextChar(n, 'q');
  VF_CHECK(at == 2 * n - 1, "wide-search", "nextChar gives %lld", (long long)at);
  x.removeSuffix(2 * n - 1);
  VF_CHECK(x.size() == 2 * n - 1, "wide-search", "removeSuffix");
  s.Reserve(2 * n + 10);
  VF_CHECK(s.size() == 2 * n && s.data()[2 * n - 1] == 'q' && s.capacity() >= 2 * n + 10, key, "reserve");
  vf::event("wide-texts");
}
static void kind(Rng& r, int k) {
  switch (k) {
    case 0: text(r); break;
    case 1: texts2(r); break;
  }
}
static const int kKinds = 2;

#elif VF_WIDE == 8  // Q01
static void kind(Rng& r, int) {
  const char* key = "wide-deque";
  I cap = G2 + 10 + r.below(100);
  vf::op("deque", "%lld", (long long)cap);
  il::Deque<char> d(cap);
  VF_CHECK(d.capacity() == cap && d.size() == 0, key, "capacity");
  I front = 0, back = 0;
  for (int t = 0; t < 5; ++t) { d.PushFront((char)(10 + t)); ++front; }
  for (I t = 0; t < G2 + 3; ++t) { d.PushBack((char)(t % 101)); ++back; }
  VF_CHECK(d.size() == front + back, key, "size %lld", (long long)d.size());
  VF_CHECK(d.front() == 14 && d.back() == (char)((G2 + 2) % 101), key, "ends");
  for (int t = 0; t < 5; ++t) { VF_CHECK(d.front() == (char)(14 - t), key, "front"); d.PopFront(); }
  I gone = G2 - 50;
  for (I t = 0; t < gone; ++t) {
    if (d.front() != (char)(t % 101)) vf::fail(key, "element %lld is wrong", (long long)t);
    d.PopFront();
  }
  for (int t = 0; t < 60; ++t) d.PushBack((char)(1 + t));
  for (int t = 59; t >= 0; --t) { VF_CHECK(d.back() == (char)(1 + t), key, "back after wrapping"); d.PopBack(); }
  VF_CHECK(d.size() == 53 && d.front() == (char)(gone % 101) && d.back() == (char)((G2 + 2) % 101), key, "what is left");
  vf::event("wide-deque");
}
static const int kKinds = 1;

#elif VF_WIDE == 9  // G01
static void kind(Rng& r, int k) {
  const char* key = "wide-algorithm";
  if (k == 0) {
    I n = G2 + 10 + r.below(100);
    vf::op("bytes", "%lld", (long long)n);
    il::Array<signed char> v(n, (signed char)1);
    I a = n - 1 - r.below(5), b = n - 6 - r.below(3);
    v[a] = 100;
    v[b] = -101;
    VF_CHECK(il::max(v) == 100 && il::min(v) == -101, key, "extremes");
    VF_CHECK(il::indexMax(v) == a && il::indexMin(v) == b, key, "positions %lld %lld", (long long)il::indexMax(v), (long long)il::indexMin(v));
    VF_CHECK(il::indexMaxAbs(v) == b, key, "position of the largest magnitude");
    VF_CHECK(il::indexMax(v, il::Range{G2, n}) == a, key, "position in a range");
    vf::event("wide-extremes");
  } else {
    I n = G2 + 10 + r.below(100), m = n - r.range(1, 100);
    vf::op("sorted", "%lld", (long long)n);
    il::Array<signed char> v(n, (signed char)2);
    for (I i = m; i < n; ++i) v[i] = (signed char)(3 + (i - m));
    for (int t = 0; t < 20; ++t) {
      I i = r.range(m, n - 1);
      I at = il::binarySearch(v, v[i]);
      VF_CHECK(at == i, key, "binary search gives %lld instead of %lld", (long long)at, (long long)i);
    }
    VF_CHECK(!(il::binarySearch(v, (signed char)1) >= 0), key, "binary search of what is absent");
    vf::event("wide-binary-search");
  }
}
static const int kKinds = 2;

#elif VF_WIDE == 10  // I01
static void fine(il::Status& s, const char* what) {
  bool good = s.Ok();
  VF_CHECK(good, what, "%s reports error %d", what, (int)s.error());
}
static void kind(Rng& r, int k) {
  const char* key = "wide-numpy";
  std::string f = "wide.npy";
  il::String name{il::StringType::Byte, f.data(), (I)f.size()};
  if (k == 0) {
    I n = G2 / 4 + 1 + r.below(1000);
    vf::op("vector", "%lld", (long long)n);
    auto s = spots(r, n);
    {
      il::Array<int> v(n);
      put(v, s, int());
      il::Status st{};
      il::save(v, name, il::io, st);
      fine(st, "save");
    }
    struct stat fs;
    VF_CHECK(stat(f.c_str(), &fs) == 0 && (I)fs.st_size >= 4 * n + 10, key, "the file is too short");
    il::Status st{};
    auto w = il::load<il::Array<int>>(name, il::io, st);
    fine(st, "load");
    VF_CHECK(w.size() == n, key, "size");
    look(key, w, s, int());
    vf::event("wide-vector");
  } else {
    I n0 = 16385 + r.below(10), n1 = 16385 + r.below(10);
    vf::op("matrix", "%lldx%lld", (long long)n0, (long long)n1);
    I n = n0 * n1;
    auto s = spots(r, n);
    {
      il::Array2D<double> v(n0, n1);
      for (I x : s) v(x % n0, x / n0) = markOf<double>(x);
      il::Status st{};
      il::save(v, name, il::io, st);
      fine(st, "save");
    }
    il::Status st{};
    auto w = il::load<il::Array2D<double>>(name, il::io, st);
    fine(st, "load");
    VF_CHECK(w.size(0) == n0 && w.size(1) == n1, key, "size");
    for (I x : s) VF_CHECK(w(x % n0, x / n0) == markOf<double>(x), key, "element %lld", (long long)x);
    vf::event("wide-matrix");
  }
  unlink(f.c_str());
}
static const int kKinds = 2;

#elif VF_WIDE == 11  // I05
static void kind(Rng& r, int) {
  const char* key = "wide-file";
  const char* f = "wide.bin";
  il::String name{il::StringType::Ascii, f, (I)strlen(f)};
  I n = G2 / 4 + 1 + r.below(1000);  // ints
  Region g((size_t)n * 4);
  int* p = (int*)g.p;
  auto s = spots(r, n);
  for (I k : s) p[k] = markOf<int>(k);
  auto fine = [&](il::Status& st, const char* what) { bool ok = st.Ok(); VF_CHECK(ok, key, "%s is reported", what); };
  vf::op("write", "%lld", (long long)n);
  {
    il::Status st{};
    il::File file(name, il::FileMode::Write, il::io, st);
    fine(st, "open");
    int head = 77, tail = 99;
    file.Write(&head, 1, sizeof head, il::io, st);
    fine(st, "write");
    file.Write(p, n, sizeof(int), il::io, st);
    fine(st, "write");
    file.Write(&tail, 1, sizeof tail, il::io, st);
    fine(st, "write");
    file.Close(il::io, st);
    fine(st, "close");
  }
  struct stat fs;
  VF_CHECK(stat(f, &fs) == 0 && (I)fs.st_size == 4 * n + 8, key, "the file has %lld bytes", (long long)fs.st_size);
  for (int skip = 0; skip < 2; ++skip) {
    vf::op("read", "%d", skip);
    il::Status st{};
    il::File file(name, il::FileMode::Read, il::io, st);
    fine(st, "open");
    int head = 0, tail = 0;
    file.Read(1, sizeof head, il::io, &head, st);
    fine(st, "read");
    VF_CHECK(head == 77, key, "first number is %d", head);
    if (skip) {
      file.Skip((size_t)n * 4, il::io, st);
      fine(st, "skip");
      vf::event("wide-skip");
    } else {
      Region h((size_t)n * 4);
      int* q = (int*)h.p;
      file.Read(n, sizeof(int), il::io, q, st);
      fine(st, "read");
      for (I k : s) VF_CHECK(q[k] == markOf<int>(k), key, "number %lld is %d", (long long)k, q[k]);
      vf::event("wide-read");
    }
    file.Read(1, sizeof tail, il::io, &tail, st);
    fine(st, "read");
    VF_CHECK(tail == 99, key, "last number is %d", tail);
    file.Close(il::io, st);
    fine(st, "close");
  }
  unlink(f);
}
static const int kKinds = 1;
#endif

void vf_case(Rng& r, uint64_t c) {
  vf::sig(c);
  vf::event("attempted");
  if (!room(7)) { vf::event("skipped-no-memory"); return; }
  kind(r, (int)(c % kKinds));
  vf::nontrivial();
}