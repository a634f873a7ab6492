// A07: in a checked build every out-of-contract access, size, range or shape is rejected
// (il::AbortException) before it touches memory (sanitizers watch) and leaves the object
// unchanged and usable.
#include "vfil.h"
#include <il/Array.h>
#include <il/SmallArray.h>
#include <il/StaticArray.h>
#include <il/Array2D.h>
#include <il/Array2C.h>
#include <il/Array3D.h>
#include <il/Array3C.h>
#include <il/Array4D.h>
#include <il/Array4C.h>
#include <il/StaticArray2D.h>
#include <il/StaticArray2C.h>
#include <il/StaticArray3D.h>
#include <il/StaticArray4D.h>
#include <il/container/2d/LowerArray2D.h>
#include <il/container/2d/UpperArray2D.h>
#include <il/container/2d/BandArray2C.h>
#include <il/container/2d/TriDiagonal.h>
#include <il/container/3d/Array3DView.h>
#include <il/container/2d/SparseMatrixCSR.h>
#include <il/algorithm/algorithmArray.h>
#include <il/String.h>
#include "elem.h"
using vf::Rng;

static volatile int64_t g_sink;
template <typename T> void touch(const T& x) { g_sink = g_sink + (int64_t)(unsigned char)*(const volatile char*)&x; }

// expects fn() to be rejected
template <typename F>
void reject(const char* name, const std::string& args, F fn) {
  vf::op(name, "%s", args.c_str());
  bool thrown = false;
  try { fn(); } catch (const il::AbortException&) { thrown = true; }
  VF_CHECK(thrown, (std::string("accepted@") + name).c_str(), "%s(%s) was executed although it violates the contract", name, args.c_str());
  vf::event("rejections");
  vf::nontrivial();
}
static std::string str(int64_t a) { return vf::fmt("%ld", (long)a); }
static std::string str(int64_t a, int64_t b) { return vf::fmt("%ld,%ld", (long)a, (long)b); }
static std::string str(int64_t a, int64_t b, int64_t c) { return vf::fmt("%ld,%ld,%ld", (long)a, (long)b, (long)c); }
static std::string str(int64_t a, int64_t b, int64_t c, int64_t d) { return vf::fmt("%ld,%ld,%ld,%ld", (long)a, (long)b, (long)c, (long)d); }

static int64_t badIndex(Rng& r, int64_t n) {
  switch (r.below(10)) {
    case 8: return (1 + r.below(1000)) * ((int64_t)1 << 32) + r.below(n);  // valid in its lower half
    case 9: return -(1 + r.below(1000)) * ((int64_t)1 << 32) + r.below(n);
    case 0: case 1: return n;
    case 2: return n + 1 + r.below(5);
    case 3: return -1;
    case 4: return -1 - r.below(5);
    case 5: return INT64_MAX - r.below(3);
    case 6: return INT64_MIN + r.below(3);
    default: return n + (r.below((int64_t)1 << 40));
  }
}
static int64_t neg(Rng& r) { return r.chance(60) ? -1 - r.below(5) : r.chance(30) ? -(1 + r.below(1000)) * ((int64_t)1 << 32) + r.below(4) : r.chance(50) ? INT64_MIN + r.below(4) : -(r.below((int64_t)1 << 40)) - 1; }
static int badDim(Rng& r, int rank) { return r.chance(50) ? rank : r.chance(50) ? -1 : (int)r.range(rank + 1, 100); }
// invalid range for extent n (n>0 for the in-range end)
static il::Range badRange(Rng& r, int64_t n) {
  switch (r.below(4)) {
    case 0: return il::Range{r.below(n + 1), n + 1 + r.below(4)};
    case 1: return il::Range{-1 - r.below(3), r.below(n + 1)};
    case 2: if (n >= 1) { int64_t e = r.below(n); return il::Range{e + 1 <= n - 1 ? e + 1 : n, e + 1 <= n - 1 ? e : n - 1}; }  // inverted
    default: return il::Range{n + 1 + r.below(3), n + 4};
  }
}

template <typename T>
uint64_t bytesOf(const T* p, int64_t n) { uint64_t h = 7; const unsigned char* c = (const unsigned char*)p; for (int64_t i = 0; i < n * (int64_t)sizeof(T); ++i) h = vf::mix(h, c[i]); return h; }

// ---- 1D ----------------------------------------------------------------------
template <typename T, typename C>
struct Growable {
  static void run(Rng& r, C& a, const char*) {
    switch (r.below(5)) {
      case 0: { int64_t n = neg(r); reject("Resize(negative)", str(n), [&] { a.Resize(n); }); break; }
      case 1: { int64_t n = neg(r); T x = T(); reject("Resize(negative,x)", str(n), [&] { a.Resize(n, x); }); break; }
      case 2: { int64_t n = neg(r); reject("Reserve(negative)", str(n), [&] { a.Reserve(n); }); break; }
      case 3: { int64_t n = neg(r); reject("constructor(negative)", str(n), [&] { C b(n); touch(b); }); break; }
      default: { int64_t n = neg(r); T x = T(); reject("constructor(negative,x)", str(n), [&] { C b(n, x); touch(b); }); }
    }
  }
};
template <typename T, il::int_t m>
struct Growable<T, il::SmallArray<T, m>> {
  static void run(Rng& r, il::SmallArray<T, m>& a, const char*) {
    typedef il::SmallArray<T, m> C;
    int64_t n = neg(r);
    switch (r.below(3)) {
      case 0: reject("SmallArray::Resize(negative)", str(n), [&] { a.Resize(n); }); break;
      case 1: reject("SmallArray::Reserve(negative)", str(n), [&] { a.Reserve(n); }); break;
      default: reject("SmallArray(negative)", str(n), [&] { C b(n); touch(b); });
    }
  }
};
template <typename C> struct HasGrow { enum { v = 1 }; };
template <typename T, il::int_t n> struct HasGrow<il::StaticArray<T, n>> { enum { v = 0 }; };
template <typename T, typename C, int G> struct GrowSel { static void run(Rng& r, C& a, const char* k) { Growable<T, C>::run(r, a, k); } };
template <typename T, typename C> struct GrowSel<T, C, 0> { static void run(Rng&, C&, const char*) {} };

template <typename T, typename C>
void probe1(Rng& r, C& a, const char* kind) {
  for (il::int_t i = 0; i < a.size(); ++i) a[i] = vf::El<T>::make(i + 1);
  vf::op(kind, "size %ld", (long)a.size());
  const int64_t n = a.size();
  const uint64_t h = bytesOf(a.data(), n);
  const C& ca = a;
  for (int k = 0; k < 8; ++k) {
    int64_t i = badIndex(r, n);
    switch (r.below(7)) {
      case 0: reject("operator[] const", str(i), [&] { touch(ca[i]); }); break;
      case 1: reject("operator[]", str(i), [&] { a[i] = T(); }); break;
      case 2: if (n > 0) { il::Range g = badRange(r, n); reject("view(range)", str(g.begin, g.end), [&] { il::ArrayView<T> v = ca.view(g); touch(v); }); } break;
      case 3: if (n > 0) { il::Range g = badRange(r, n); reject("Edit(range)", str(g.begin, g.end), [&] { il::ArrayEdit<T> v = a.Edit(g); touch(v); }); } break;
      case 4: { il::ArrayView<T> v = ca.view(); il::ArrayEdit<T> e = a.Edit();
        if (r.chance(40)) reject("ArrayView[]", str(i), [&] { touch(v[i]); });
        else if (r.chance(50)) reject("ArrayEdit[]", str(i), [&] { e[i] = T(); });
        else if (n > 0) { il::Range g = badRange(r, n);
          switch (r.below(3)) {
            case 0: reject("ArrayView::view(range)", str(g.begin, g.end), [&] { il::ArrayView<T> w = v.view(g); touch(w); }); break;
            case 1: reject("ArrayEdit::Edit(range)", str(g.begin, g.end), [&] { il::ArrayEdit<T> w = e.Edit(g); touch(w); }); break;
            default: reject("ArrayEdit::view(range)", str(g.begin, g.end), [&] { il::ArrayView<T> w = e.view(g); touch(w); });
          } }
        else { reject("ArrayView::back(empty)", "", [&] { touch(v.back()); }); reject("ArrayEdit::Back(empty)", "", [&] { touch(e.Back()); }); }
        break; }
      case 5: { int64_t m = neg(r); reject("ArrayView(negative)", str(m), [&] { il::ArrayView<T> v{ca.data(), m}; touch(v); }); break; }
      default: GrowSel<T, C, HasGrow<C>::v>::run(r, a, kind);
    }
    VF_CHECK(a.size() == n && bytesOf(a.data(), n) == h, "changed-by-rejected-call", "%s: a rejected %s changed the object", kind, vf::st().last_op);
    if (n > 0) touch(ca[r.below(n)]);
  }
}
template <typename T>
void oneD(Rng& r) {
  switch (r.below(4)) {
    case 0: {
      il::Array<T> a{r.size(20)};
      if (a.size() == 0) { reject("Array::back(empty)", "", [&] { touch(((const il::Array<T>&)a).back()); }); reject("Array::Back(empty)", "", [&] { touch(a.Back()); }); }
      probe1<T>(r, a, "Array"); vf::event("contract-array");
      break;
    }
    case 1: {
      int64_t al = (int64_t)alignof(T) * 4;
      il::Array<T> a{r.range(1, 20), il::align, al};
      probe1<T>(r, a, "Array aligned");
      int64_t n = r.range(1, 5);
      if (r.chance(20)) reject("Array(align<=0)", str(0), [&] { il::Array<T> b{n, il::align, (il::int_t)0}; touch(b); });
      else if (r.chance(25)) { int64_t m = neg(r); reject("Array(align<0)", str(m), [&] { il::Array<T> b{n, il::align, m}; touch(b); }); }
      else if (r.chance(33)) reject("Array(align_r>=align_mod)", str(al), [&] { il::Array<T> b{n, il::align, al, 2 * al, 2 * al}; touch(b); });
      else if (r.chance(50)) reject("Array(align_r<0)", str(al), [&] { il::Array<T> b{n, il::align, al, -al, 2 * al}; touch(b); });
      else { int64_t m = neg(r); reject("Array(negative,align)", str(m), [&] { il::Array<T> b{m, il::align, al}; touch(b); }); }
      if (sizeof(T) > 1) reject("Array(align not a multiple of alignof)", "", [&] { il::Array<T> b{n, il::align, (il::int_t)alignof(T) + 1}; touch(b); });
      reject("Array(align_r not a multiple of alignment)", "", [&] { il::Array<T> b{n, il::align, al, al / 2, 2 * al}; touch(b); });
      reject("Array(align_mod not a multiple of alignment)", "", [&] { il::Array<T> b{n, il::align, al, 0, al + al / 2}; touch(b); });
      reject("Array(alignment too large)", "", [&] { il::Array<T> b{n, il::align, (il::int_t)65536}; touch(b); });
      vf::event("contract-aligned");
      break;
    }
    case 2: {
      il::SmallArray<T, 4> a{r.size(9)};
      if (a.size() == 0) { reject("SmallArray::back(empty)", "", [&] { touch(((const il::SmallArray<T, 4>&)a).back()); }); }
      probe1<T>(r, a, "SmallArray"); vf::event("contract-small");
      break;
    }
    default: {
      il::StaticArray<T, 5> a;
      probe1<T>(r, a, "StaticArray"); vf::event("contract-static");
      reject("StaticArray(list of another length)", "", [&] { il::StaticArray<T, 5> b{il::value, {T(), T()}}; touch(b); });
    }
  }
}

// ---- N-d ---------------------------------------------------------------------
template <typename C> struct At;
#define AT2(CLS) template <typename T> struct At<CLS<T>> { typedef T E; enum { rank = 2 }; \
  static T& at(CLS<T>& a, const int64_t* i) { return a(i[0], i[1]); } static const T& at(const CLS<T>& a, const int64_t* i) { return a(i[0], i[1]); } \
  static CLS<T>* mk(const int64_t* n) { return new CLS<T>(n[0], n[1]); } static CLS<T>* mkv(const int64_t* n, const T& x) { return new CLS<T>(n[0], n[1], x); } \
  static void rs(CLS<T>& a, const int64_t* n) { a.Resize(n[0], n[1]); } static void rv(CLS<T>& a, const int64_t* n) { a.Reserve(n[0], n[1]); } };
#define AT3(CLS) template <typename T> struct At<CLS<T>> { typedef T E; enum { rank = 3 }; \
  static T& at(CLS<T>& a, const int64_t* i) { return a(i[0], i[1], i[2]); } static const T& at(const CLS<T>& a, const int64_t* i) { return a(i[0], i[1], i[2]); } \
  static CLS<T>* mk(const int64_t* n) { return new CLS<T>(n[0], n[1], n[2]); } static CLS<T>* mkv(const int64_t* n, const T& x) { return new CLS<T>(n[0], n[1], n[2], x); } \
  static void rs(CLS<T>& a, const int64_t* n) { a.Resize(n[0], n[1], n[2]); } static void rv(CLS<T>& a, const int64_t* n) { a.Reserve(n[0], n[1], n[2]); } };
#define AT4(CLS) template <typename T> struct At<CLS<T>> { typedef T E; enum { rank = 4 }; \
  static T& at(CLS<T>& a, const int64_t* i) { return a(i[0], i[1], i[2], i[3]); } static const T& at(const CLS<T>& a, const int64_t* i) { return a(i[0], i[1], i[2], i[3]); } \
  static CLS<T>* mk(const int64_t* n) { return new CLS<T>(n[0], n[1], n[2], n[3]); } static CLS<T>* mkv(const int64_t* n, const T& x) { return new CLS<T>(n[0], n[1], n[2], n[3], x); } \
  static void rs(CLS<T>& a, const int64_t* n) { a.Resize(n[0], n[1], n[2], n[3]); } static void rv(CLS<T>& a, const int64_t* n) { a.Reserve(n[0], n[1], n[2], n[3]); } };
AT2(il::Array2D) AT2(il::Array2C) AT3(il::Array3D) AT3(il::Array3C) AT4(il::Array4D) AT4(il::Array4C)

template <typename C> struct Extra { static void run(Rng&, C&) {} };
template <typename T> struct Extra<il::Array2D<T>> {
  static void run(Rng& r, il::Array2D<T>& a) {
    typedef il::Array2D<T> C;
    const C& ca = a;
    int64_t n0 = a.size(0), n1 = a.size(1);
    int d = badDim(r, 2);
    reject("Array2D::stride(bad dimension)", str(d), [&] { g_sink = ca.stride(d); });
    int64_t j = badIndex(r, n1);
    reject("Array2D::data(column)", str(j), [&] { g_sink = (int64_t)(size_t)ca.data(j); });
    reject("Array2D::Data(column)", str(j), [&] { g_sink = (int64_t)(size_t)a.Data(j); });
    if (n0 == 0 || n1 == 0) return;
    bool first = r.chance(50);
    il::Range g0 = first ? badRange(r, n0) : il::Range{0, n0}, g1 = first ? il::Range{0, n1} : badRange(r, n1);
    std::string s = str(g0.begin, g0.end, g1.begin, g1.end);
    il::Array2DView<T> v = ca.view();
    il::Array2DEdit<T> e = a.Edit();
    reject("Array2D::view(r0,r1)", s, [&] { il::Array2DView<T> w = ca.view(g0, g1); touch(w); });
    reject("Array2D::Edit(r0,r1)", s, [&] { il::Array2DEdit<T> w = a.Edit(g0, g1); touch(w); });
    reject("Array2DView::view(r0,r1)", s, [&] { il::Array2DView<T> w = v.view(g0, g1); touch(w); });
    reject("Array2DEdit::Edit(r0,r1)", s, [&] { il::Array2DEdit<T> w = e.Edit(g0, g1); touch(w); });
    il::Range h = badRange(r, n0);
    int64_t jj = r.below(n1);
    reject("Array2D::view(range,column)", str(h.begin, h.end, jj), [&] { il::ArrayView<T> w = ca.view(h, jj); touch(w); });
    reject("Array2D::Edit(range,column)", str(h.begin, h.end, jj), [&] { il::ArrayEdit<T> w = a.Edit(h, jj); touch(w); });
    reject("Array2D::view(range,bad column)", str(0, n0, j), [&] { il::ArrayView<T> w = ca.view(il::Range{0, n0}, j); touch(w); });
    reject("Array2D::Edit(range,bad column)", str(0, n0, j), [&] { il::ArrayEdit<T> w = a.Edit(il::Range{0, n0}, j); touch(w); });
    int64_t i = badIndex(r, n0);
    const il::Array2DView<T> cv = v;
    reject("Array2DView(bad row)", str(i, 0), [&] { touch(cv(i, 0)); });
    reject("Array2DView(bad column)", str(0, j), [&] { touch(cv(0, j)); });
    reject("Array2DEdit(bad row)", str(i, 0), [&] { e(i, 0) = T(); });
    reject("Array2DEdit(bad column)", str(0, j), [&] { e(0, j) = T(); });
    reject("Array2DView::size(bad dimension)", str(d), [&] { g_sink = cv.size(d); });
    reject("Array2DView::stride(bad dimension)", str(d), [&] { g_sink = cv.stride(d); });
    int64_t m = neg(r);
    reject("Array2DView(negative rows)", str(m), [&] { il::Array2DView<T> w{ca.data(), m, 1, 1}; touch(w); });
    reject("Array2DView(negative columns)", str(m), [&] { il::Array2DView<T> w{ca.data(), 1, m, 1}; touch(w); });
    il::Array2D<T> b{n0 + 1, n1};
    reject("copy(view, edit of another shape)", "", [&] { il::copy(v, il::io, b.Edit()); });
    il::Array2D<T> b2{n0, n1 + 1};
    reject("copy(view, edit of another width)", "", [&] { il::copy(v, il::io, b2.Edit()); });
    vf::event("contract-view2d");
  }
};
template <typename T> struct Extra<il::Array2C<T>> {
  static void run(Rng& r, il::Array2C<T>& a) {
    typedef il::Array2C<T> C;
    const C& ca = a;
    int64_t n0 = a.size(0), n1 = a.size(1);
    int64_t i = badIndex(r, n0), j = badIndex(r, n1);
    int d = badDim(r, 2);
    reject("Array2C::data(row)", str(i), [&] { g_sink = (int64_t)(size_t)ca.data(i); });
    reject("Array2C::Data(row)", str(i), [&] { g_sink = (int64_t)(size_t)a.Data(i); });
    if (n0 == 0 || n1 == 0) return;
    bool first = r.chance(50);
    il::Range g0 = first ? badRange(r, n0) : il::Range{0, n0}, g1 = first ? il::Range{0, n1} : badRange(r, n1);
    std::string s = str(g0.begin, g0.end, g1.begin, g1.end);
    il::Array2CView<T> v = ca.view();
    il::Array2CEdit<T> e = a.Edit();
    const il::Array2CView<T> cv = v;
    reject("Array2C::view(r0,r1)", s, [&] { il::Array2CView<T> w = ca.view(g0, g1); touch(w); });
    reject("Array2CEdit::Edit(r0,r1)", s, [&] { il::Array2CEdit<T> w = e.Edit(g0, g1); touch(w); });
    il::Range h = badRange(r, n1);
    reject("Array2C::view(row,range)", str(0, h.begin, h.end), [&] { il::ArrayView<T> w = ca.view(r.below(n0), h); touch(w); });
    reject("Array2C::view(bad row,range)", str(i), [&] { il::ArrayView<T> w = ca.view(i, il::Range{0, n1}); touch(w); });
    reject("Array2CView(bad row)", str(i, 0), [&] { touch(cv(i, 0)); });
    reject("Array2CView(bad column)", str(0, j), [&] { touch(cv(0, j)); });
    reject("Array2CEdit(bad row)", str(i, 0), [&] { e(i, 0) = T(); });
    reject("Array2CEdit(bad column)", str(0, j), [&] { e(0, j) = T(); });
    reject("Array2CView::size(bad dimension)", str(d), [&] { g_sink = cv.size(d); });
    reject("Array2CView::stride(bad dimension)", str(d), [&] { g_sink = cv.stride(d); });
    vf::event("contract-view2c");
  }
};
template <typename T> struct Extra<il::Array3D<T>> {
  static void run(Rng& r, il::Array3D<T>& a) {
    const il::Array3D<T>& ca = a;
    int64_t n[3] = {a.size(0), a.size(1), a.size(2)};
    if (n[0] * n[1] * n[2] == 0) return;
    const il::Array3DView<T> v{ca.data(), n[0], n[1], n[2], ca.capacity(0), ca.capacity(1)};
    il::Array3DEdit<T> e{a.Data(), n[0], n[1], n[2], ca.capacity(0), ca.capacity(1)};
    int64_t i[3] = {0, 0, 0};
    int d = (int)r.below(3);
    i[d] = badIndex(r, n[d]);
    reject("Array3DView(bad index)", str(i[0], i[1], i[2]), [&] { touch(v(i[0], i[1], i[2])); });
    reject("Array3DEdit(bad index)", str(i[0], i[1], i[2]), [&] { e(i[0], i[1], i[2]) = T(); });
    int bd = badDim(r, 3);
    reject("Array3DView::size(bad dimension)", str(bd), [&] { g_sink = v.size(bd); });
    vf::event("contract-view3d");
  }
};

template <typename C>
void nD(Rng& r, const char* kind) {
  typedef At<C> A;
  typedef typename A::E T;
  enum { R = A::rank };
  int64_t n[4] = {r.range(0, 4), r.range(0, 4), r.range(0, 4), r.range(0, 4)};
  if (r.chance(70)) for (int d = 0; d < 4; ++d) n[d] = n[d] ? n[d] : 2;
  C* a = A::mkv(n, vf::El<T>::make(3));
  const C& ca = *a;
  vf::op(kind, "%ld %ld %ld %ld", (long)n[0], (long)n[1], (long)n[2], (long)n[3]);
  bool empty = false;
  for (int d = 0; d < R; ++d) empty = empty || n[d] == 0;
  for (int k = 0; k < 6; ++k) {
    int d = (int)r.below(R);
    int64_t i[4];
    for (int e = 0; e < R; ++e) i[e] = n[e] ? r.below(n[e]) : 0;
    i[d] = badIndex(r, n[d]);
    std::string s = str(i[0], i[1], R > 2 ? i[2] : 0, R > 3 ? i[3] : 0);
    switch (r.below(6)) {
      case 0: reject("N-d operator() const", s, [&] { touch(A::at(ca, i)); }); break;
      case 1: reject("N-d operator()", s, [&] { A::at(*a, i) = T(); }); break;
      case 2: { int b = badDim(r, R); reject("N-d size(bad dimension)", str(b), [&] { g_sink = ca.size(b); }); reject("N-d capacity(bad dimension)", str(b), [&] { g_sink = ca.capacity(b); }); break; }
      case 3: { int64_t m[4]; for (int e = 0; e < 4; ++e) m[e] = r.range(0, 3); m[d] = neg(r);
        reject("N-d Resize(negative)", str(m[0], m[1], m[2], m[3]), [&] { A::rs(*a, m); });
        reject("N-d Reserve(negative)", str(m[0], m[1], m[2], m[3]), [&] { A::rv(*a, m); }); break; }
      case 4: { int64_t m[4]; for (int e = 0; e < 4; ++e) m[e] = r.range(0, 3); m[d] = neg(r);
        reject("N-d constructor(negative)", str(m[0], m[1], m[2], m[3]), [&] { delete A::mk(m); });
        reject("N-d constructor(negative,x)", str(m[0], m[1], m[2], m[3]), [&] { delete A::mkv(m, T()); }); break; }
      default: Extra<C>::run(r, *a);
    }
    for (int e = 0; e < R; ++e) VF_CHECK(ca.size(e) == n[e], "changed-by-rejected-call", "%s: a rejected %s changed the shape", kind, vf::st().last_op);
    if (!empty) {
      int64_t j[4];
      for (int e = 0; e < R; ++e) j[e] = r.below(n[e]);
      VF_CHECK(vf::El<T>::id(A::at(ca, j)) == vf::Norm<T>::n(3), "changed-by-rejected-call", "%s: a rejected %s changed an element", kind, vf::st().last_op);
    }
  }
  vf::event(R == 2 ? "contract-2d" : R == 3 ? "contract-3d" : "contract-4d");
  delete a;
}

template <typename T>
void misc(Rng& r) {
  switch (r.below(6)) {
    case 0: {
      il::StaticArray2D<T, 2, 3> a; il::StaticArray2C<T, 2, 3> c; il::StaticArray3D<T, 2, 3, 4> b; il::StaticArray4D<T, 2, 3, 4, 2> e;
      for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) { a(i, j) = T(); c(i, j) = T(); for (int k = 0; k < 4; ++k) { b(i, j, k) = T(); for (int l = 0; l < 2; ++l) e(i, j, k, l) = T(); } }
      int64_t n[4] = {2, 3, 4, 2}, i[4] = {0, 0, 0, 0};
      int d = (int)r.below(2);
      i[d] = badIndex(r, n[d]);
      const il::StaticArray2D<T, 2, 3>& ca = a; const il::StaticArray2C<T, 2, 3>& cc = c;
      reject("StaticArray2D const", str(i[0], i[1]), [&] { touch(ca(i[0], i[1])); });
      reject("StaticArray2D", str(i[0], i[1]), [&] { a(i[0], i[1]) = T(); });
      reject("StaticArray2C const", str(i[0], i[1]), [&] { touch(cc(i[0], i[1])); });
      reject("StaticArray2C", str(i[0], i[1]), [&] { c(i[0], i[1]) = T(); });
      i[d] = 0; d = (int)r.below(3); i[d] = badIndex(r, n[d]);
      const il::StaticArray3D<T, 2, 3, 4>& cb = b;
      reject("StaticArray3D const", str(i[0], i[1], i[2]), [&] { touch(cb(i[0], i[1], i[2])); });
      reject("StaticArray3D", str(i[0], i[1], i[2]), [&] { b(i[0], i[1], i[2]) = T(); });
      i[d] = 0; d = (int)r.below(4); i[d] = badIndex(r, n[d]);
      const il::StaticArray4D<T, 2, 3, 4, 2>& ce = e;
      reject("StaticArray4D const", str(i[0], i[1], i[2], i[3]), [&] { touch(ce(i[0], i[1], i[2], i[3])); });
      reject("StaticArray4D", str(i[0], i[1], i[2], i[3]), [&] { e(i[0], i[1], i[2], i[3]) = T(); });
      int bd = badDim(r, 2);
      reject("StaticArray2D::size(bad dimension)", str(bd), [&] { g_sink = ca.size(bd); });
      reject("StaticArray2C::size(bad dimension)", str(bd), [&] { g_sink = cc.size(bd); });
      bd = badDim(r, 3);
      reject("StaticArray3D::size(bad dimension)", str(bd), [&] { g_sink = cb.size(bd); });
      vf::event("contract-static-nd");
      break;
    }
    case 1: {
      int64_t n = r.range(0, 5);
      il::LowerArray2D<T> l{n}; il::UpperArray2D<T> u{n};
      const il::LowerArray2D<T>& cl = l; const il::UpperArray2D<T>& cu = u;
      int64_t b = badIndex(r, n);
      reject("LowerArray2D(bad row) const", str(b, 0), [&] { touch(cl(b, 0)); });
      reject("LowerArray2D(bad row)", str(b, 0), [&] { l(b, 0) = T(); });
      reject("UpperArray2D(bad column) const", str(0, b), [&] { touch(cu(0, b)); });
      reject("UpperArray2D(bad column)", str(0, b), [&] { u(0, b) = T(); });
      if (n >= 2) {
        int64_t i = r.below(n - 1), j = r.range(i + 1, n - 1);
        reject("LowerArray2D(above the diagonal) const", str(i, j), [&] { touch(cl(i, j)); });
        reject("LowerArray2D(above the diagonal)", str(i, j), [&] { l(i, j) = T(); });
        reject("UpperArray2D(below the diagonal) const", str(j, i), [&] { touch(cu(j, i)); });
        reject("UpperArray2D(below the diagonal)", str(j, i), [&] { u(j, i) = T(); });
      }
      int64_t m = neg(r);
      reject("LowerArray2D(negative)", str(m), [&] { il::LowerArray2D<T> x{m}; touch(x); });
      reject("UpperArray2D(negative)", str(m), [&] { il::UpperArray2D<T> x{m}; touch(x); });
      vf::event("contract-triangular");
      break;
    }
    case 2: {
      int64_t n0 = r.range(1, 6), n1 = r.range(1, 6), wl = r.range(0, 3), wr = r.range(0, 3);
      il::BandArray2C<T> a{n0, n1, wl, wr};
      const il::BandArray2C<T>& ca = a;
      int64_t i = badIndex(r, n0);
      reject("BandArray2C(bad row) const", str(i, 0), [&] { touch(ca(i, 0)); });
      reject("BandArray2C(bad row)", str(i, 0), [&] { a(i, 0) = T(); });
      int64_t row = r.below(n0), k = r.chance(50) ? wr + 1 + r.below(3) : -wl - 1 - r.below(3);
      reject("BandArray2C(outside the band) const", str(row, k), [&] { touch(ca(row, k)); });
      reject("BandArray2C(outside the band)", str(row, k), [&] { a(row, k) = T(); });
      k = r.chance(50) ? n1 - row : -row - 1;
      reject("BandArray2C(outside the matrix)", str(row, k), [&] { a(row, k) = T(); });
      il::TriDiagonal<T> t{n0};
      const il::TriDiagonal<T>& ct = t;
      reject("TriDiagonal(bad row) const", str(i, 0), [&] { touch(ct(i, 0)); });
      reject("TriDiagonal(bad row)", str(i, 0), [&] { t(i, 0) = T(); });
      k = r.chance(50) ? 2 + r.below(3) : -2 - r.below(3);
      reject("TriDiagonal(bad diagonal) const", str(row, k), [&] { touch(ct(row, k)); });
      reject("TriDiagonal(bad diagonal)", str(row, k), [&] { t(row, k) = T(); });
      vf::event("contract-band");
      break;
    }
    case 3: {
      il::Array<T> v, w{3};
      for (int i = 0; i < 3; ++i) w[i] = T();
      vf::event("contract-algorithms");
      break;
    }
    case 4: {
      int n = (int)r.range(0, 40);
      il::String s;
      for (int i = 0; i < n; ++i) s.Append('a');
      int64_t m = neg(r);
      reject("String::Reserve(negative)", str(m), [&] { s.Reserve(m); });
      int64_t i0 = r.below(n + 1), i1 = n + 1 + r.below(4);
      reject("String::substring(past the end)", str(i0, i1), [&] { il::String t = s.substring(i0, i1); touch(t); });
      reject("String::subview(past the end)", str(i0, i1), [&] { il::StringView t = s.subview(i0, i1); touch(t); });
      if (n > 0) { int64_t a = r.range(1, n), b = r.below(a); reject("String::substring(inverted)", str(a, b), [&] { il::String t = s.substring(a, b); touch(t); }); reject("String::subview(inverted)", str(a, b), [&] { il::StringView t = s.subview(a, b); touch(t); }); }
      reject("String::substring(negative)", str(-1, 0), [&] { il::String t = s.substring(-1, 0); touch(t); });
      reject("String::Append(non ASCII char)", "", [&] { s.Append((char)-61); });
      reject("String::Append(-1,char)", "", [&] { s.Append((il::int_t)-1, 'a'); });
      reject("String::Append(-1,rune)", "", [&] { s.Append((il::int_t)-1, (int)0x41); });
      reject("String::Append(invalid rune)", "", [&] { s.Append((int)0x110000); });
      reject("String::Append(surrogate)", "", [&] { s.Append((int)(0xD800 + (int)r.below(0x800))); });
      VF_CHECK(s.size() == n, "changed-by-rejected-call", "a rejected %s changed a string", vf::st().last_op);
      il::StringView v = s.subview(0, n);
      int64_t b = badIndex(r, n);
      reject("StringView[]", str(b), [&] { touch(v[b]); });
      reject("StringView::subview(past the end)", str(i0, i1), [&] { il::StringView t = v.subview(i0, i1); touch(t); });
      reject("StringView::removePrefix(too long)", str(i1), [&] { v.removePrefix(i1); });
      reject("StringView::removeSuffix(too long)", str(i1), [&] { v.removeSuffix(i1); });
      vf::event("contract-string");
      break;
    }
    default: {
      il::Array<il::StaticArray<int, 2>> pos;
      int64_t n = r.range(1, 4);
      il::Array<int> column{n}, row{n + 1};
      for (int64_t i = 0; i < n; ++i) { column[i] = (int)i; row[i] = (int)i; }
      row[n] = (int)n;
      il::SparseMatrixCSR<int, double> A{n, n, column, row};
      for (int64_t i = 0; i < n; ++i) A(i, 0) = 1.0;
      const il::SparseMatrixCSR<int, double>& cA = A;
      int64_t b = badIndex(r, n);
      reject("SparseMatrixCSR(bad row) const", str(b, 0), [&] { touch(cA(b, 0)); });
      reject("SparseMatrixCSR(bad row)", str(b, 0), [&] { A(b, 0) = 1.0; });
      int64_t k = r.chance(70) ? 1 + r.below(3) : -1 - r.below(3), row0 = r.below(n);
      reject("SparseMatrixCSR(bad entry) const", str(row0, k), [&] { touch(cA(row0, k)); });
      reject("SparseMatrixCSR(bad entry)", str(row0, k), [&] { A(row0, k) = 1.0; });
      int bd = badDim(r, 2);
      reject("SparseMatrixCSR::size(bad dimension)", str(bd), [&] { g_sink = cA.size(bd); });
      il::Array<int> short_row{n};
      for (int64_t i = 0; i < n; ++i) short_row[i] = 0;
      reject("SparseMatrixCSR(row index of another length)", "", [&] { il::SparseMatrixCSR<int, double> B{n, n, column, short_row}; touch(B); });
      vf::event("contract-sparse");
    }
  }
}

static void algorithms(Rng& r) {
  il::Array<double> e, v{5};
  for (int i = 0; i < 5; ++i) v[i] = i;
  reject("min(empty)", "", [&] { g_sink = (int64_t)il::min(e); });
  reject("max(empty)", "", [&] { g_sink = (int64_t)il::max(e); });
  reject("mean(empty)", "", [&] { g_sink = (int64_t)il::mean(e); });
  int64_t b = r.below(5);
  reject("min(empty range)", str(b, b), [&] { g_sink = (int64_t)il::min(v, il::Range{b, b}); });
  reject("max(empty range)", str(b, b), [&] { g_sink = (int64_t)il::max(v, il::Range{b, b}); });
  reject("minMax(empty)", "", [&] { g_sink = (int64_t)il::minMax(e).min; });
  vf::event("contract-reductions");
}

template <typename T>
void any(Rng& r) {
  switch (r.below(10)) {
    case 0: case 1: return oneD<T>(r);
    case 2: return nD<il::Array2D<T>>(r, "Array2D");
    case 3: return nD<il::Array2C<T>>(r, "Array2C");
    case 4: return nD<il::Array3D<T>>(r, "Array3D");
    case 5: return nD<il::Array3C<T>>(r, "Array3C");
    case 6: return nD<il::Array4D<T>>(r, "Array4D");
    case 7: return nD<il::Array4C<T>>(r, "Array4C");
    default: return misc<T>(r);
  }
}
void vf_case(Rng& r, uint64_t) {
  switch (r.below(8)) {
    case 0: case 1: any<double>(r); break;
    case 2: case 3: any<int>(r); break;
    case 4: case 5: any<char>(r); break;
    case 6: any<std::complex<double>>(r); break;
    default: algorithms(r);
  }
  if (vf::wantSample()) vf::sample(vf::fmt("last op %s", vf::st().last_op));
}
