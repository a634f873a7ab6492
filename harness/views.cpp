// A03: every view/edit (and view of a view) is checked element by element, by address, against
// the parent; writes through edits are checked on the whole parent.
#include "vfil.h"
#include <il/Array.h>
#include <il/SmallArray.h>
#include <il/StaticArray.h>
#include <il/Array2D.h>
#include <il/Array2C.h>
#include <il/Array3D.h>
#include <il/StaticArray2D.h>
#include <il/container/3d/Array3DView.h>
#include "elem.h"
using vf::Rng;

static il::Range rangeIn(Rng& r, il::int_t n) {
  il::int_t b = r.below(n);
  il::int_t e = r.chance(15) ? b : r.range(b, n);
  if (r.chance(15)) { b = 0; e = n; }
  return il::Range{b, e};
}

// ---- 1D --------------------------------------------------------------------
template <typename V, typename T>
void same1(V& v, const T* base, il::int_t n, const char* what) {
  VF_CHECK(v.size() == n, "view1:size", "%s has size %ld, expected %ld", what, (long)v.size(), (long)n);
  if (n > 0) VF_CHECK(v.data() == base, "view1:data", "%s: data() is not the first element of the range", what);
  for (il::int_t i = 0; i < n; ++i) VF_CHECK(&v[i] == base + i, "view1:element", "%s: element %ld is not the parent's", what, (long)i);
  if (n > 0) VF_CHECK(&v.back() == base + n - 1, "view1:back", "%s: back() is not the last element", what);
}

template <typename T, typename C>
void case1(Rng& r, C& a, const char* kind) {
  const C& ca = a;
  const il::int_t n = a.size();
  std::vector<int64_t> m((size_t)n);
  for (il::int_t i = 0; i < n; ++i) { m[i] = vf::Norm<T>::n(i * 3 + 1); a[i] = vf::El<T>::make(i * 3 + 1); }
  vf::op(kind, "n=%ld %s", (long)n, vf::El<T>::name());
  vf::nontrivial();
  int64_t next = 5000;
  for (int k = 0; k < 6; ++k) {
    const T* base = ca.data();
    il::int_t len = n;
    if (r.chance(50)) {
      vf::op("view1");
      il::ArrayView<T> v = ca.view();
      same1(v, base, n, "view()");
      if (n > 0) {
        il::Range g = rangeIn(r, n);
        vf::op("view1-range", "%ld %ld", (long)g.begin, (long)g.end);
        v = ca.view(g);
        base += g.begin; len = g.end - g.begin;
        same1(v, base, len, "view(range)");
      }
      for (int d = 0; d < 3 && len > 0; ++d) {
        il::Range g = rangeIn(r, len);
        vf::op("view1-of-view", "%ld %ld", (long)g.begin, (long)g.end);
        v = v.view(g);
        base += g.begin; len = g.end - g.begin;
        same1(v, base, len, "view(range) of a view");
        il::ArrayView<T> w = v.view();
        same1(w, base, len, "view() of a view");
        vf::event("view-of-view");
      }
    } else {
      vf::op("edit1");
      il::ArrayEdit<T> v = a.Edit();
      same1(v, base, n, "Edit()");
      il::int_t off = 0;
      if (n > 0) {
        il::Range g = rangeIn(r, n);
        vf::op("edit1-range", "%ld %ld", (long)g.begin, (long)g.end);
        v = a.Edit(g);
        off = g.begin; len = g.end - g.begin;
        same1(v, base + off, len, "Edit(range)");
      }
      for (int d = 0; d < 2 && len > 0; ++d) {
        il::Range g = rangeIn(r, len);
        vf::op("edit1-of-edit", "%ld %ld", (long)g.begin, (long)g.end);
        il::ArrayView<T> w = v.view(g);
        same1(w, base + off + g.begin, g.end - g.begin, "view(range) of an edit");
        il::ArrayView<T> w2 = v.view();
        same1(w2, base + off, len, "view() of an edit");
        v = v.Edit(g);
        off += g.begin; len = g.end - g.begin;
        same1(v, base + off, len, "Edit(range) of an edit");
        il::ArrayEdit<T> e2 = v.Edit();
        same1(e2, base + off, len, "Edit() of an edit");
      }
      for (il::int_t i = 0; i < len; ++i) if (r.chance(60)) {
        int64_t x = next++;
        m[off + i] = vf::Norm<T>::n(x);
        T y = vf::El<T>::make(x);
        switch (r.below(3)) {
          case 0: v[i] = y; break;
          case 1: v.Data()[i] = y; break;
          default: if (i + 1 == len) v.Back() = y; else v[i] = y;
        }
        vf::event("write-through");
      }
      for (il::int_t i = 0; i < n; ++i) {
        int64_t g = vf::El<T>::id(ca[i]);
        VF_CHECK(g == m[i], "view1:write", "after writing through an edit of [%ld,%ld) element %ld of the parent is %lld, expected %lld", (long)off, (long)(off + len), (long)i, (long long)g, (long long)m[i]);
      }
    }
  }
  vf::event("view1");
  // an array built from a view owns a copy of exactly those elements
  if (n > 0) {
    il::Range g = rangeIn(r, n);
    vf::op("array-from-view");
    il::Array<T> b{ca.view(g)};
    VF_CHECK(b.size() == g.end - g.begin, "view1:copy-size", "array built from a view has size %ld", (long)b.size());
    for (il::int_t i = 0; i < b.size(); ++i) {
      VF_CHECK(vf::El<T>::id(b[i]) == m[g.begin + i], "view1:copy", "array built from a view differs at %ld", (long)i);
      VF_CHECK(&b[i] < ca.data() || &b[i] >= ca.data() + n, "view1:copy-alias", "array built from a view shares storage");
    }
  }
}

template <typename T>
void oneD(Rng& r) {
  switch (r.below(4)) {
    case 0: {
      il::Array<T> a{r.size(r.chance(2) ? 1500 : 40)};
      if (r.chance(50)) a.Reserve(a.size() + r.below(20));
      if (r.chance(40) && a.size() > 2) a.Resize(a.size() / 2);
      case1<T>(r, a, "array");
      break;
    }
    case 1: {
      il::Array<T> a{r.size(r.chance(2) ? 1500 : 40), il::align, 32};
      if (r.chance(40) && a.size() > 2) a.Resize(a.size() / 2);
      case1<T>(r, a, "array-aligned");
      break;
    }
    case 2: {
      il::SmallArray<T, 4> a{r.size(12)};
      case1<T>(r, a, "small");
      break;
    }
    default: {
      il::StaticArray<T, 7> a;
      case1<T>(r, a, "static");
    }
  }
}

// ---- 2D --------------------------------------------------------------------
// P: parent description: base pointer, strides
template <typename T>
struct P2 {
  const T* base;
  il::int_t n0, n1, s0, s1;
  const T* at(il::int_t i, il::int_t j) const { return base + i * s0 + j * s1; }
  P2 sub(il::Range a, il::Range b) const { return P2{at(a.begin, b.begin), a.end - a.begin, b.end - b.begin, s0, s1}; }
};
template <typename T, typename V>
void same2(V& v, const P2<T>& p, const char* what) {
  VF_CHECK(v.size(0) == p.n0 && v.size(1) == p.n1, "view2:size", "%s is %ld x %ld, expected %ld x %ld", what, (long)v.size(0), (long)v.size(1), (long)p.n0, (long)p.n1);
  for (il::int_t i = 0; i < p.n0; ++i)
    for (il::int_t j = 0; j < p.n1; ++j) {
      VF_CHECK(&v(i, j) == p.at(i, j), "view2:element", "%s: element (%ld,%ld) is not the parent's element", what, (long)i, (long)j);
    }
  if (p.n0 > 0 && p.n1 > 0) VF_CHECK(v.data() == p.base, "view2:data", "%s: data() is not its first element", what);
  VF_CHECK(v.stride(0) == p.s0 && v.stride(1) == p.s1, "view2:stride", "%s has strides %ld,%ld; the parent's are %ld,%ld", what, (long)v.stride(0), (long)v.stride(1), (long)p.s0, (long)p.s1);
}

struct M2 {
  il::int_t n0, n1;
  std::vector<int64_t> m;
  int64_t& at(il::int_t i, il::int_t j) { return m[(size_t)(i * n1 + j)]; }
};
template <typename T, typename C>
void fill2(C& a, M2& m) {
  m.n0 = a.size(0); m.n1 = a.size(1);
  m.m.assign((size_t)(m.n0 * m.n1), 0);
  for (il::int_t i = 0; i < m.n0; ++i)
    for (il::int_t j = 0; j < m.n1; ++j) { int64_t x = i * 31 + j + 1; m.at(i, j) = vf::Norm<T>::n(x); a(i, j) = vf::El<T>::make(x); }
}
template <typename T, typename C>
void check2(const C& a, M2& m, const char* what) {
  for (il::int_t i = 0; i < m.n0; ++i)
    for (il::int_t j = 0; j < m.n1; ++j) {
      int64_t g = vf::El<T>::id(a(i, j));
      VF_CHECK(g == m.at(i, j), "view2:write", "after writing through %s element (%ld,%ld) of the parent is %lld, expected %lld", what, (long)i, (long)j, (long long)g, (long long)m.at(i, j));
    }
}

template <typename T>
void colMajor(Rng& r) {
  il::int_t n0 = r.range(1, 8), n1 = r.range(1, 8);
  il::Array2D<T> a;
  int how = (int)r.below(3);
  if (how == 0) a = il::Array2D<T>{n0, n1};
  else if (how == 1) { a = il::Array2D<T>{n0 + r.below(4), n1 + r.below(4)}; a.Resize(n0, n1); }
  else { il::Array2D<T> b{n0, n1, il::align, 32}; a = std::move(b); }
  vf::op("array2d", "%ldx%ld how=%d cap %ld %s", (long)n0, (long)n1, how, (long)a.capacity(0), vf::El<T>::name());
  vf::nontrivial();
  vf::event("view2-column-major");
  if (a.stride(1) != n0) vf::event("parent-with-padding");
  M2 m;
  fill2<T>(a, m);
  const il::Array2D<T>& ca = a;
  P2<T> p{ca.data(), n0, n1, 1, n1 > 1 ? &ca(0, 1) - &ca(0, 0) : ca.stride(1)};
  int64_t next = 7000;
  for (int k = 0; k < 5; ++k) {
    il::Range g0 = rangeIn(r, n0), g1 = rangeIn(r, n1);
    switch (r.below(5)) {
      case 0: {
        vf::op("view2");
        il::Array2DView<T> v = ca.view();
        const il::Array2DView<T> cv = v;
        same2<T>(cv, p, "view()");
        vf::op("view2-range", "%ld %ld  %ld %ld", (long)g0.begin, (long)g0.end, (long)g1.begin, (long)g1.end);
        const il::Array2DView<T> w = r.chance(50) ? ca.view(g0, g1) : v.view(g0, g1);
        P2<T> q = p.sub(g0, g1);
        same2<T>(w, q, "view(r0,r1)");
        if (q.n0 > 0 && q.n1 > 0) {
          il::Range h0 = rangeIn(r, q.n0), h1 = rangeIn(r, q.n1);
          vf::op("view2-of-view");
          const il::Array2DView<T> x = w.view(h0, h1);
          same2<T>(x, q.sub(h0, h1), "view(r0,r1) of a view");
          vf::event("view-of-view");
        }
        break;
      }
      case 1: {
        il::int_t j = r.below(n1);
        vf::op("view2-column", "%ld %ld col %ld", (long)g0.begin, (long)g0.end, (long)j);
        il::ArrayView<T> v = ca.view(g0, j);
        same1(v, &ca(0, j) + g0.begin, g0.end - g0.begin, "view(r0,i1)");
        vf::event("column-view");
        break;
      }
      case 2: {
        il::int_t j = r.below(n1);
        vf::op("edit2-column", "%ld %ld col %ld", (long)g0.begin, (long)g0.end, (long)j);
        il::ArrayEdit<T> v = a.Edit(g0, j);
        same1(v, &ca(0, j) + g0.begin, g0.end - g0.begin, "Edit(r0,i1)");
        for (il::int_t i = 0; i < v.size(); ++i) { int64_t x = next++; v[i] = vf::El<T>::make(x); m.at(g0.begin + i, j) = vf::Norm<T>::n(x); }
        check2<T>(a, m, "a column edit");
        vf::event("write-through");
        break;
      }
      case 3: {
        vf::op("edit2-range", "%ld %ld  %ld %ld", (long)g0.begin, (long)g0.end, (long)g1.begin, (long)g1.end);
        il::Array2DEdit<T> v = a.Edit();
        same2<T>(v, p, "Edit()");
        il::Array2DEdit<T> w = r.chance(50) ? a.Edit(g0, g1) : v.Edit(g0, g1);
        P2<T> q = p.sub(g0, g1);
        same2<T>(w, q, "Edit(r0,r1)");
        VF_CHECK(w.Data() == w.data(), "view2:data", "Data() and data() of an edit differ");
        if (q.n0 > 0 && q.n1 > 0) {
          il::Range h0 = rangeIn(r, q.n0), h1 = rangeIn(r, q.n1);
          const il::Array2DView<T> wv = w.view(h0, h1);
          same2<T>(wv, q.sub(h0, h1), "view(r0,r1) of an edit");
        }
        for (il::int_t i = 0; i < q.n0; ++i)
          for (il::int_t j = 0; j < q.n1; ++j) { int64_t x = next++; w(i, j) = vf::El<T>::make(x); m.at(g0.begin + i, g1.begin + j) = vf::Norm<T>::n(x); }
        check2<T>(a, m, "a block edit");
        vf::event("write-through");
        break;
      }
      default: {
        vf::op("copy2", "%ld %ld  %ld %ld", (long)g0.begin, (long)g0.end, (long)g1.begin, (long)g1.end);
        il::Array2D<T> b{n0 + 2, n1 + 1};
        M2 mb;
        fill2<T>(b, mb);
        P2<T> q = p.sub(g0, g1);
        if (q.n0 == 0 || q.n1 == 0) break;
        il::copy(ca.view(g0, g1), il::io, b.Edit(il::Range{1, 1 + q.n0}, il::Range{0, q.n1}));
        for (il::int_t i = 0; i < q.n0; ++i)
          for (il::int_t j = 0; j < q.n1; ++j) mb.at(1 + i, j) = m.at(g0.begin + i, g1.begin + j);
        check2<T>(b, mb, "il::copy into a block");
        check2<T>(a, m, "il::copy from a block");
        vf::event("block-copy");
      }
    }
  }
}

template <typename T>
void rowMajor(Rng& r) {
  il::int_t n0 = r.range(1, 8), n1 = r.range(1, 8);
  il::Array2C<T> a;
  int how = (int)r.below(3);
  if (how == 0) a = il::Array2C<T>{n0, n1};
  else if (how == 1) { a = il::Array2C<T>{n0 + r.below(4), n1 + r.below(4)}; a.Resize(n0, n1); }
  else { il::Array2C<T> b{n0, n1, il::align, 32}; a = std::move(b); }
  vf::op("array2c", "%ldx%ld how=%d cap %ld %s", (long)n0, (long)n1, how, (long)a.capacity(1), vf::El<T>::name());
  vf::nontrivial();
  vf::event("view2-row-major");
  M2 m;
  fill2<T>(a, m);
  const il::Array2C<T>& ca = a;
  P2<T> p{ca.data(), n0, n1, n0 > 1 ? &ca(1, 0) - &ca(0, 0) : ca.capacity(1), 1};
  int64_t next = 7000;
  for (int k = 0; k < 5; ++k) {
    il::Range g0 = rangeIn(r, n0), g1 = rangeIn(r, n1);
    switch (r.below(3)) {
      case 0: {
        vf::op("cview2", "%ld %ld  %ld %ld", (long)g0.begin, (long)g0.end, (long)g1.begin, (long)g1.end);
        const il::Array2CView<T> v = ca.view();
        same2<T>(v, p, "row-major view()");
        const il::Array2CView<T> w = ca.view(g0, g1);
        same2<T>(w, p.sub(g0, g1), "row-major view(r0,r1)");
        break;
      }
      case 1: {
        il::int_t i = r.below(n0);
        vf::op("cview2-row", "row %ld  %ld %ld", (long)i, (long)g1.begin, (long)g1.end);
        il::ArrayView<T> v = ca.view(i, g1);
        same1(v, &ca(i, 0) + g1.begin, g1.end - g1.begin, "view(i0,r1)");
        vf::event("row-view");
        break;
      }
      default: {
        vf::op("cedit2", "%ld %ld  %ld %ld", (long)g0.begin, (long)g0.end, (long)g1.begin, (long)g1.end);
        il::Array2CEdit<T> v = a.Edit();
        same2<T>(v, p, "row-major Edit()");
        il::Array2CEdit<T> w = v.Edit(g0, g1);
        P2<T> q = p.sub(g0, g1);
        same2<T>(w, q, "row-major Edit(r0,r1)");
        for (il::int_t i = 0; i < q.n0; ++i)
          for (il::int_t j = 0; j < q.n1; ++j) { int64_t x = next++; w(i, j) = vf::El<T>::make(x); m.at(g0.begin + i, g1.begin + j) = vf::Norm<T>::n(x); }
        check2<T>(a, m, "a row-major block edit");
        vf::event("write-through");
      }
    }
  }
}

template <typename T>
void other(Rng& r) {
  vf::nontrivial();
  if (r.chance(50)) {
    il::StaticArray2D<T, 3, 5> a;
    M2 m;
    fill2<T>(a, m);
    vf::op("static2d");
    const il::StaticArray2D<T, 3, 5>& ca = a;
    P2<T> p{ca.data(), 3, 5, 1, 3};
    const il::Array2DView<T> v = ca.view();
    same2<T>(v, p, "StaticArray2D view()");
    il::Range g0 = rangeIn(r, 3), g1 = rangeIn(r, 5);
    il::Array2DEdit<T> e = a.Edit();
    same2<T>(e, p, "StaticArray2D Edit()");
    il::Array2DEdit<T> w = e.Edit(g0, g1);
    same2<T>(w, p.sub(g0, g1), "StaticArray2D Edit(r0,r1)");
    for (il::int_t i = 0; i < w.size(0); ++i)
      for (il::int_t j = 0; j < w.size(1); ++j) { w(i, j) = vf::El<T>::make(99); m.at(g0.begin + i, g1.begin + j) = vf::Norm<T>::n(99); }
    check2<T>(a, m, "a StaticArray2D block edit");
    vf::event("view2-static");
    return;
  }
  il::int_t n0 = r.range(1, 5), n1 = r.range(1, 5), n2 = r.range(1, 5);
  il::Array3D<T> a{n0, n1, n2};
  if (r.chance(60)) { a = il::Array3D<T>{n0 + r.below(3), n1 + r.below(3), n2 + 1}; a.Resize(n0, n1, n2); }
  int64_t x = 1;
  for (il::int_t k = 0; k < n2; ++k) for (il::int_t j = 0; j < n1; ++j) for (il::int_t i = 0; i < n0; ++i) a(i, j, k) = vf::El<T>::make(x++);
  vf::op("array3d-view", "%ld %ld %ld cap %ld %ld", (long)n0, (long)n1, (long)n2, (long)a.capacity(0), (long)a.capacity(1));
  vf::event("view3");
  const il::Array3D<T>& ca = a;
  il::Array3DView<T> v{ca.data(), n0, n1, n2, ca.capacity(0), ca.capacity(1)};
  VF_CHECK(v.size(0) == n0 && v.size(1) == n1 && v.size(2) == n2, "view3:size", "wrong extents");
  il::Array3DEdit<T> e{a.Data(), n0, n1, n2, ca.capacity(0), ca.capacity(1)};
  for (il::int_t k = 0; k < n2; ++k) for (il::int_t j = 0; j < n1; ++j) for (il::int_t i = 0; i < n0; ++i) {
    VF_CHECK(&v(i, j, k) == &ca(i, j, k), "view3:element", "view element (%ld,%ld,%ld) is not the parent's", (long)i, (long)j, (long)k);
    VF_CHECK(&e(i, j, k) == &ca(i, j, k), "view3:element", "edit element (%ld,%ld,%ld) is not the parent's", (long)i, (long)j, (long)k);
  }
  VF_CHECK(v.data() == ca.data() && e.data() == ca.data(), "view3:data", "data() is not the first element");
}

template <typename T>
void any(Rng& r) {
  switch (r.below(4)) {
    case 0: return oneD<T>(r);
    case 1: return colMajor<T>(r);
    case 2: return rowMajor<T>(r);
    default: return other<T>(r);
  }
}

void vf_case(Rng& r, uint64_t) {
  switch (r.below(4)) {
    case 0: any<int>(r); break;
    case 1: any<double>(r); break;
    case 2: any<char>(r); break;
    default: any<std::complex<double>>(r);
  }
  if (vf::wantSample()) vf::sample(vf::fmt("last op: %s", vf::st().last_op));
}
