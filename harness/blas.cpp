// L01: dense products and dots against their algebraic definition, on views inside guarded
// buffers (not-a-number around and between the lines) and on the library's own arrays.
#include "vfil.h"
#include <il/Array.h>
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/StaticArray.h>
#include <il/StaticArray2D.h>
#include <il/StaticArray3D.h>
#include <il/StaticArray4D.h>
#include <il/linearAlgebra/dense/blas/blas.h>
#include <il/linearAlgebra/dense/blas/blas_static.h>
#include <il/linearAlgebra/dense/blas/cross.h>
#include <il/linearAlgebra/dense/blas/dot.h>
#include "dense.h"
static I extent(Rng& r, int big) {
  if (big == 2) return r.range(60, 170);
  switch (r.below(8)) { case 0: return 0; case 1: return 1; case 2: return r.range(1, 3); case 3: return r.range(7, 9); default: return r.range(0, big ? 40 : 12); }
}
static const char* opn(il::Dot d) { return d == il::Dot::None ? "None" : d == il::Dot::Star ? "Star" : "Transpose"; }
static il::Dot anyDot(Rng& r) { return r.chance(34) ? il::Dot::None : r.chance(50) ? il::Dot::Transpose : il::Dot::Star; }
static X app(il::Dot d, X v) { return d == il::Dot::Star ? std::conj(v) : v; }

template <typename T> void vectors(Rng& r) {
  bool exact = r.chance(50);
  I n = extent(r, r.chance(4) ? 2 : 1);
  Op<T> x, y;
  x.make(r, n, 1, false, exact, false); y.make(r, n, 1, false, exact, false);
  T alpha = coef<T>(r, exact), beta = coef<T>(r, exact);
  il::ArrayView<T> xv{x.p(), n};
  il::ArrayEdit<T> ye{y.q(), n};
  bool withBeta = r.chance(50);
  X a = Num<T>::up(alpha), b = withBeta ? Num<T>::up(beta) : X(1, 0);
  vf::op(withBeta ? "axpby" : "axpy", "%s n=%ld alpha %s beta %s", Num<T>::n(), (long)n, num<T>(a).c_str(), num<T>(b).c_str());
  if (withBeta) il::blas(alpha, xv, beta, il::io, ye); else il::blas(alpha, xv, il::io, ye);
  noXerbla("vector update");
  VF_CHECK(x.untouched(), "input-written", "a vector update changed its input");
  VF_CHECK(y.around(), "outside", "a vector update wrote outside the destination");
  for (I i = 0; i < n; ++i) {
    X w = a * x.get(i, 0) + b * y.get(i, 0);
    VF_CHECK(near(y.buf[y.at(i, 0)], w, mag(a) * mag(x.get(i, 0)) + mag(b) * mag(y.get(i, 0)), 2, exact), "axpby", "entry %ld of alpha*x + beta*y is %s, expected %s", (long)i, num<T>(Num<T>::up(y.buf[y.at(i, 0)])).c_str(), num<T>(w).c_str());
  }
  vf::event("vector-update");
}
template <typename T> void dotcheck(T got, X want, long double scale, I n, bool exact, const char* what) {
  noXerbla(what);
  VF_CHECK(near(got, want, scale, n, exact), "dot", "%s of %ld %s is %s, expected %s", what, (long)n, Num<T>::n(), num<T>(Num<T>::up(got)).c_str(), num<T>(want).c_str());
}
template <typename T> typename std::enable_if<Num<T>::cx>::type conjDots(Rng& r, const il::ArrayView<T>& x, const il::ArrayView<T>& y, const il::Array<T>& ax, const il::Array<T>& ay, const Op<T>& ox, const Op<T>& oy, I n, bool exact, long double scale) {
  X plain(0, 0), left(0, 0), right(0, 0);
  for (I i = 0; i < n; ++i) { plain += ox.get(i, 0) * oy.get(i, 0); left += std::conj(ox.get(i, 0)) * oy.get(i, 0); right += ox.get(i, 0) * std::conj(oy.get(i, 0)); }
  vf::op("dot with conjugation", "%s n=%ld", Num<T>::n(), (long)n);
  dotcheck(il::dot(x, il::Dot::Star, y), left, scale, n, exact, "dot(conj x, y)");
  dotcheck(il::dot(x, y, il::Dot::Star), right, scale, n, exact, "dot(x, conj y)");
  dotcheck(il::dot(x, il::Dot::None, y), plain, scale, n, exact, "dot(x, y)");
  dotcheck(il::dot(x, y, il::Dot::None), plain, scale, n, exact, "dot(x, y)");
  dotcheck(il::dot(ax, il::Dot::Star, ay), left, scale, n, exact, "dot(conj x, y)");
  dotcheck(il::dot(ax, ay, il::Dot::Star), right, scale, n, exact, "dot(x, conj y)");
  vf::event("dot-conjugated");
  (void)r;
}
template <typename T> typename std::enable_if<!Num<T>::cx>::type conjDots(Rng&, const il::ArrayView<T>&, const il::ArrayView<T>&, const il::Array<T>&, const il::Array<T>&, const Op<T>&, const Op<T>&, I, bool, long double) {}
template <typename T> void dots(Rng& r) {
  bool exact = r.chance(50);
  I n = extent(r, r.chance(4) ? 2 : 1);
  Op<T> x, y;
  x.make(r, n, 1, false, exact, false); y.make(r, n, 1, false, exact, false);
  il::ArrayView<T> xv{x.p(), n}, yv{y.p(), n};
  X w(0, 0); long double s = 0;
  for (I i = 0; i < n; ++i) { w += x.get(i, 0) * y.get(i, 0); s += mag(x.get(i, 0)) * mag(y.get(i, 0)); }
  vf::op("dot", "%s n=%ld", Num<T>::n(), (long)n);
  dotcheck(il::dot(xv, yv), w, s, n, exact, "dot(x, y)");
  dotcheck(il::dot(xv, xv), [&] { X v(0, 0); for (I i = 0; i < n; ++i) v += x.get(i, 0) * x.get(i, 0); return v; }(), [&] { long double v = 0; for (I i = 0; i < n; ++i) v += mag(x.get(i, 0)) * mag(x.get(i, 0)); return v; }(), n, exact, "dot(x, x)");
  il::Array<T> ax{n}, ay{n};
  for (I i = 0; i < n; ++i) { ax[i] = x.buf[x.at(i, 0)]; ay[i] = y.buf[y.at(i, 0)]; }
  dotcheck(il::dot(ax, ay), w, s, n, exact, "dot of arrays");
  conjDots<T>(r, xv, yv, ax, ay, x, y, n, exact, s);
  VF_CHECK(x.untouched() && y.untouched(), "input-written", "dot changed an input");
  vf::event("dot");
}
template <typename T, bool C> struct View2;
template <typename T> struct View2<T, false> { typedef il::Array2DView<T> V; typedef il::Array2DEdit<T> E; typedef il::Array2D<T> A; static const char* n() { return "column-major"; } };
template <typename T> struct View2<T, true> { typedef il::Array2CView<T> V; typedef il::Array2CEdit<T> E; typedef il::Array2C<T> A; static const char* n() { return "row-major"; } };
template <typename T> std::string shape(const Op<T>& a) { vf::Quiet q; return vf::fmt("%ldx%ld/%ld", (long)a.n0, (long)a.n1, (long)a.ld); }

template <typename T, bool C> void gemv(Rng& r) {
  bool exact = r.chance(50);
  int big = r.chance(3) ? 2 : (int)r.below(2);
  I m = extent(r, big), k = extent(r, big);
  il::Dot op = anyDot(r);
  Op<T> A, x, y;
  T alpha = coef<T>(r, exact), beta = coef<T>(r, exact);
  X a = Num<T>::up(alpha), b = Num<T>::up(beta);
  A.make(r, op == il::Dot::None ? m : k, op == il::Dot::None ? k : m, C, exact, false);
  x.make(r, k, 1, false, exact, false);
  bool undefined = b == X(0, 0) && r.chance(70);
  y.make(r, m, 1, false, exact, undefined);
  typename View2<T, C>::V Av{A.p(), A.n0, A.n1, A.ld, (short)0, (short)0};
  il::ArrayView<T> xv{x.p(), k};
  il::ArrayEdit<T> ye{y.q(), m};
  vf::op("matrix-vector", "%s %s %s op %s alpha %s beta %s", Num<T>::n(), View2<T, C>::n(), shape(A).c_str(), opn(op), num<T>(a).c_str(), num<T>(b).c_str());
  if (op == il::Dot::None && r.chance(50)) il::blas(alpha, Av, xv, beta, il::io, ye);
  else il::blas(alpha, Av, op, xv, beta, il::io, ye);
  if (m > 0 && k > 0) noXerbla("matrix-vector product");
  g_xerbla = 0;
  VF_CHECK(A.untouched() && x.untouched(), "input-written", "a matrix-vector product changed an input");
  VF_CHECK(y.around(), "outside", "a matrix-vector product wrote outside the destination");
  for (I i = 0; i < m; ++i) {
    X w(0, 0); long double s = 0;
    for (I j = 0; j < k; ++j) { X e = app(op, op == il::Dot::None ? A.get(i, j) : A.get(j, i)); w += e * x.get(j, 0); s += mag(e) * mag(x.get(j, 0)); }
    w = a * w + b * y.get(i, 0); s = mag(a) * s + mag(b) * mag(y.get(i, 0));
    VF_CHECK(near(y.buf[y.at(i, 0)], w, s, k, exact), "gemv", "entry %ld of alpha*op(A)*x + beta*y is %s, expected %s (A %s, op %s)", (long)i, num<T>(Num<T>::up(y.buf[y.at(i, 0)])).c_str(), num<T>(w).c_str(), shape(A).c_str(), opn(op));
  }
  vf::event(k == 0 && m > 0 ? "inner-zero" : "matrix-vector");
  if (op == il::Dot::Star && Num<T>::cx) vf::event("conjugate-transpose");
}
// the overloads without one or both operations exist for some types only
template <typename T, typename V, typename E, typename = void> struct Short0 { static bool call(T, V, V, T, E) { return false; } };
template <typename T, typename V, typename E> struct Short0<T, V, E, decltype(il::blas(std::declval<T>(), std::declval<V>(), std::declval<V>(), std::declval<T>(), il::io, std::declval<E>()), void())> {
  static bool call(T a, V A, V B, T b, E C) { il::blas(a, A, B, b, il::io, C); return true; } };
template <typename T, typename V, typename E, typename = void> struct Short1 { static bool call(T, V, il::Dot, V, T, E) { return false; } };
template <typename T, typename V, typename E> struct Short1<T, V, E, decltype(il::blas(std::declval<T>(), std::declval<V>(), il::Dot::None, std::declval<V>(), std::declval<T>(), il::io, std::declval<E>()), void())> {
  static bool call(T a, V A, il::Dot o, V B, T b, E C) { il::blas(a, A, o, B, b, il::io, C); return true; } };
template <typename T, typename V, typename E, typename = void> struct Short2 { static bool call(T, V, V, il::Dot, T, E) { return false; } };
template <typename T, typename V, typename E> struct Short2<T, V, E, decltype(il::blas(std::declval<T>(), std::declval<V>(), std::declval<V>(), il::Dot::None, std::declval<T>(), il::io, std::declval<E>()), void())> {
  static bool call(T a, V A, V B, il::Dot o, T b, E C) { il::blas(a, A, B, o, b, il::io, C); return true; } };

template <typename T, bool C> void gemm(Rng& r) {
  bool exact = r.chance(60);
  int big = r.chance(2) ? 2 : r.chance(20) ? 1 : 0;
  I m = extent(r, big), n = extent(r, big), k = extent(r, big);
  il::Dot oa = anyDot(r), ob = anyDot(r);
  T alpha = coef<T>(r, exact), beta = coef<T>(r, exact);
  X a = Num<T>::up(alpha), b = Num<T>::up(beta);
  Op<T> A, B, D;
  A.make(r, oa == il::Dot::None ? m : k, oa == il::Dot::None ? k : m, C, exact, false);
  B.make(r, ob == il::Dot::None ? k : n, ob == il::Dot::None ? n : k, C, exact, false);
  bool undefined = b == X(0, 0) && r.chance(70);
  D.make(r, m, n, C, exact, undefined);
  typedef typename View2<T, C>::V V; typedef typename View2<T, C>::E E;
  V Av{A.p(), A.n0, A.n1, A.ld, (short)0, (short)0}, Bv{B.p(), B.n0, B.n1, B.ld, 0, 0};
  E De{D.q(), m, n, D.ld, 0, 0};
  vf::op("matrix-matrix", "%s %s A %s %s B %s %s C %s alpha %s beta %s", Num<T>::n(), View2<T, C>::n(), shape(A).c_str(), opn(oa), shape(B).c_str(), opn(ob), shape(D).c_str(), num<T>(a).c_str(), num<T>(b).c_str());
  bool done = false;
  if (r.chance(50)) {
    if (oa == il::Dot::None && ob == il::Dot::None) done = Short0<T, V, E>::call(alpha, Av, Bv, beta, De);
    else if (ob == il::Dot::None) done = Short1<T, V, E>::call(alpha, Av, oa, Bv, beta, De);
    else if (oa == il::Dot::None) done = Short2<T, V, E>::call(alpha, Av, Bv, ob, beta, De);
  }
  if (!done) il::blas(alpha, Av, oa, Bv, ob, beta, il::io, De);
  if (m > 0 && n > 0 && k > 0) noXerbla("matrix-matrix product");
  g_xerbla = 0;
  VF_CHECK(A.untouched() && B.untouched(), "input-written", "a matrix product changed an input");
  VF_CHECK(D.around(), "outside", "a matrix product wrote outside the destination");
  for (I j = 0; j < n; ++j) for (I i = 0; i < m; ++i) {
    X w(0, 0); long double s = 0;
    for (I l = 0; l < k; ++l) {
      X e = app(oa, oa == il::Dot::None ? A.get(i, l) : A.get(l, i)), f = app(ob, ob == il::Dot::None ? B.get(l, j) : B.get(j, l));
      w += e * f; s += mag(e) * mag(f);
    }
    w = a * w + b * D.get(i, j); s = mag(a) * s + mag(b) * mag(D.get(i, j));
    VF_CHECK(near(D.buf[D.at(i, j)], w, s, k, exact), "gemm", "entry (%ld,%ld) of alpha*op(A)*op(B) + beta*C is %s, expected %s (A %s %s, B %s %s)", (long)i, (long)j, num<T>(Num<T>::up(D.buf[D.at(i, j)])).c_str(), num<T>(w).c_str(), shape(A).c_str(), opn(oa), shape(B).c_str(), opn(ob));
  }
  vf::event(k == 0 && m > 0 && n > 0 ? "inner-zero" : "matrix-matrix");
  if (D.ld > (C ? n : m)) vf::event("padded-destination");
  if (big == 2) vf::event("large");
}
template <typename T> void matrixUpdate(Rng& r) {
  bool exact = r.chance(50);
  I m = extent(r, 1), n = extent(r, 1);
  T alpha = coef<T>(r, exact), beta = coef<T>(r, exact);
  X a = Num<T>::up(alpha), b = Num<T>::up(beta);
  Op<T> A, D;
  A.make(r, m, n, false, exact, false);
  D.make(r, m, n, false, exact, b == X(0, 0) && r.chance(70));
  il::Array2DView<T> Av{A.p(), m, n, A.ld, (short)0, (short)0};
  il::Array2DEdit<T> De{D.q(), m, n, D.ld, 0, 0};
  vf::op("matrix update", "%s %s", Num<T>::n(), shape(A).c_str());
  il::blas(alpha, Av, beta, il::io, De);
  VF_CHECK(A.untouched(), "input-written", "a matrix update changed its input");
  VF_CHECK(D.around(), "outside", "a matrix update wrote outside the destination");
  for (I j = 0; j < n; ++j) for (I i = 0; i < m; ++i) {
    X w = a * A.get(i, j) + b * D.get(i, j);
    VF_CHECK(near(D.buf[D.at(i, j)], w, mag(a) * mag(A.get(i, j)) + mag(b) * mag(D.get(i, j)), 2, exact), "axpby", "entry (%ld,%ld) of alpha*A + beta*B is %s, expected %s", (long)i, (long)j, num<T>(Num<T>::up(D.buf[D.at(i, j)])).c_str(), num<T>(w).c_str());
  }
  vf::event("matrix-update");
}
// ---- the library's own arrays --------------------------------------------------
template <typename M, typename T> M own(Rng& r, I a, I b, bool exact, std::vector<X>& v) {
  M A{a, b};
  if (r.chance(40)) A.Reserve(a + r.range(0, 5), b + r.range(0, 5));
  vf::Quiet q;
  v.resize((size_t)(a * b));
  for (I j = 0; j < b; ++j) for (I i = 0; i < a; ++i) { A(i, j) = value<T>(r, exact); v[(size_t)(i + j * a)] = Num<T>::up(A(i, j)); }
  return A;
}
template <typename M, typename T> void ownGemm(Rng& r) {
  bool exact = r.chance(50);
  I m = extent(r, 0), n = extent(r, 0), k = extent(r, 0);
  std::vector<X> a, b;
  M A = own<M, T>(r, m, k, exact, a), B = own<M, T>(r, k, n, exact, b);
  vf::op("dot of matrices", "%s %ldx%ldx%ld", Num<T>::n(), (long)m, (long)k, (long)n);
  M D = il::dot(A, B);
  g_xerbla = 0;
  VF_CHECK(D.size(0) == m && D.size(1) == n, "dot:shape", "product of %ldx%ld and %ldx%ld is %ldx%ld", (long)m, (long)k, (long)k, (long)n, (long)D.size(0), (long)D.size(1));
  for (I j = 0; j < n; ++j) for (I i = 0; i < m; ++i) {
    X w(0, 0); long double s = 0;
    for (I l = 0; l < k; ++l) { w += a[(size_t)(i + l * m)] * b[(size_t)(l + j * k)]; s += mag(a[(size_t)(i + l * m)]) * mag(b[(size_t)(l + j * k)]); }
    VF_CHECK(near(D(i, j), w, s, k, exact), "dot", "entry (%ld,%ld) of the product of %ldx%ld and %ldx%ld is %s, expected %s", (long)i, (long)j, (long)m, (long)k, (long)k, (long)n, num<T>(Num<T>::up(D(i, j))).c_str(), num<T>(w).c_str());
  }
  for (I j = 0; j < k; ++j) for (I i = 0; i < m; ++i) VF_CHECK(Num<T>::up(A(i, j)) == a[(size_t)(i + j * m)], "input-written", "dot changed an input");
  vf::event("array-product");
  if (m * n * k == 0) vf::event("empty-operand");
  vf::Quiet q; std::vector<X>().swap(a); std::vector<X>().swap(b);
}
template <typename M> void ownGemv(Rng& r) {
  bool exact = r.chance(50);
  I m = extent(r, 0), k = extent(r, 0);
  std::vector<X> a;
  M A = own<M, double>(r, m, k, exact, a);
  il::Array<double> x{k};
  for (I i = 0; i < k; ++i) x[i] = value<double>(r, exact);
  vf::op("dot of matrix and vector", "%ldx%ld", (long)m, (long)k);
  il::Array<double> y = il::dot(A, x);
  g_xerbla = 0;
  VF_CHECK(y.size() == m, "dot:shape", "product of %ldx%ld and a vector has %ld entries", (long)m, (long)k, (long)y.size());
  for (I i = 0; i < m; ++i) {
    X w(0, 0); long double s = 0;
    for (I l = 0; l < k; ++l) { w += a[(size_t)(i + l * m)] * X(x[l], 0); s += mag(a[(size_t)(i + l * m)]) * std::fabs((long double)x[l]); }
    VF_CHECK(near(y[i], w, s, k, exact), "dot", "entry %ld of the product of %ldx%ld and a vector is %.17g, expected %s", (long)i, (long)m, (long)k, y[i], num<double>(w).c_str());
  }
  vf::event("array-product");
  vf::Quiet q; std::vector<X>().swap(a);
}
// ---- static arrays -------------------------------------------------------------
template <typename T> bool same(T got, X want, bool exact) { return near(got, want, mag(want) + 40, 40, exact); }
#define EACH(v, n) for (I v = 0; v < (n); ++v)
template <typename T, I a, I b, I c, I d> void statics(Rng& r) {
  bool exact = std::numeric_limits<T>::is_integer || r.chance(50);
  il::StaticArray<T, b> x; il::StaticArray<T, b> x2; il::StaticArray<T, a> y; il::StaticArray<T, d> z;
  il::StaticArray2D<T, a, b> A; il::StaticArray2D<T, b, c> B; il::StaticArray3D<T, b, c, d> B3; il::StaticArray3D<T, a, c, b> T3; il::StaticArray4D<T, a, c, d, b> T4;
  il::StaticArray3D<T, a, c, d> U3, V3; il::StaticArray2D<T, a, c> U2; il::StaticArray2D<T, b, a> At;
  EACH(i, b) { x[i] = value<T>(r, exact); x2[i] = value<T>(r, exact); }
  EACH(i, a) y[i] = value<T>(r, exact);
  EACH(i, d) z[i] = value<T>(r, exact);
  EACH(i, a) EACH(j, b) { A(i, j) = value<T>(r, exact); At(j, i) = value<T>(r, exact); }
  EACH(i, b) EACH(j, c) { B(i, j) = value<T>(r, exact); EACH(k, d) B3(i, j, k) = value<T>(r, exact); }
  EACH(i, a) EACH(j, c) { U2(i, j) = value<T>(r, exact); EACH(k, b) { T3(i, j, k) = value<T>(r, exact); EACH(l, d) T4(i, j, l, k) = value<T>(r, exact); } EACH(k, d) { U3(i, j, k) = value<T>(r, exact); V3(i, j, k) = value<T>(r, exact); } }
  vf::op("static products", "%s %ld %ld %ld %ld", Num<T>::n(), (long)a, (long)b, (long)c, (long)d);
  auto up = [](T v) { return Num<T>::up(v); };
  { X w(0, 0); EACH(i, b) w += up(x[i]) * up(x2[i]); VF_CHECK(same(il::dot(x, x2), w, exact), "static", "dot of static vectors"); }
  { auto g = il::dot(A, x); EACH(i, a) { X w(0, 0); EACH(j, b) w += up(A(i, j)) * up(x[j]); VF_CHECK(same(g[i], w, exact), "static", "entry %ld of a static matrix times a vector", (long)i); } }
  { auto g = il::dot(At, il::Dot::Transpose, x); EACH(i, a) { X w(0, 0); EACH(j, b) w += up(At(j, i)) * up(x[j]); VF_CHECK(same(g[i], w, exact), "static", "entry %ld of a transposed static matrix times a vector", (long)i); } }
  { auto g = il::dot(y, A); EACH(j, b) { X w(0, 0); EACH(i, a) w += up(y[i]) * up(A(i, j)); VF_CHECK(same(g[j], w, exact), "static", "entry %ld of a vector times a static matrix", (long)j); } }
  { auto g = il::dot(A, B); EACH(i, a) EACH(j, c) { X w(0, 0); EACH(l, b) w += up(A(i, l)) * up(B(l, j)); VF_CHECK(same(g(i, j), w, exact), "static", "entry (%ld,%ld) of a product of static matrices", (long)i, (long)j); } }
  { auto g = il::dot(At, il::Dot::Transpose, B); EACH(i, a) EACH(j, c) { X w(0, 0); EACH(l, b) w += up(At(l, i)) * up(B(l, j)); VF_CHECK(same(g(i, j), w, exact), "static", "entry (%ld,%ld) of a transposed product of static matrices", (long)i, (long)j); } }
  { auto g = il::dot(A, B3); EACH(i, a) EACH(j, c) EACH(k, d) { X w(0, 0); EACH(l, b) w += up(A(i, l)) * up(B3(l, j, k)); VF_CHECK(same(g(i, j, k), w, exact), "static", "entry (%ld,%ld,%ld) of matrix times rank 3", (long)i, (long)j, (long)k); } }
  { auto g = il::dot(T3, x); EACH(i, a) EACH(j, c) { X w(0, 0); EACH(l, b) w += up(T3(i, j, l)) * up(x[l]); VF_CHECK(same(g(i, j), w, exact), "static", "entry (%ld,%ld) of rank 3 times vector", (long)i, (long)j); } }
  { auto g = il::dot(T4, x); EACH(i, a) EACH(j, c) EACH(k, d) { X w(0, 0); EACH(l, b) w += up(T4(i, j, k, l)) * up(x[l]); VF_CHECK(same(g(i, j, k), w, exact), "static", "entry (%ld,%ld,%ld) of rank 4 times vector", (long)i, (long)j, (long)k); } }
  double al = (double)r.range(-3, 3), be = (double)r.range(-3, 3);
  { auto o = y; il::blas(al, A, x, be, il::io, y); EACH(i, a) { X w(0, 0); EACH(j, b) w += up(A(i, j)) * up(x[j]); w = X(al, 0) * w + X(be, 0) * up(o[i]); VF_CHECK(same(y[i], w, exact), "static", "entry %ld of alpha*A*x + beta*y, static", (long)i); } }
  { auto o = U2; il::blas(al, T3, x, be, il::io, U2); EACH(i, a) EACH(j, c) { X w(0, 0); EACH(l, b) w += up(T3(i, j, l)) * up(x[l]); w = X(al, 0) * w + X(be, 0) * up(o(i, j)); VF_CHECK(same(U2(i, j), w, exact), "static", "entry (%ld,%ld) of alpha*T*x + beta*U, static rank 3", (long)i, (long)j); } }
  { auto o = U3; il::blas(al, T4, x, be, il::io, U3); EACH(i, a) EACH(j, c) EACH(k, d) { X w(0, 0); EACH(l, b) w += up(T4(i, j, k, l)) * up(x[l]); w = X(al, 0) * w + X(be, 0) * up(o(i, j, k)); VF_CHECK(same(U3(i, j, k), w, exact), "static", "entry of alpha*T*x + beta*U, static rank 4"); } }
  { auto o = U3; T ta = Num<T>::mk(al, 0), tb = Num<T>::mk(be, 0); il::blas(ta, V3, tb, il::io, U3); EACH(i, a) EACH(j, c) EACH(k, d) VF_CHECK(same(U3(i, j, k), X(al, 0) * up(V3(i, j, k)) + X(be, 0) * up(o(i, j, k)), exact), "static", "entry of alpha*A + beta*B, static rank 3"); }
  { il::StaticArray<T, 2> p; il::StaticArray<T, 3> u, v; EACH(i, 2) p[i] = value<T>(r, exact); EACH(i, 3) { u[i] = value<T>(r, exact); v[i] = value<T>(r, exact); }
    auto g = il::cross(p); VF_CHECK(up(g[0]) == -up(p[1]) && up(g[1]) == up(p[0]), "cross", "rotated vector in the plane");
    auto h = il::cross(u, v);
    EACH(i, 3) { I j = (i + 1) % 3, k = (i + 2) % 3; VF_CHECK(same(h[i], up(u[j]) * up(v[k]) - up(u[k]) * up(v[j]), exact), "cross", "component %ld of a vector product", (long)i); } }
  vf::event("static-products");
}
template <typename T> void forType(Rng& r) {
  switch (r.below(10)) {
    case 0: vectors<T>(r); break;
    case 1: dots<T>(r); break;
    case 2: case 3: gemv<T, false>(r); break;
    case 4: case 5: gemv<T, true>(r); break;
    case 6: case 7: gemm<T, false>(r); break;
    default: gemm<T, true>(r);
  }
}
template <typename T> void statics1(Rng& r) {
  switch (r.below(4)) { case 0: statics<T, 1, 1, 1, 1>(r); break; case 1: statics<T, 2, 3, 4, 5>(r); break; case 2: statics<T, 3, 2, 1, 4>(r); break; default: statics<T, 4, 1, 3, 2>(r); }
}
#ifndef VF_PART
void vf_case(Rng& r, uint64_t) {
  g_xerbla = 0;
  int n = (int)r.range(1, 3);
  for (int i = 0; i < n; ++i) {
    switch (r.below(14)) {
      case 0: case 1: case 2: forType<float>(r); break;
      case 3: case 4: case 5: forType<double>(r); break;
      case 6: case 7: forType<std::complex<float>>(r); break;
      case 8: case 9: forType<std::complex<double>>(r); break;
      case 10: if (r.chance(50)) matrixUpdate<double>(r); else matrixUpdate<std::complex<double>>(r); break;
      case 11: if (r.chance(33)) ownGemm<il::Array2D<float>, float>(r); else if (r.chance(50)) ownGemm<il::Array2D<double>, double>(r); else ownGemm<il::Array2C<double>, double>(r); break;
      case 12: if (r.chance(50)) ownGemv<il::Array2D<double>>(r); else ownGemv<il::Array2C<double>>(r); break;
      default: switch (r.below(4)) { case 0: statics1<int>(r); break; case 1: statics1<double>(r); break; case 2: statics1<std::complex<double>>(r); break; default: statics1<float>(r); }
    }
    vf::nontrivial();
  }
}
#else
// A07: operands whose sizes do not agree, or that overlap the destination, are refused before BLAS is called
template <typename F> static bool refused(F f) { try { f(); } catch (const il::AbortException&) { return true; } return false; }
template <typename T, bool C> void misuse(Rng& r) {
  I d[6] = {0, 0, 0, 0, 0, 0};
  for (I& e : d) e = r.range(1, 6);
  il::Dot oa = anyDot(r), ob = anyDot(r);
  I m = d[0], k = d[1], n = d[2];
  // A.size(0), A.size(1), B.size(0), B.size(1), C.size(0), C.size(1)
  I s[6] = {oa == il::Dot::None ? m : k, oa == il::Dot::None ? k : m, ob == il::Dot::None ? k : n, ob == il::Dot::None ? n : k, m, n};
  typedef typename View2<T, C>::V V; typedef typename View2<T, C>::E E;
  int what = (int)r.below(6);
  Op<T> A, B, D;
  T alpha = coef<T>(r, true), beta = coef<T>(r, true);
  bool bad;
  if (what < 3) {
    int w = (int)r.below(7);
    if (w < 6) s[w] += r.range(1, 3);
    A.make(r, s[0], s[1], C, true, false); B.make(r, s[2], s[3], C, true, false); D.make(r, s[4], s[5], C, true, false);
    vf::op("product of mismatched matrices", "%s %s %s %s * %s %s -> %s", Num<T>::n(), View2<T, C>::n(), shape(A).c_str(), opn(oa), shape(B).c_str(), opn(ob), shape(D).c_str());
    if (w < 6) bad = refused([&] { il::blas(alpha, V(A.p(), A.n0, A.n1, A.ld, (short)0, (short)0), oa, V(B.p(), B.n0, B.n1, B.ld, (short)0, (short)0), ob, beta, il::io, E(D.q(), D.n0, D.n1, D.ld, (short)0, (short)0)); });
    else {
      // the destination is one of the operands: square, so that the sizes agree
      A.make(r, m, m, C, true, false); B.make(r, m, m, C, true, false);
      bool first = r.chance(50);
      Op<T>& X = first ? A : B;
      vf::op("product into an operand", "%s %s", Num<T>::n(), View2<T, C>::n());
      bad = refused([&] { il::blas(alpha, V(A.p(), m, m, A.ld, (short)0, (short)0), oa, V(B.p(), m, m, B.ld, (short)0, (short)0), ob, beta, il::io, E(X.q(), m, m, X.ld, (short)0, (short)0)); });
    }
  } else if (what == 3) {
    int w = (int)r.below(5);
    I q[4] = {oa == il::Dot::None ? m : k, oa == il::Dot::None ? k : m, k, m};
    if (w < 4) q[w] += r.range(1, 3); else q[0] = q[1] = q[2] = q[3] = m;
    A.make(r, q[0], q[1], C, true, false); B.make(r, q[2], 1, false, true, false); D.make(r, q[3], 1, false, true, false);
    vf::op("product of a mismatched matrix and vector", "%s %s %s %s", Num<T>::n(), View2<T, C>::n(), shape(A).c_str(), opn(oa));
    T* y = w == 4 ? const_cast<T*>(B.p()) : D.q();
    bad = refused([&] { il::blas(alpha, V(A.p(), A.n0, A.n1, A.ld, (short)0, (short)0), oa, il::ArrayView<T>(B.p(), q[2]), beta, il::io, il::ArrayEdit<T>(y, q[3])); });
  } else {
    I e = m + r.range(1, 3);
    if (r.chance(50)) std::swap(m, e);
    A.make(r, m, 1, false, true, false); B.make(r, m, 1, false, true, false); D.make(r, e, 1, false, true, false);
    vf::op("mismatched vectors", "%s %ld and %ld", Num<T>::n(), (long)m, (long)e);
    il::ArrayView<T> x{A.p(), m};
    il::ArrayEdit<T> y{D.q(), e};
    switch (r.below(3)) {
      case 0: bad = refused([&] { il::blas(alpha, x, il::io, y); }); break;
      case 1: bad = refused([&] { il::blas(alpha, x, beta, il::io, y); }); break;
      default: bad = refused([&] { volatile bool z = il::dot(x, il::ArrayView<T>(D.p(), e)) == T(0); (void)z; });
    }
  }
  VF_CHECK(bad, "accepted", "a call whose operands do not fit is not refused");
  VF_CHECK(g_xerbla == 0, "accepted", "a call whose operands do not fit reached BLAS");
  VF_CHECK(A.untouched() && B.untouched() && (D.buf.empty() || D.untouched()), "refused-wrote", "a refused call changed memory");
  vf::event("rejections");
}
void vf_case(Rng& r, uint64_t) {
  g_xerbla = 0;
  switch (r.below(8)) {
    case 0: misuse<float, false>(r); break;
    case 1: misuse<float, true>(r); break;
    case 2: misuse<double, false>(r); break;
    case 3: misuse<double, true>(r); break;
    case 4: misuse<std::complex<float>, false>(r); break;
    case 5: misuse<std::complex<float>, true>(r); break;
    case 6: misuse<std::complex<double>, false>(r); break;
    default: misuse<std::complex<double>, true>(r);
  }
  vf::event("contract-blas");
  vf::nontrivial();
}
#endif
