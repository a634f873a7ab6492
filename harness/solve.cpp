// L02: dense solvers and factorizations against residuals, reconstruction and definitions
// evaluated in long double.
#include "vfil.h"
#include <il/Array.h>
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/BandArray2C.h>
#include <il/LowerArray2D.h>
#include <il/StaticArray.h>
#include <il/StaticArray2D.h>
#include <il/TriDiagonal.h>
#include <il/linearAlgebra/dense/blas/blas.h>
#include <il/linearAlgebra/dense/blas/solve.h>
#include <il/linearAlgebra/dense/factorization/Cholesky.h>
#include <il/linearAlgebra/dense/factorization/Eigen.h>
#include <il/linearAlgebra/dense/factorization/LU.h>
#include <il/linearAlgebra/dense/factorization/Singular.h>
#include <il/linearAlgebra/dense/factorization/linearSolve.h>
#include <il/linearAlgebra/dense/factorization/luDecomposition.h>
#include <il/linearAlgebra/dense/factorization/qrDecomposition.h>
#include <il/linearAlgebra/dense/norm.h>
#include "dense.h"
typedef long double L;
static const L EPS = 2.220446049250313e-16L;
static L ab(X v) { return std::sqrt(v.real() * v.real() + v.imag() * v.imag()); }

struct M {  // dense model
  I n0, n1; std::vector<X> v;
  M(I a = 0, I b = 0) : n0(a), n1(b), v((size_t)(a * b), X(0, 0)) {}
  X& operator()(I i, I j) { return v[(size_t)(i + j * n0)]; }
  const X& operator()(I i, I j) const { return v[(size_t)(i + j * n0)]; }
  L inf() const { L w = 0; for (I i = 0; i < n0; ++i) { L s = 0; for (I j = 0; j < n1; ++j) s += ab((*this)(i, j)); w = std::max(w, s); } return w; }
  L one() const { L w = 0; for (I j = 0; j < n1; ++j) { L s = 0; for (I i = 0; i < n0; ++i) s += ab((*this)(i, j)); w = std::max(w, s); } return w; }
  bool finite() const { for (X x : v) if (!std::isfinite((double)ab(x))) return false; return true; }
};
static M mul(const M& a, const M& b) { M c(a.n0, b.n1); for (I j = 0; j < b.n1; ++j) for (I l = 0; l < a.n1; ++l) { X f = b(l, j); for (I i = 0; i < a.n0; ++i) c(i, j) += a(i, l) * f; } return c; }
static M sub(const M& a, const M& b) { M c = a; for (size_t k = 0; k < c.v.size(); ++k) c.v[k] -= b.v[k]; return c; }
static M eye(I n) { M a(n, n); for (I i = 0; i < n; ++i) a(i, i) = X(1, 0); return a; }
static M herm(const M& a) { M c(a.n1, a.n0); for (I i = 0; i < a.n0; ++i) for (I j = 0; j < a.n1; ++j) c(j, i) = std::conj(a(i, j)); return c; }
static M trans(const M& a) { M c(a.n1, a.n0); for (I i = 0; i < a.n0; ++i) for (I j = 0; j < a.n1; ++j) c(j, i) = a(i, j); return c; }
// elimination with complete pivoting in long double: determinant, inverse, smallest relative pivot
struct Elim { X det; M inv; L ratio; };
static Elim elim(M a) {
  I n = a.n0; Elim e; e.det = X(1, 0); e.inv = eye(n); e.ratio = 1;
  std::vector<I> col((size_t)n); for (I i = 0; i < n; ++i) col[(size_t)i] = i;
  L top = 0;
  for (I k = 0; k < n; ++k) {
    I pi = k, pj = k; L best = -1;
    for (I j = k; j < n; ++j) for (I i = k; i < n; ++i) if (ab(a(i, j)) > best) { best = ab(a(i, j)); pi = i; pj = j; }
    if (k == 0) top = best;
    if (best == 0) { e.det = X(0, 0); e.ratio = 0; return e; }
    e.ratio = std::min(e.ratio, best / top);
    if (pi != k) { for (I j = 0; j < n; ++j) { std::swap(a(pi, j), a(k, j)); std::swap(e.inv(pi, j), e.inv(k, j)); } e.det = -e.det; }
    if (pj != k) { for (I i = 0; i < n; ++i) std::swap(a(i, pj), a(i, k)); std::swap(col[(size_t)pj], col[(size_t)k]); e.det = -e.det; }
    e.det *= a(k, k);
    X p = a(k, k);
    for (I j = 0; j < n; ++j) { a(k, j) /= p; e.inv(k, j) /= p; }
    for (I i = 0; i < n; ++i) if (i != k) { X f = a(i, k); if (f == X(0, 0)) continue; for (I j = k; j < n; ++j) a(i, j) -= f * a(k, j); for (I j = 0; j < n; ++j) e.inv(i, j) -= f * e.inv(k, j); }
  }
  M b = e.inv;
  for (I k = 0; k < n; ++k) for (I j = 0; j < n; ++j) e.inv(col[(size_t)k], j) = b(k, j);
  return e;
}
// ---- inputs --------------------------------------------------------------------
enum { Dense, Small, Permuted, Scaled, ZeroRow, ZeroCol, kKinds };
static const char* kn(int k) { static const char* n[] = {"dense", "small integers", "permuted triangular", "badly scaled", "zero row", "zero column"}; return n[k]; }
static double rnd(double v) { return v; }
static M matrix(Rng& r, I n, int kind, bool cx) {
  M a(n, n);
  std::vector<I> p((size_t)n); for (I i = 0; i < n; ++i) p[(size_t)i] = i;
  for (I i = n - 1; i > 0; --i) std::swap(p[(size_t)i], p[(size_t)r.below(i + 1)]);
  for (I i = 0; i < n; ++i) {
    double s = kind == Scaled ? std::pow(10.0, (double)r.range(-6, 6)) : 1;
    for (I j = 0; j < n; ++j) {
      double u = rnd(r.sym() * s), w = cx ? rnd(r.sym() * s) : 0;
      if (kind == Small) { u = (double)r.range(-3, 3); w = cx ? (double)r.range(-3, 3) : 0; }
      if (kind == Permuted && p[(size_t)i] > j) u = w = 0;
      if (kind == Permuted && p[(size_t)i] == j) u += u < 0 ? -1 : 1;
      a(i, j) = X(u, w);
    }
  }
  if (kind == ZeroRow) { I i = r.below(n); for (I j = 0; j < n; ++j) a(i, j) = X(0, 0); }
  if (kind == ZeroCol) { I j = r.below(n); for (I i = 0; i < n; ++i) a(i, j) = X(0, 0); }
  return a;
}
static int pickKind(Rng& r) { int k = (int)r.below(12); return k < 5 ? Dense : k < 7 ? Small : k < 9 ? Permuted : k < 10 ? Scaled : k < 11 ? ZeroRow : ZeroCol; }
static I order(Rng& r, I top = 14) { return r.below(400) == 0 ? std::max<I>(1, r.mark(170)) : r.chance(3) ? r.range(40, 90) : r.chance(15) ? 1 : r.range(1, top); }
template <typename A> A give(Rng& r, const M& a) {  // a library matrix holding a, with spare capacity in some cases
  A x{a.n0, a.n1};
  if (r.chance(40)) x.Reserve(a.n0 + r.range(0, 5), a.n1 + r.range(0, 3));
  for (I j = 0; j < a.n1; ++j) for (I i = 0; i < a.n0; ++i) x(i, j) = (double)a(i, j).real();
  return x;
}
// what is given by value: a copy, or one with its own spare capacity handed over
template <typename A> A arg(Rng& r, const A& x) {
  if (r.chance(50)) return x;
  A y{x.size(0), x.size(1)};
  y.Reserve(x.size(0) + r.range(0, 5), x.size(1) + r.range(0, 3));
  for (I j = 0; j < x.size(1); ++j) for (I i = 0; i < x.size(0); ++i) y(i, j) = x(i, j);
  vf::event("handed-over");
  return y;
}
static il::Array<double> vec(Rng& r, I n, M& b) {
  il::Array<double> y{n};
  if (r.chance(30)) y.Reserve(n + 3);
  { vf::Quiet q; b = M(n, 1); }
  for (I i = 0; i < n; ++i) { y[i] = r.chance(10) ? 0.0 : r.sym() * (r.chance(10) ? 1e5 : 1); b(i, 0) = X(y[i], 0); }
  return y;
}
static M from(const il::Array<double>& x) { M a(x.size(), 1); for (I i = 0; i < x.size(); ++i) a(i, 0) = X(x[i], 0); return a; }
template <typename A> M from2(const A& x) { M a(x.size(0), x.size(1)); for (I j = 0; j < a.n1; ++j) for (I i = 0; i < a.n0; ++i) a(i, j) = Num<typename std::decay<decltype(x(i, j))>::type>::up(x(i, j)); return a; }

// the status has to say whether the matrix is singular; true: there is a solution to judge
static bool verdict(bool ok, const M& a, int kind, const char* what, il::Status& s) {
  if (ok) {
    VF_CHECK(kind != ZeroRow && kind != ZeroCol, "singular-accepted", "%s of a matrix with a %s of order %ld succeeds", what, kn(kind), (long)a.n0);
    return true;
  }
  VF_CHECK(s.error() == il::Error::MatrixSingular, "error-code", "%s fails with error %d", what, (int)s.error());
  if (kind != ZeroRow && kind != ZeroCol) { Elim e = elim(a); VF_CHECK(e.ratio < 1e-10L, "regular-refused", "%s of a regular matrix of order %ld (smallest relative pivot %.3Lg) reports a singular matrix", what, (long)a.n0, e.ratio); }
  vf::event("singular-reported");
  return false;
}
// backward error of x as solution of a x = b, column by column
static void residual(const M& a, const M& x, const M& b, const char* what) {
  VF_CHECK(x.n0 == a.n1 && x.n1 == b.n1, "shape", "%s returns %ldx%ld", what, (long)x.n0, (long)x.n1);
  M d = sub(mul(a, x), b);
  L na = a.inf();
  for (I j = 0; j < x.n1; ++j) {
    L nx = 0, nd = 0, nb = 0;
    for (I i = 0; i < x.n0; ++i) nx = std::max(nx, ab(x(i, j)));
    for (I i = 0; i < b.n0; ++i) { nb = std::max(nb, ab(b(i, j))); nd = std::max(nd, ab(d(i, j))); }
    if (!std::isfinite((double)nx)) { Elim e = elim(a); VF_CHECK(e.ratio < 1e-14L, "residual", "%s of a regular matrix of order %ld is not finite", what, (long)a.n0); continue; }
    VF_CHECK(nd <= EPS * 60 * (L)(a.n0 + 3) * (na * nx + nb), "residual", "%s of order %ld, column %ld: residual %.3Lg with |A| %.3Lg, |x| %.3Lg", what, (long)a.n0, (long)j, nd, na, nx);
  }
}
// ---- linearSolve -----------------------------------------------------------------
template <typename A> void general(Rng& r, const char* what) {
  M a, b; int kind = pickKind(r); I n = order(r);
  { vf::Quiet q; a = matrix(r, n, kind, false); }
  A x = give<A>(r, a);
  il::Array<double> y = vec(r, n, b);
  vf::op(what, "order %ld, %s", (long)n, kn(kind));
  il::Status s{}; vf::used(s);
  il::Array<double> z = il::linearSolve(arg(r, x), y, il::io, s);
  noXerbla(what);
  bool ok = s.Ok();
  vf::Quiet q;
  if (verdict(ok, a, kind, what, s)) residual(a, from(z), b, what);
  VF_CHECK(sub(from2(x), a).inf() == 0 && sub(from(y), b).inf() == 0, "input-written", "%s changed its inputs", what);
  vf::event("general");
}
static void band(Rng& r) {
  I n = order(r), kl = r.range(0, std::min<I>(n - 1, 4)), ku = r.range(0, std::min<I>(n - 1, 4));
  bool sym = r.chance(20);
  if (sym) ku = kl;
  il::BandArray2C<double> B = sym ? il::BandArray2C<double>{n, kl} : il::BandArray2C<double>{n, n, kl, ku};
  M a, b;
  int kind = r.chance(10) ? ZeroCol : r.chance(20) ? Small : Dense;
  { vf::Quiet q; a = M(n, n); }
  I zero = r.below(n);
  for (I i = 0; i < n; ++i) for (I k = -kl; k <= ku; ++k) if (i + k >= 0 && i + k < n) {
    double v = kind == Small ? (double)r.range(-3, 3) : r.sym() + (k == 0 && r.chance(50) ? 3 : 0);
    if (kind == ZeroCol && i + k == zero) v = 0;
    B(i, k) = v; a(i, i + k) = X(v, 0);
  }
  il::Array<double> y = vec(r, n, b);
  vf::op("banded system", "order %ld, widths %ld %ld, %s", (long)n, (long)kl, (long)ku, kn(kind));
  il::Status s{}; vf::used(s);
  il::Array<double> z = il::linearSolve(B, y, il::io, s);
  noXerbla("banded system");
  bool ok = s.Ok();
  vf::Quiet q;
  if (verdict(ok, a, kind, "banded system", s)) residual(a, from(z), b, "banded system");
  for (I i = 0; i < n; ++i) for (I k = -kl; k <= ku; ++k) if (i + k >= 0 && i + k < n) VF_CHECK(B(i, k) == (double)a(i, i + k).real(), "input-written", "banded system changed its matrix");
  vf::event("banded");
}
static void tridiagonal(Rng& r) {
  I n = order(r);
  il::TriDiagonal<double> T{n};
  M a, b;
  int kind = r.chance(10) ? ZeroRow : Dense;
  { vf::Quiet q; a = M(n, n); }
  I zero = r.below(n);
  for (I i = 0; i < n; ++i) for (I k = -1; k <= 1; ++k) {
    double v = r.sym() + (k == 0 && r.chance(50) ? 2 : 0);
    if (kind == ZeroRow && i == zero) v = 0;
    T(i, k) = v; if (i + k >= 0 && i + k < n) a(i, i + k) = X(v, 0);
  }
  il::Array<double> y = vec(r, n, b);
  vf::op("tridiagonal system", "order %ld, %s", (long)n, kn(kind));
  il::Status s{}; vf::used(s);
  il::Array<double> z = il::linearSolve(T, y, il::io, s);
  noXerbla("tridiagonal system");
  bool ok = s.Ok();
  vf::Quiet q;
  if (verdict(ok, a, kind, "tridiagonal system", s)) residual(a, from(z), b, "tridiagonal system");
  vf::event("tridiagonal");
}
// ---- LU ----------------------------------------------------------------------------
static void inverseIs(const M& a, const M& inv, const char* what) {
  VF_CHECK(inv.n0 == a.n0 && inv.n1 == a.n0, "shape", "%s is %ldx%ld", what, (long)inv.n0, (long)inv.n1);
  if (!inv.finite()) return;
  L d = sub(mul(inv, a), eye(a.n0)).inf();
  VF_CHECK(d <= EPS * 100 * (L)(a.n0 + 3) * (a.inf() * inv.inf() + 1), "inverse", "%s of order %ld times the matrix differs from the identity by %.3Lg (|A| %.3Lg, |inverse| %.3Lg)", what, (long)a.n0, d, a.inf(), inv.inf());
}
static void rowsAre(const M& lu, const M& a, const char* what) {
  std::vector<bool> used((size_t)a.n0, false);
  L na = a.inf() + 1e-300L;
  for (I i = 0; i < a.n0; ++i) {
    I best = -1; L bd = 0;
    for (I k = 0; k < a.n0; ++k) if (!used[(size_t)k]) { L d = 0; for (I j = 0; j < a.n1; ++j) d = std::max(d, ab(lu(i, j) - a(k, j))); if (best < 0 || d < bd) { best = k; bd = d; } }
    used[(size_t)best] = true;
    VF_CHECK(bd <= EPS * 60 * (L)(a.n0 + a.n1) * na, "factors", "%s: row %ld of the product of the factors of a %ldx%ld matrix is no row of the matrix (nearest differs by %.3Lg)", what, (long)i, (long)a.n0, (long)a.n1, bd);
  }
}
static void lu(Rng& r) {
  M a, b; int kind = pickKind(r); I n = order(r);
  bool square = !r.chance(15);
  I m = square ? n : r.range(1, 14);
  { vf::Quiet q; M t = matrix(r, std::max(n, m), square ? kind : Dense, false); a = M(m, n); for (I i = 0; i < m; ++i) for (I j = 0; j < n; ++j) a(i, j) = t(i, j); }
  il::Array2D<double> A = give<il::Array2D<double>>(r, a);
  vf::op("LU", "%ldx%ld %s", (long)m, (long)n, kn(kind));
  il::Status s{}; vf::used(s);
  il::LU<il::Array2D<double>> f{arg(r, A), il::io, s};
  noXerbla("LU");
  bool ok = s.Ok();
  if (!square) {
    VF_CHECK(ok, "regular-refused", "LU of a %ldx%ld matrix reports an error", (long)m, (long)n);
    vf::Quiet q;
    VF_CHECK(f.size(0) == m && f.size(1) == n, "shape", "LU of %ldx%ld is %ldx%ld", (long)m, (long)n, (long)f.size(0), (long)f.size(1));
    I k = std::min(m, n);
    M l(m, k), u(k, n);
    for (I i = 0; i < m; ++i) for (I j = 0; j < k; ++j) l(i, j) = i == j ? X(1, 0) : i > j ? X(f.L(i, j), 0) : X(0, 0);
    for (I i = 0; i < k; ++i) for (I j = i; j < n; ++j) u(i, j) = X(f.U(i, j), 0);
    rowsAre(mul(l, u), a, "LU");
    vf::event("lu-rectangular");
    return;
  }
  bool judge;
  { vf::Quiet q; judge = verdict(ok, a, kind, "LU", s); }
  if (!judge) return;
  il::Array<double> y = vec(r, n, b);
  vf::op("LU solve");
  il::Array<double> x1 = f.solve(y);
  noXerbla("LU solve");
  I c = r.range(0, 4);
  M bb;
  { vf::Quiet q; bb = M(n, c); for (X& e : bb.v) e = X(r.sym(), 0); }
  il::Array2D<double> Y = give<il::Array2D<double>>(r, bb);
  vf::op("LU solve many", "%ld right-hand sides", (long)c);
  il::Array2D<double> X2 = f.solve(arg(r, Y));
  noXerbla("LU solve of several right-hand sides");
  vf::op("LU inverse");
  il::Array2D<double> inv = f.inverse();
  noXerbla("LU inverse");
  double det = f.determinant();
  double na1, nai; { na1 = il::norm(A, il::Norm::L1); nai = il::norm(A, il::Norm::Linf); }
  double c1 = f.conditionNumber(il::Norm::L1, na1), ci = f.conditionNumber(il::Norm::Linf, nai);
  noXerbla("condition number");
  vf::Quiet q;
  residual(a, from(x1), b, "LU solve");
  if (c > 0) residual(a, from2(X2), bb, "LU solve of several right-hand sides");
  inverseIs(a, from2(inv), "LU inverse");
  Elim e = elim(a);
  L had = 1; for (I i = 0; i < n; ++i) { L t = 0; for (I j = 0; j < n; ++j) t += ab(a(i, j)) * ab(a(i, j)); had *= std::sqrt(t); }
  if (kind != Scaled && n <= 40) VF_CHECK(std::fabs((L)det - e.det.real()) <= EPS * 60 * (L)(n * n + 5) * had, "determinant", "determinant of order %ld (%s) is %.17g, expected %.17Lg", (long)n, kn(kind), det, e.det.real());
  if (e.ratio > 1e-8L) {
    L t1 = (L)na1 * e.inv.one(), ti = (L)nai * e.inv.inf();
    VF_CHECK(c1 <= t1 * 1.001L && c1 >= t1 * 0.02L && ci <= ti * 1.001L && ci >= ti * 0.02L, "condition", "condition numbers %.6g and %.6g, expected about %.6Lg and %.6Lg", c1, ci, t1, ti);
  }
  M l(n, n), u(n, n);
  for (I i = 0; i < n; ++i) for (I j = 0; j < n; ++j) { l(i, j) = i == j ? X(1, 0) : i > j ? X(f.L(i, j), 0) : X(0, 0); u(i, j) = j >= i ? X(f.U(i, j), 0) : X(0, 0); }
  rowsAre(mul(l, u), a, "LU");
  VF_CHECK(sub(from2(A), a).inf() == 0 && sub(from2(Y), bb).inf() == 0 && sub(from(y), b).inf() == 0, "input-written", "LU changed its inputs");
  vf::event("lu");
}
template <typename T, I n> void staticLu(Rng& r) {
  M a; int kind = pickKind(r);
  { vf::Quiet q; a = matrix(r, n, kind, Num<T>::cx); }
  il::StaticArray2D<T, n, n> A;
  for (I i = 0; i < n; ++i) for (I j = 0; j < n; ++j) A(i, j) = Num<T>::mk((double)a(i, j).real(), (double)a(i, j).imag());
  vf::op("static LU", "order %ld %s %s", (long)n, kn(kind), Num<T>::n());
  il::Status s{}; vf::used(s);
  il::LU<il::StaticArray2D<T, n, n>> f{A, il::io, s};
  bool ok = s.Ok();
  { vf::Quiet q; if (!verdict(ok, a, kind, "static LU", s)) return; }
  il::StaticArray2D<T, n, n> inv = f.inverse();
  vf::Quiet q;
  inverseIs(a, from2(inv), "static inverse");
  vf::event("static-lu");
}
// ---- Cholesky ------------------------------------------------------------------------
static void cholesky(Rng& r) {
  I n = order(r); M a, b;
  bool bad = r.chance(15);
  { vf::Quiet q; M t = matrix(r, n, Dense, false); a = mul(t, trans(t)); for (X& e : a.v) e = X((double)e.real(), 0); for (I i = 0; i < n; ++i) { a(i, i) += X(r.chance(50) ? 1 : 0.125, 0); a(i, i) = X((double)a(i, i).real(), 0); for (I j = 0; j < i; ++j) a(j, i) = a(i, j); } if (bad) { I k = r.below(n); a(k, k) = X(-1, 0); } }
  il::Array2D<double> A = give<il::Array2D<double>>(r, a);
  vf::op("Cholesky", "order %ld%s", (long)n, bad ? ", not positive definite" : "");
  il::Status s{}; vf::used(s);
  il::Cholesky<il::Array2D<double>> f{arg(r, A), il::io, s};
  noXerbla("Cholesky");
  bool ok = s.Ok();
  il::LowerArray2D<double> P{n};
  for (I i = 0; i < n; ++i) for (I j = 0; j <= i; ++j) P(i, j) = A(i, j);
  il::Status s2{}; vf::used(s2);
  il::Cholesky<il::LowerArray2D<double>> f2{P, il::io, s2};
  noXerbla("packed Cholesky");
  bool ok2 = s2.Ok();
  VF_CHECK(ok == !bad && ok2 == !bad, bad ? "indefinite-accepted" : "regular-refused", "Cholesky of a matrix of order %ld that %s positive definite %s (full) and %s (packed)", (long)n, bad ? "is not" : "is", ok ? "succeeds" : "fails", ok2 ? "succeeds" : "fails");
  if (bad) { vf::event("indefinite-reported"); return; }
  VF_CHECK(f.size(0) == n && f.size(1) == n, "shape", "Cholesky of order %ld has size %ld", (long)n, (long)f.size(0));
  il::Array<double> y = vec(r, n, b);
  vf::op("Cholesky solve");
  il::Array<double> x = f.solve(y);
  noXerbla("Cholesky solve");
  vf::op("Cholesky inverse");
  il::Array2D<double> inv = f.inverse();
  noXerbla("Cholesky inverse");
  double na1 = il::norm(A, il::Norm::L1);
  vf::op("Cholesky condition");
  double c1 = f.conditionNumber(il::Norm::L1, na1), ci = f.conditionNumber(il::Norm::Linf, il::norm(A, il::Norm::Linf));
  noXerbla("Cholesky condition number");
  vf::Quiet q;
  residual(a, from(x), b, "Cholesky solve");
  inverseIs(a, from2(inv), "Cholesky inverse");
  Elim e = elim(a);
  if (e.ratio > 1e-9L) { L t1 = (L)na1 * e.inv.one(); VF_CHECK(c1 <= t1 * 1.001L && c1 >= t1 * 0.02L && ci <= t1 * 1.001L && ci >= t1 * 0.02L, "condition", "condition numbers %.6g and %.6g, expected about %.6Lg", c1, ci, t1); }
  VF_CHECK(sub(from2(A), a).inf() == 0, "input-written", "Cholesky changed its input");
  vf::event("cholesky");
}
// ---- eigenvalues and singular values ---------------------------------------------------
static void eigen(Rng& r) {
  I n = r.chance(15) ? 1 : r.range(1, 8); M a;
  int kind = r.chance(25) ? Small : r.chance(20) ? Permuted : r.chance(15) ? ZeroRow : Dense;
  bool sym = r.chance(30);
  { vf::Quiet q; a = matrix(r, n, kind, false); if (sym) for (I i = 0; i < n; ++i) for (I j = 0; j < i; ++j) a(j, i) = a(i, j); }
  il::Array2D<double> A = give<il::Array2D<double>>(r, a);
  vf::op("eigenvalues", "order %ld %s", (long)n, kn(kind));
  il::Status s{}; vf::used(s);
  il::Eigen<il::Array2D<double>> f{arg(r, A), il::io, s};
  noXerbla("eigenvalues");
  VF_CHECK(s.Ok(), "no-convergence", "eigenvalues of order %ld are not found", (long)n);
  il::Array<std::complex<double>> w = f.eigenValue();
  VF_CHECK(w.size() == n, "shape", "%ld eigenvalues of a matrix of order %ld", (long)w.size(), (long)n);
  vf::Quiet q;
  L na = a.inf() + 1e-30L, pw = 1;
  M p = eye(n);
  for (I k = 1; k <= n; ++k) {      // power sums determine the multiset
    p = mul(p, a); pw *= na;
    X want(0, 0), got(0, 0);
    for (I i = 0; i < n; ++i) { want += p(i, i); X z(w[i].real(), w[i].imag()), t(1, 0); for (I l = 0; l < k; ++l) t *= z; got += t; }
    VF_CHECK(ab(want - got) <= EPS * 200 * (L)(n * n * k + 1) * pw, "eigenvalues", "sum of the powers %ld of the eigenvalues of a matrix of order %ld is (%.17Lg,%.17Lg), trace %.17Lg", (long)k, (long)n, got.real(), got.imag(), want.real());
  }
  for (I i = 0; i < n; ++i) {       // each shifts the matrix to a nearly singular one
    M t = a; for (I k = 0; k < n; ++k) t(k, k) -= X(w[i].real(), w[i].imag());
    Elim e = elim(t);
    if (e.ratio == 0) continue;
    VF_CHECK(e.inv.inf() >= 1 / (EPS * 500 * (L)(n * n) * na), "eigenvalues", "(%.17g,%.17g) is no eigenvalue of a matrix of order %ld: the shifted matrix has an inverse of norm %.3Lg", w[i].real(), w[i].imag(), (long)n, e.inv.inf());
  }
  vf::event("eigenvalues");
}
template <typename T, I n> void singular(Rng& r) {
  M a; int kind = r.chance(20) ? Small : r.chance(20) ? ZeroCol : r.chance(20) ? Permuted : Dense;
  { vf::Quiet q; a = matrix(r, n, kind, Num<T>::cx); }
  il::StaticArray2D<T, n, n> A;
  for (I i = 0; i < n; ++i) for (I j = 0; j < n; ++j) A(i, j) = Num<T>::mk((double)a(i, j).real(), (double)a(i, j).imag());
  vf::op("singular values", "order %ld %s %s", (long)n, kn(kind), Num<T>::n());
  il::Status s{}; vf::used(s);
  il::StaticArray<double, n> d = il::singularValues(A, il::io, s);
  VF_CHECK(s.Ok(), "no-convergence", "singular values of order %ld are not found", (long)n);
  vf::Quiet q;
  L na = std::sqrt(a.inf() * a.one()) + 1e-30L, pw = 1, prod = 1;
  M g = mul(herm(a), a), p = eye(n);
  for (I k = 1; k <= n; ++k) {
    p = mul(p, g); pw *= na * na;
    L want = 0, got = 0;
    for (I i = 0; i < n; ++i) { want += p(i, i).real(); got += std::pow((L)d[i], (L)(2 * k)); }
    VF_CHECK(std::fabs(want - got) <= EPS * 200 * (L)(n * n * k + 1) * pw, "singular-values", "sum of the powers %ld of the singular values of order %ld is %.17Lg, expected %.17Lg", (long)(2 * k), (long)n, got, want);
  }
  L scale = 1;
  for (I i = 0; i < n; ++i) { VF_CHECK(d[i] >= 0 && (i == 0 || d[i] <= d[i - 1]), "singular-values", "singular values are not in order or negative"); prod *= d[i]; scale *= na; }
  L det = ab(elim(a).det);
  VF_CHECK(std::fabs(prod - det) <= EPS * 200 * (L)(n * n + 1) * scale, "singular-values", "product of the singular values of order %ld is %.17Lg, |determinant| %.17Lg", (long)n, prod, det);
  vf::event("singular-values");
}
// ---- in-place factorizations and triangular solutions on views --------------------------
template <typename T> struct Place : Op<T> {
  void put(Rng& r, const M& a, int part) {   // part 0: all, 1: strictly lower, 2: upper; the rest stays undefined
    this->make(r, a.n0, a.n1, false, false, true);
    for (I j = 0; j < a.n1; ++j) for (I i = 0; i < a.n0; ++i) if (part == 0 || (part == 1 && i > j) || (part == 2 && i <= j)) this->buf[this->at(i, j)] = Num<T>::mk((double)a(i, j).real(), (double)a(i, j).imag());
    vf::Quiet q;
    this->was = this->buf;
  }
  M now() const { M a(this->n0, this->n1); for (I j = 0; j < a.n1; ++j) for (I i = 0; i < a.n0; ++i) a(i, j) = Num<T>::up(this->buf[this->at(i, j)]); return a; }
  il::Array2DView<T> view() const { return il::Array2DView<T>(this->p(), this->n0, this->n1, this->ld, (short)0, (short)0); }
  il::Array2DEdit<T> edit() { return il::Array2DEdit<T>(this->q(), this->n0, this->n1, this->ld, (short)0, (short)0); }
};
template <typename T> M randomM(Rng& r, I a, I b) { M m(a, b); for (X& e : m.v) e = X(r.sym(), Num<T>::cx ? r.sym() : 0); return m; }
template <typename T> void inPlace(Rng& r) {
  I n = order(r, 10);
  if (r.chance(50)) {
    M a; { vf::Quiet q; a = matrix(r, n, r.chance(50) ? Dense : Permuted, Num<T>::cx); }
    Place<T> A; A.put(r, a, 0);
    Place<int> P; { vf::Quiet q; P.put(r, M(n, 1), 0); }
    vf::op("LU in place", "order %ld %s", (long)n, Num<T>::n());
    il::luDecomposition(il::io, il::ArrayEdit<int>(P.q(), n), A.edit());
    noXerbla("LU in place");
    VF_CHECK(A.around() && P.around(), "outside", "LU in place wrote outside its matrix");
    vf::Quiet q;
    M f = A.now(), l = eye(n), u(n, n);
    for (I i = 0; i < n; ++i) for (I j = 0; j < n; ++j) { if (i > j) { l(i, j) = f(i, j); VF_CHECK(ab(f(i, j)) <= 1.5L, "factors", "LU in place does not pivot"); } else u(i, j) = f(i, j); }
    M pa = a;
    for (I i = 0; i < n; ++i) { int k = P.buf[P.at(i, 0)]; VF_CHECK(k > i && k <= n, "factors", "pivot %ld of order %ld is %d", (long)i, (long)n, k); for (I j = 0; j < n; ++j) std::swap(pa(i, j), pa(k - 1, j)); }
    L d = sub(mul(l, u), pa).inf();
    VF_CHECK(d <= EPS * 60 * (L)(n + 3) * a.inf(), "factors", "L.U of order %ld differs from the permuted matrix by %.3Lg", (long)n, d);
    vf::event("lu-in-place");
    return;
  }
  I m = order(r, 10), k = std::min(m, n);
  M a; { vf::Quiet q; a = randomM<T>(r, m, n); }
  Place<T> A, t; A.put(r, a, 0);
  { vf::Quiet q; t.put(r, M(k, 1), 0); }
  vf::op("QR in place", "%ldx%ld %s", (long)m, (long)n, Num<T>::n());
  il::qrDecomposition(il::io, il::ArrayEdit<T>(t.q(), k), A.edit());
  noXerbla("QR in place");
  VF_CHECK(A.around() && t.around(), "outside", "QR in place wrote outside its matrix");
  vf::Quiet q;
  M f = A.now(), Q = eye(m), R(m, n);
  for (I i = 0; i < m; ++i) for (I j = i; j < n; ++j) R(i, j) = f(i, j);
  for (I h = k - 1; h >= 0; --h) {   // Q = H(1) ... H(k), H = I - tau v v^H
    X tau = Num<T>::up(t.buf[t.at(h, 0)]);
    for (I c = 0; c < m; ++c) {
      X s = Q(h, c);
      for (I i = h + 1; i < m; ++i) s += std::conj(f(i, h)) * Q(i, c);
      s *= tau;
      Q(h, c) -= s;
      for (I i = h + 1; i < m; ++i) Q(i, c) -= s * f(i, h);
    }
  }
  L d = sub(mul(Q, R), a).inf(), o = sub(mul(herm(Q), Q), eye(m)).inf();
  VF_CHECK(d <= EPS * 60 * (L)(m + n + 3) * a.inf() && o <= EPS * 60 * (L)(m + 3), "factors", "Q.R of a %ldx%ld matrix differs from it by %.3Lg, Q from orthogonal by %.3Lg", (long)m, (long)n, d, o);
  vf::event("qr-in-place");
}
template <typename T> void triangularSolves(Rng& r) {
  I n = order(r, 10), c = r.range(1, 5);
  M full; { vf::Quiet q; full = randomM<T>(r, n, n); for (I i = 0; i < n; ++i) { for (I j = 0; j < n; ++j) if (i != j) full(i, j) *= 0.5L; full(i, i) += X(full(i, i).real() < 0 ? -1 : 1, 0); } for (X& e : full.v) e = X((double)e.real(), (double)e.imag()); }
  M lo, up; { vf::Quiet q; lo = eye(n); up = M(n, n); for (I i = 0; i < n; ++i) for (I j = 0; j < n; ++j) if (i > j) lo(i, j) = full(i, j); else up(i, j) = full(i, j); }
  M b; { vf::Quiet q; b = randomM<T>(r, n, c); for (X& e : b.v) e = X((double)e.real(), (double)e.imag()); }
  Place<T> A, B; Place<int> P;
  int what = (int)r.below(8);
  bool unit = what == 0 || what == 3 || what == 6;
  A.put(r, full, unit ? 1 : what == 7 ? 0 : 2);
  if (what == 4 || what == 6) { vf::Quiet q; c = 1; b.v.resize((size_t)n); b.n1 = 1; }
  if (what == 5) { vf::Quiet q; b = randomM<T>(r, c, n); }
  B.put(r, b, 0);
  { vf::Quiet q; M pv(n, 1); for (I i = 0; i < n; ++i) pv(i, 0) = X((L)r.range(i + 1, n), 0); P.put(r, pv, 0); }
  il::ArrayView<int> piv{P.p(), n};
  static const char* nm[] = {"lower unit", "upper", "permutation", "permuted lower unit", "upper, one vector", "upper on the right", "permuted lower unit, one vector", "factorization and both triangles"};
  vf::op("triangular solve", "%s, order %ld, %ld columns, %s", nm[what], (long)n, (long)c, Num<T>::n());
  M pb; { vf::Quiet q; pb = b; if (what == 2 || what == 3 || what == 6) for (I i = 0; i < n; ++i) { I k = P.buf[P.at(i, 0)] - 1; for (I j = 0; j < b.n1; ++j) std::swap(pb(i, j), pb(k, j)); } }
  M lhs, tr;
  bool transpose = what == 1 && r.chance(40);
  switch (what) {
    case 0: il::solve(A.view(), il::MatrixType::LowerUnit, il::io, B.edit()); break;
    case 1: if (transpose) il::solve(A.view(), il::MatrixType::UpperNonUnit, il::Dot::Transpose, il::io, B.edit()); else il::solve(A.view(), il::MatrixType::UpperNonUnit, il::io, B.edit()); break;
    case 2: il::solve(piv, il::io, B.edit()); break;
    case 3: il::solve(piv, A.view(), il::MatrixType::LowerUnit, il::io, B.edit()); break;
    case 4: il::solve(A.view(), il::MatrixType::UpperNonUnit, il::io, il::ArrayEdit<T>(B.q(), n)); break;
    case 5: il::solveRight(A.view(), il::MatrixType::UpperNonUnit, il::io, B.edit()); break;
    case 6: il::solve(piv, A.view(), il::MatrixType::LowerUnit, il::io, il::ArrayEdit<T>(B.q(), n)); break;
    default: {   // the whole solution of a general system with the pieces
      il::luDecomposition(il::io, il::ArrayEdit<int>(P.q(), n), A.edit());
      il::solve(piv, A.view(), il::MatrixType::LowerUnit, il::io, B.edit());
      il::solve(A.view(), il::MatrixType::UpperNonUnit, il::io, B.edit());
      A.was = A.buf; P.was = P.buf;
    }
  }
  noXerbla(nm[what]);
  VF_CHECK(A.untouched() && P.untouched(), "input-written", "triangular solve (%s) changed an input", nm[what]);
  VF_CHECK(B.around(), "outside", "triangular solve (%s) wrote outside its right-hand side", nm[what]);
  vf::Quiet q;
  M x = B.now();
  switch (what) {
    case 0: case 3: case 6: residual(lo, x, pb, nm[what]); break;
    case 1: case 4: residual(transpose ? trans(up) : up, x, b, nm[what]); break;
    case 2: VF_CHECK(sub(x, pb).inf() == 0, "permutation", "rows are interchanged otherwise than the pivots say"); break;
    case 5: residual(trans(up), trans(x), trans(b), nm[what]); break;
    default: residual(full, x, b, nm[what]);
  }
  vf::event("triangular-solves");
  if (transpose) vf::event("transposed-solve");
}
#ifndef VF_PART
void vf_case(Rng& r, uint64_t) {
  g_xerbla = 0;
  switch (r.below(22)) {
    case 0: case 1: general<il::Array2D<double>>(r, "column-major system"); break;
    case 2: case 3: general<il::Array2C<double>>(r, "row-major system"); break;
    case 4: case 5: band(r); break;
    case 6: case 7: tridiagonal(r); break;
    case 8: case 9: case 10: lu(r); break;
    case 11: switch (r.below(4)) { case 0: staticLu<double, 1>(r); break; case 1: staticLu<double, 2>(r); break; case 2: staticLu<double, 3>(r); break; default: staticLu<double, 6>(r); } break;
    case 12: switch (r.below(4)) { case 0: staticLu<std::complex<double>, 1>(r); break; case 1: staticLu<std::complex<double>, 2>(r); break; case 2: staticLu<std::complex<double>, 3>(r); break; default: staticLu<std::complex<double>, 6>(r); } break;
    case 13: case 14: cholesky(r); break;
    case 15: case 16: eigen(r); break;
    case 17: switch (r.below(6)) { case 0: singular<double, 1>(r); break; case 1: singular<double, 2>(r); break; case 2: singular<double, 4>(r); break; case 3: singular<std::complex<double>, 1>(r); break; case 4: singular<std::complex<double>, 2>(r); break; default: singular<std::complex<double>, 4>(r); } break;
    case 18: inPlace<double>(r); break;
    case 19: inPlace<std::complex<double>>(r); break;
    case 20: triangularSolves<double>(r); break;
    default: triangularSolves<std::complex<double>>(r);
  }
  vf::nontrivial();
}
#else
// A07: systems whose shapes do not fit are refused before LAPACK or BLAS see them
template <typename F> static bool refused(F f) { try { f(); } catch (const il::AbortException&) { return true; } return false; }
template <typename T> static bool placed(Rng& r, std::string& label) {
  // in place on views: every operand has to be as it was after the refusal
  I n = r.range(1, 6), c = r.range(1, 4), e = r.range(1, 3);
  M full; { vf::Quiet q; full = randomM<T>(r, n + 4, n + 4); }
  Place<T> A, B; Place<int> P;
  A.put(r, full, 0); B.put(r, full, 0);
  { vf::Quiet q; M pv(n + 4, 1); for (I i = 0; i < n + 4; ++i) pv(i, 0) = X((L)r.range(1, n), 0); P.put(r, pv, 0); }
  auto av = [&](I i, I j) { return il::Array2DView<T>(A.p(), i, j, A.ld, (short)0, (short)0); };
  auto ae = [&](I i, I j) { return il::Array2DEdit<T>(A.q(), i, j, A.ld, (short)0, (short)0); };
  auto be = [&](I i, I j) { return il::Array2DEdit<T>(B.q(), i, j, B.ld, (short)0, (short)0); };
  auto bv = [&](I i) { return il::ArrayEdit<T>(B.q(), i); };
  auto pv = [&](I i) { return il::ArrayView<int>(P.p(), i); };
  auto pe = [&](I i) { return il::ArrayEdit<int>(P.q(), i); };
  bool less = r.chance(50) && n > 1;
  I o = less ? n - 1 : n + e;           // a size that does not fit
  if (o > n + 4) o = n + 4;
  const il::MatrixType up = il::MatrixType::UpperNonUnit, lo = il::MatrixType::LowerUnit;
  const il::MatrixType none[] = {il::MatrixType::Regular, il::MatrixType::LowerNonUnit, il::MatrixType::UpperUnit};
  il::MatrixType odd = none[r.below(3)];
  int w = (int)r.below(25);
  vf::sig((uint64_t)(w * 1000 + n * 10 + c));
  bool bad = false;
  static const char* names[] = {"lu: not square", "lu: pivots", "qr: scalars", "pivots: rows", "triangle: not square", "triangle: rows", "triangle: type", "transposed: not square", "transposed: rows", "transposed: type",
    "transposed: operation", "permuted: pivots", "permuted: not square", "permuted: rows", "permuted: type", "vector: not square", "vector: size", "vector: type", "right: not square", "right: columns", "right: type",
    "permuted vector: pivots", "permuted vector: not square", "permuted vector: size", "permuted vector: type"};
  label = names[w];
  vf::op("misuse of a solver", "%s, %s, order %ld, other size %ld, %ld columns", names[w], Num<T>::n(), (long)n, (long)o, (long)c);
  switch (w) {
    case 0: bad = refused([&] { if (r.chance(50)) il::luDecomposition(il::io, pe(n), ae(n, o)); else il::luDecomposition(il::io, pe(o), ae(n, o)); }); break;
    case 1: bad = refused([&] { il::luDecomposition(il::io, pe(o), ae(n, n)); }); break;
    case 2: bad = refused([&] { I m = n + r.range(0, 3), k = n; if (r.chance(50)) std::swap(m, k); il::qrDecomposition(il::io, bv(o), ae(m, k)); }); break;
    case 3: bad = refused([&] { il::solve(pv(o), il::io, be(n, c)); }); break;
    case 4: bad = refused([&] { il::solve(av(n, o), r.chance(50) ? up : lo, il::io, be(n, c)); }); break;
    case 5: bad = refused([&] { il::solve(av(n, n), r.chance(50) ? up : lo, il::io, be(o, c)); }); break;
    case 6: bad = refused([&] { il::solve(av(n, n), odd, il::io, be(n, c)); }); break;
    case 7: bad = refused([&] { il::solve(av(n, o), up, il::Dot::Transpose, il::io, be(n, c)); }); break;
    case 8: bad = refused([&] { il::solve(av(n, n), up, il::Dot::Transpose, il::io, be(o, c)); }); break;
    case 9: bad = refused([&] { il::solve(av(n, n), r.chance(50) ? lo : odd, il::Dot::Transpose, il::io, be(n, c)); }); break;
    case 10: bad = refused([&] { il::solve(av(n, n), up, r.chance(50) ? il::Dot::None : il::Dot::Star, il::io, be(n, c)); }); break;
    case 11: bad = refused([&] { il::solve(pv(o), av(n, n), lo, il::io, be(n, c)); }); break;
    case 12: bad = refused([&] { il::solve(pv(n), av(n, o), lo, il::io, be(n, c)); }); break;
    case 13: bad = refused([&] { il::solve(pv(n), av(n, n), lo, il::io, be(o, c)); }); break;
    case 14: bad = refused([&] { il::solve(pv(n), av(n, n), r.chance(50) ? up : odd, il::io, be(n, c)); }); break;
    case 15: bad = refused([&] { il::solve(av(n, o), up, il::io, bv(n)); }); break;
    case 16: bad = refused([&] { il::solve(av(n, n), up, il::io, bv(o)); }); break;
    case 17: bad = refused([&] { il::solve(av(n, n), r.chance(50) ? lo : odd, il::io, bv(n)); }); break;
    case 18: bad = refused([&] { il::solveRight(av(n, o), up, il::io, be(c, n)); }); break;
    case 19: bad = refused([&] { il::solveRight(av(n, n), up, il::io, be(c, o)); }); break;
    case 20: bad = refused([&] { il::solveRight(av(n, n), r.chance(50) ? lo : odd, il::io, be(c, n)); }); break;
    case 21: bad = refused([&] { il::solve(pv(o), av(n, n), lo, il::io, bv(n)); }); break;
    case 22: bad = refused([&] { il::solve(pv(n), av(n, o), lo, il::io, bv(n)); }); break;
    case 23: bad = refused([&] { il::solve(pv(n), av(n, n), lo, il::io, bv(o)); }); break;
    default: bad = refused([&] { il::solve(pv(n), av(n, n), r.chance(50) ? up : odd, il::io, bv(n)); });
  }
  VF_CHECK(A.untouched() && B.untouched() && P.untouched(), "refused-wrote", "a refused call (%s) changed memory", names[w]);
  return bad;
}
static bool owned(Rng& r, std::string& label) {
  I n = r.range(1, 6), e = r.range(1, 3);
  I o = r.chance(50) && n > 1 ? n - 1 : n + e;
  auto sq = [&](I a, I b) { il::Array2D<double> m{a, b, 0.0}; if (r.chance(40)) m.Reserve(a + r.range(0, 3), b + r.range(0, 3)); for (I j = 0; j < b; ++j) for (I i = 0; i < a; ++i) m(i, j) = r.sym() + (i == j ? 4 : 0); return m; };
  auto ve = [&](I a) { il::Array<double> v{a, 1.0}; if (r.chance(50)) v.Reserve(n + 4); return v; };
  int w = (int)r.below(19);
  vf::sig((uint64_t)(w * 1000 + n * 10 + o));
  static const char* names[] = {"linearSolve: not square", "linearSolve: right-hand side", "row-major linearSolve: not square", "row-major linearSolve: right-hand side", "banded: right-hand side", "tridiagonal: right-hand side", "LU solve: not square",
    "LU solve: size", "LU solve: rows", "LU inverse: not square", "LU determinant: not square", "LU condition: not square", "LU condition: norm", "Cholesky: not square", "Cholesky solve: size", "Cholesky condition: norm", "Eigen: not square",
    "weighted norm", "LU after failure"};
  label = names[w];
  vf::op("misuse of a factorization", "%s, order %ld, other size %ld", names[w], (long)n, (long)o);
  il::Status s{}; vf::used(s);
  bool bad = false;
  il::Norm odd = r.chance(50) ? il::Norm::L2 : il::Norm::Linf;
  if (w == 12 || w == 15) odd = il::Norm::L2;
  il::Array2D<double> A = sq(n, n), R = r.chance(50) ? sq(n, o) : sq(o, n);
  switch (w) {
    case 0: bad = refused([&] { il::linearSolve(R, ve(r.chance(50) ? R.size(0) : R.size(1)), il::io, s); }); break;
    case 1: bad = refused([&] { il::linearSolve(A, ve(o), il::io, s); }); break;
    case 2: bad = refused([&] { il::Array2C<double> C{R.size(0), R.size(1), 1.0}; il::linearSolve(C, ve(r.chance(50) ? R.size(0) : R.size(1)), il::io, s); }); break;
    case 3: bad = refused([&] { il::Array2C<double> C{n, n, 1.0}; il::linearSolve(C, ve(o), il::io, s); }); break;
    case 4: bad = refused([&] { il::BandArray2C<double> C{n, 0}; for (I i = 0; i < n; ++i) C(i, 0) = 2; il::linearSolve(C, ve(o), il::io, s); }); break;
    case 5: bad = refused([&] { il::TriDiagonal<double> C{n}; for (I i = 0; i < n; ++i) { C(i, 0) = 2; if (i > 0) C(i, -1) = 1; if (i + 1 < n) C(i, 1) = 1; } il::linearSolve(C, ve(o), il::io, s); }); break;
    case 6: case 9: case 10: case 11: {
      il::LU<il::Array2D<double>> f{R, il::io, s}; bool ok = s.Ok();
      if (!ok || R.size(0) == 0 || R.size(1) == 0) return true;
      bad = refused([&] { switch (w) { case 6: if (r.chance(50)) f.solve(ve(r.chance(50) ? R.size(0) : R.size(1))); else f.solve(sq(R.size(0), 2)); break; case 9: f.inverse(); break; case 10: { volatile double d = f.determinant(); (void)d; } break; default: { volatile double d = f.conditionNumber(il::Norm::L1, 1.0); (void)d; } } });
      break; }
    case 7: case 8: case 12: {
      il::LU<il::Array2D<double>> f{A, il::io, s}; bool ok = s.Ok();
      if (!ok) return true;
      bad = refused([&] { if (w == 7) f.solve(ve(o)); else if (w == 8) f.solve(sq(o, r.range(1, 3))); else { volatile double d = f.conditionNumber(odd, 1.0); (void)d; } });
      break; }
    case 13: bad = refused([&] { il::Cholesky<il::Array2D<double>> f{R, il::io, s}; }); break;
    case 14: case 15: {
      il::Array2D<double> D{n, n, 0.0}; for (I i = 0; i < n; ++i) D(i, i) = 2;
      il::Cholesky<il::Array2D<double>> f{D, il::io, s}; bool ok = s.Ok();
      if (!ok) return false;
      bad = refused([&] { if (w == 14) f.solve(ve(o)); else { volatile double d = f.conditionNumber(odd, 1.0); (void)d; } });
      break; }
    case 16: bad = refused([&] { il::Eigen<il::Array2D<double>> f{R, il::io, s}; }); break;
    case 17: bad = refused([&] { il::Norm k[] = {il::Norm::L1, il::Norm::L2, il::Norm::Linf}; volatile double d = il::norm(ve(n), k[r.below(3)], ve(o)); (void)d; }); break;
    default: {
      for (I i = 0; i < n; ++i) A(i, 0) = 0;
      il::LU<il::Array2D<double>> f{A, il::io, s};
      if (s.Ok()) return false;
      VF_CHECK(f.size(0) == 0 && f.size(1) == 0, "failed-factors", "a factorization that failed has the size %ldx%ld", (long)f.size(0), (long)f.size(1));
      bad = refused([&] { f.solve(ve(n)); }); }
  }
  return bad;
}
void vf_case(Rng& r, uint64_t) {
  g_xerbla = 0;
  std::string label; { vf::Quiet q; label.reserve(64); }
  bool bad;
  switch (r.below(4)) {
    case 0: bad = placed<double>(r, label); break;
    case 1: bad = placed<std::complex<double>>(r, label); break;
    default: bad = owned(r, label);
  }
  VF_CHECK(bad, "accepted", "a call whose operands do not fit (%s) is not refused", label.c_str());
  VF_CHECK(g_xerbla == 0, "accepted", "a call whose operands do not fit (%s) reached LAPACK", label.c_str());
  vf::event("rejections"); vf::event("contract-dense");
  vf::nontrivial();
}
#endif
