// L03: compressed-row matrices, their construction, norms and products against a dense model in
// long double.
#include "vfil.h"
#include <map>
#include <il/Array.h>
#include <il/SmallArray.h>
#include <il/StaticArray.h>
#include <il/SparseMatrixCSR.h>
#include <il/linearAlgebra/sparse/blas/sparseBlas.h>
#include <il/linearAlgebra/sparse/blas/sparseDot.h>
#include "dense.h"
typedef long double L;
static const L EPS = 2.220446049250313e-16L;

struct Pat {  // pattern with values, row after row
  I n0, n1; std::vector<std::vector<std::pair<I, double>>> row;
  I nnz() const { I s = 0; for (auto& x : row) s += (I)x.size(); return s; }
};
static bool g_large = false;  // a case with large matrices
static I g_max = 0;
// an order up to n; a large one in some cases
static I ord(Rng& r, I lo, I n) { return g_large && r.chance(70) ? std::max<I>(lo, r.mark(g_max)) : r.range(lo, n); }
static Pat pattern(Rng& r, I n0, I n1, bool exact, bool sorted) {
  vf::Quiet q;
  Pat p; p.n0 = n0; p.n1 = n1; p.row.resize((size_t)n0);
  int dens = (int)r.below(4);
  if (n0 > 60 || n1 > 60) {  // some elements a row, a few rows are full
    if (dens == 3 && n0 * n1 > 40000) dens = 2;
    std::vector<char> seen((size_t)n1, 0);
    for (I i = 0; i < n0; ++i) {
      I k = dens == 0 ? 0 : dens == 1 ? (I)r.below(2) : dens == 2 ? (I)r.below(6) : (I)r.below((uint64_t)n1 + 1);
      if (r.below(200) == 0) k = n1;
      if (r.chance(10)) k = 0;
      k = std::min(k, n1);
      auto& row = p.row[(size_t)i];
      std::vector<I> c;
      if (k > n1 / 2) { for (I j = 0; j < n1; ++j) c.push_back(j); for (I j = n1 - 1; j > 0; --j) std::swap(c[(size_t)j], c[(size_t)r.below((uint64_t)j + 1)]); c.resize((size_t)k); }
      else while ((I)c.size() < k) { I j = (I)r.below((uint64_t)n1); if (!seen[(size_t)j]) { seen[(size_t)j] = 1; c.push_back(j); } }
      for (I j : c) seen[(size_t)j] = 0;
      if (sorted) std::sort(c.begin(), c.end());
      for (I j : c) row.push_back({j, value<double>(r, exact)});
    }
    vf::event("large");
    return p;
  }
  for (I i = 0; i < n0; ++i) {
    I k = n1 == 0 ? 0 : dens == 0 ? 0 : dens == 1 ? (I)r.below(2) : dens == 2 ? (I)r.below((uint64_t)std::min<I>(n1, 5) + 1) : (I)r.below((uint64_t)n1 + 1);
    if (r.chance(10)) k = n1;
    if (r.chance(10)) k = 0;
    std::vector<I> c; for (I j = 0; j < n1; ++j) c.push_back(j);
    for (I j = n1 - 1; j > 0; --j) std::swap(c[(size_t)j], c[(size_t)r.below((uint64_t)j + 1)]);
    c.resize((size_t)k);
    if (sorted) std::sort(c.begin(), c.end());
    for (I j : c) p.row[(size_t)i].push_back({j, value<double>(r, exact)});
  }
  return p;
}
template <typename N, typename T> il::SparseMatrixCSR<N, T> build(const Pat& p, int how) {
  if (how == 0) {
    il::Array<N> col{p.nnz()}, row{p.n0 + 1};
    il::Array<T> el{p.nnz()};
    I k = 0; row[0] = 0;
    for (I i = 0; i < p.n0; ++i) { for (auto& e : p.row[(size_t)i]) { col[k] = (N)e.first; el[k] = (T)e.second; ++k; } row[i + 1] = (N)k; }
    return il::SparseMatrixCSR<N, T>{p.n0, p.n1, std::move(col), std::move(row), std::move(el)};
  }
  if (how == 1) {
    il::Array<N> col{p.nnz()}, row{p.n0 + 1};
    I k = 0; row[0] = 0;
    for (I i = 0; i < p.n0; ++i) { for (auto& e : p.row[(size_t)i]) col[k++] = (N)e.first; row[i + 1] = (N)k; }
    il::SparseMatrixCSR<N, T> a{p.n0, p.n1, col, row};
    k = 0;
    for (I i = 0; i < p.n0; ++i) for (auto& e : p.row[(size_t)i]) a[k++] = (T)e.second;
    return a;
  }
  il::Array<il::SmallArray<N, 3>> c{p.n0};
  for (I i = 0; i < p.n0; ++i) { c[i].Resize((I)p.row[(size_t)i].size()); I k = 0; for (auto& e : p.row[(size_t)i]) c[i][k++] = (N)e.first; }
  il::SparseMatrixCSR<N, T> a{p.n1, p.n0, c};
  for (I i = 0; i < p.n0; ++i) { I k = 0; for (auto& e : p.row[(size_t)i]) a(i, k++) = (T)e.second; }
  return a;
}
template <typename N, typename T> void same(const il::SparseMatrixCSR<N, T>& a, const Pat& p, const char* what) {
  vf::Quiet q;
  VF_CHECK(a.size(0) == p.n0 && a.size(1) == p.n1, "size", "%s: %ldx%ld for %ldx%ld", what, (long)a.size(0), (long)a.size(1), (long)p.n0, (long)p.n1);
  VF_CHECK(a.nbNonZeros() == p.nnz(), "nonzeros", "%s: %ld stored elements for %ld", what, (long)a.nbNonZeros(), (long)p.nnz());
  VF_CHECK(a.row(0) == 0 && (I)a.row(p.n0) == p.nnz(), "rows", "%s: rows from %ld to %ld", what, (long)a.row(0), (long)a.row(p.n0));
  I k = 0;
  for (I i = 0; i < p.n0; ++i) {
    VF_CHECK((I)a.row(i) == k && a.rowData()[i] == a.row(i), "rows", "%s: row %ld starts at %ld instead of %ld", what, (long)i, (long)a.row(i), (long)k);
    I m = 0;
    for (auto& e : p.row[(size_t)i]) {
      VF_CHECK((I)a.column(k) == e.first && a.columnData()[k] == a.column(k), "columns", "%s: element %ld of row %ld at column %ld instead of %ld", what, (long)m, (long)i, (long)a.column(k), (long)e.first);
      T v = (T)e.second;
      VF_CHECK(a[k] == v && a.element(k) == v && a(i, m) == v && a.elementData()[k] == v, "elements", "%s: element %ld of row %ld is %.17g instead of %.17g", what, (long)m, (long)i, (double)a[k], e.second);
      ++k; ++m;
    }
  }
}

template <typename N> void positions(Rng& r) {
  g_max = 3000;
  I n = r.chance(10) ? 0 : ord(r, 1, 12);
  std::vector<std::pair<I, I>> at; std::vector<double> v;
  il::Array<il::StaticArray<N, 2>> pos;
  {
    vf::Quiet q;
    I m = n == 0 ? 0 : r.chance(10) ? 0 : g_large ? r.mark(10000) : r.range(1, 60);
    I hot = n ? r.below((uint64_t)n) : 0;
    for (I l = 0; l < m; ++l) {
      I i = r.chance(30) ? hot : (I)r.below((uint64_t)n), j = (I)r.below((uint64_t)n);
      if (l > 0 && r.chance(15)) { auto& o = at[(size_t)r.below((uint64_t)l)]; i = o.first; j = o.second; }
      if (r.chance(15)) j = i;
      at.push_back({i, j}); v.push_back((double)r.range(-9, 9));
    }
    if (r.chance(25)) { std::sort(at.begin(), at.end()); if (r.chance(50)) std::reverse(at.begin(), at.end()); }
    vf::op("assemble", "order %ld from %ld positions", (long)n, (long)m);
    vf::sig((uint64_t)n * 64 + (uint64_t)m);
    vf::sig((uint64_t)hot);
    if (g_large) vf::event("large-assembled");
  }
  pos.Resize((I)at.size());
  for (I l = 0; l < (I)at.size(); ++l) { pos[l][0] = (N)at[(size_t)l].first; pos[l][1] = (N)at[(size_t)l].second; }
  const il::Array<il::StaticArray<N, 2>>& cpos = pos;
  il::Array<N> index{(I)r.below(3)};
  il::SparseMatrixCSR<N, double> a{n, cpos, il::io, index};
  vf::Quiet q;
  std::map<std::pair<I, I>, double> d;
  for (size_t l = 0; l < at.size(); ++l) d[at[l]] += v[l];
  Pat p; p.n0 = p.n1 = n; p.row.resize((size_t)n);
  for (auto& e : d) p.row[(size_t)e.first.first].push_back({e.first.second, 0.0});
  same(a, p, "assembled");
  for (I l = 0; l < (I)at.size(); ++l) VF_CHECK(pos[l][0] == (N)at[(size_t)l].first && pos[l][1] == (N)at[(size_t)l].second, "input-changed", "the list of positions has changed");
  VF_CHECK(index.size() == (I)at.size(), "index", "%ld indices for %ld positions", (long)index.size(), (long)at.size());
  for (I l = 0; l < index.size(); ++l) {
    I k = (I)index[l];
    VF_CHECK(k >= 0 && k < a.nbNonZeros(), "index", "position %ld is the stored element %ld of %ld", (long)l, (long)k, (long)a.nbNonZeros());
    VF_CHECK((I)a.column(k) == at[(size_t)l].second && (I)a.row(at[(size_t)l].first) <= k && k < (I)a.row(at[(size_t)l].first + 1), "index", "position %ld points to another element", (long)l);
    a[k] += v[(size_t)l];
  }
  for (I i = 0; i < n; ++i) for (auto& e : p.row[(size_t)i]) e.second = d[{i, e.first}];
  same(a, p, "accumulated");
  vf::event("positions");
  if (n == 0) vf::event("empty-matrix");
  vf::nontrivial();
}

template <typename N, typename T> void roundtrip(Rng& r) {
  g_max = 1500;
  I n0 = ord(r, 0, 8), n1 = ord(r, 0, 8);
  int how = (int)r.below(3);
  Pat p = pattern(r, n0, n1, true, r.chance(50));
  vf::op("build", "%ldx%ld with %ld elements, way %d", (long)n0, (long)n1, (long)p.nnz(), how);
  vf::sig((uint64_t)(n0 * 9 + n1) * 3 + (uint64_t)how); vf::sig((uint64_t)p.nnz());
  il::SparseMatrixCSR<N, T> a = build<N, T>(p, how);
  same(a, p, "built");
  il::SparseMatrixCSR<N, T> b{a};
  il::SparseMatrixCSR<N, T> c{};
  VF_CHECK(c.size(0) == 0 && c.size(1) == 0 && c.nbNonZeros() == 0, "default", "a default matrix is not empty");
  c = b;
  if (b.nbNonZeros() > 0) { I k = (I)r.below((uint64_t)b.nbNonZeros()); b.ElementData()[k] = (T)77; VF_CHECK(b[k] == (T)77, "elements", "an element written through the raw data is not the one read"); }
  same(a, p, "after a change of its copy"); same(c, p, "assigned");
  il::SparseMatrixCSR<N, T> m{std::move(c)};
  same(m, p, "moved");
  vf::event("built");
  vf::nontrivial();
}

template <typename N> void rowNorm(Rng& r) {
  g_max = 1500;
  I n0 = ord(r, 0, 9), n1 = ord(r, 0, 9);
  Pat p = pattern(r, n0, n1, false, r.chance(50));
  vf::op("norm", "%ldx%ld with %ld elements", (long)n0, (long)n1, (long)p.nnz());
  vf::sig((uint64_t)(n0 * 16 + n1)); vf::sig((uint64_t)p.nnz());
  il::SparseMatrixCSR<N, double> a = build<N, double>(p, 0);
  il::Array<double> beta{n0}, alpha{n1};
  for (I i = 0; i < n0; ++i) beta[i] = r.chance(20) ? -2.0 : 0.5 + r.unit();
  for (I i = 0; i < n1; ++i) alpha[i] = r.chance(20) ? -2.0 : 0.5 + r.unit();
  double got = il::norm(a, il::Norm::Linf, beta, alpha);
  L want = 0;
  for (I i = 0; i < n0; ++i) { L s = 0; for (auto& e : p.row[(size_t)i]) s += std::fabs((L)e.second * alpha[e.first] / beta[i]); want = std::max(want, s); }
  VF_CHECK(std::fabs((L)got - want) <= (40 + (L)n1) * EPS * want, "norm", "norm %.17g instead of %.17Lg", got, want);
  same(a, p, "after the norm");
  vf::event("norm");
  if (n0 != n1) vf::event("rectangular");
  vf::nontrivial();
}

template <typename T> struct Vec { Op<T> o; };
template <typename T, typename Mat> void product(Rng& r, Mat& a, const Pat& p, int how, bool exact) {
  typedef il::Array<T> A;
  A x{p.n1}, y{p.n0};
  std::vector<L> mx((size_t)p.n1), my((size_t)p.n0);
  for (I j = 0; j < p.n1; ++j) { x[j] = value<T>(r, exact); mx[(size_t)j] = x[j]; }
  for (I i = 0; i < p.n0; ++i) { y[i] = value<T>(r, exact); my[(size_t)i] = y[i]; }
  T alpha = coef<T>(r, exact), beta = coef<T>(r, exact);
  { vf::Quiet q; vf::op("sparse product", "%ldx%ld with %ld elements, way %d, %g and %g", (long)p.n0, (long)p.n1, (long)p.nnz(), how, (double)alpha, (double)beta); }
  vf::sig((uint64_t)(p.n0 * 64 + p.n1) * 8 + (uint64_t)how); vf::sig((uint64_t)p.nnz());
  if (beta == T(0) && r.chance(60)) { for (I i = 0; i < p.n0; ++i) { y[i] = std::numeric_limits<T>::quiet_NaN(); my[(size_t)i] = 0; } vf::event("overwritten"); }
  const A& cx = x;
  A keep{y};
  il::blas(alpha, a, cx, beta, il::io, y);
  vf::Quiet q;
  L eps = sizeof(T) == 4 ? 1.2e-7L : EPS;
  for (I j = 0; j < p.n1; ++j) VF_CHECK((L)x[j] == mx[(size_t)j], "input-changed", "x has changed");
  VF_CHECK(y.size() == p.n0, "size", "y has changed of size");
  for (I i = 0; i < p.n0; ++i) {
    L s = 0, w = 0;
    for (auto& e : p.row[(size_t)i]) { L t = (L)(T)e.second * mx[(size_t)e.first]; s += t; w += std::fabs(t); }
    L want = alpha * s + beta * my[(size_t)i], tol = exact ? 0 : eps * (60 + (L)p.n1) * (std::fabs((L)alpha) * w + std::fabs((L)beta * my[(size_t)i]) + 1e-30L);
    VF_CHECK(std::fabs((L)y[i] - want) <= tol, "product", "row %ld: %.17g instead of %.17Lg (alpha %g, beta %g, y %g)", (long)i, (double)y[i], want, (double)alpha, (double)beta, (double)keep[i]);
  }
  vf::event("product");
}
static void products(Rng& r) {
  g_max = 3000;
  I n0 = ord(r, 0, 40), n1 = ord(r, 0, 40);
  bool exact = r.chance(50);
  Pat p = pattern(r, n0, n1, exact, r.chance(50));
  int how = (int)r.below(4);
  if (how == 0) { il::SparseMatrixCSR<int, double> a = build<int, double>(p, 0); product<double>(r, a, p, how, exact); same(a, p, "after the product"); }
  else if (how == 1) { il::SparseMatrixCSR<I, double> a = build<I, double>(p, 0); product<double>(r, a, p, how, exact); same(a, p, "after the product"); }
  else {
    // MKL wants at least one row, one column and one stored element
    if (n0 == 0 || n1 == 0) { p = pattern(r, n0 + 1, n1 + 1, exact, r.chance(50)); }
    if (p.nnz() == 0) { vf::Quiet q; p.row[(size_t)r.below((uint64_t)p.n0)].push_back({(I)r.below((uint64_t)p.n1), value<double>(r, exact)}); }
    I times = r.range(1, 3);
    if (how == 2) {
      il::SparseMatrixCSR<int, double> a = build<int, double>(p, 0);
      { il::SparseMatrixBlas<int, double> h{il::io, a}; if (r.chance(40)) h.setNbMatrixVector(r.range(1, 50)); for (I t = 0; t < times; ++t) product<double>(r, h, p, how, exact); }
      same(a, p, "after the product");
      vf::event("optimized");
    } else {
      il::SparseMatrixCSR<int, float> a = build<int, float>(p, 0);
      { il::SparseMatrixBlas<int, float> h{il::io, a}; if (r.chance(40)) h.setNbMatrixVector(r.range(1, 50)); for (I t = 0; t < times; ++t) product<float>(r, h, p, how, exact); }
      same(a, p, "after the product");
      vf::event("optimized-float");
    }
  }
  vf::nontrivial();
}
static void sparseProduct(Rng& r) {
  g_max = 400;
  I m = ord(r, 1, 14), k = ord(r, 1, 14), n = ord(r, 1, 14);
  bool exact = r.chance(60), twin = r.chance(20);
  if (twin) k = n = m;
  Pat pa = pattern(r, m, k, exact, true), pb = twin ? pa : pattern(r, k, n, exact, true);
  vf::op("product of sparse matrices", "%ldx%ld (%ld) by %ldx%ld (%ld)%s", (long)m, (long)k, (long)pa.nnz(), (long)k, (long)n, (long)pb.nnz(), twin ? ", the same" : "");
  vf::sig((uint64_t)((m * 16 + k) * 16 + n)); vf::sig((uint64_t)(pa.nnz() * 200 + pb.nnz()));
  il::SparseMatrixCSR<int, double> a = build<int, double>(pa, 0), b = build<int, double>(pb, 0);
  il::SparseMatrixCSR<int, double> c = twin ? il::dot(il::io, a, a) : il::dot(il::io, a, b);
  same(a, pa, "first operand"); same(b, pb, "second operand");
  vf::Quiet q;
  VF_CHECK(c.size(0) == m && c.size(1) == n, "size", "the product is %ldx%ld", (long)c.size(0), (long)c.size(1));
  std::vector<L> d((size_t)(m * n)), w((size_t)(m * n)), g((size_t)(m * n));
  for (I i = 0; i < m; ++i) for (auto& e : pa.row[(size_t)i]) for (auto& f : pb.row[(size_t)e.first]) { L t = (L)e.second * f.second; d[(size_t)(i * n + f.first)] += t; w[(size_t)(i * n + f.first)] += std::fabs(t); }
  VF_CHECK(c.row(0) == 0 && c.row(m) == c.nbNonZeros(), "rows", "rows of the product from %d to %d for %ld elements", c.row(0), c.row(m), (long)c.nbNonZeros());
  for (I i = 0; i < m; ++i) {
    VF_CHECK(c.row(i) <= c.row(i + 1), "rows", "rows of the product go backwards");
    for (int l = c.row(i); l < c.row(i + 1); ++l) { I j = c.column(l); VF_CHECK(j >= 0 && j < n, "columns", "column %ld in a product of width %ld", (long)j, (long)n); g[(size_t)(i * n + j)] += c[l]; }
  }
  for (size_t t = 0; t < d.size(); ++t) VF_CHECK(std::fabs(g[t] - d[t]) <= (exact ? 0 : (60 + (L)k) * EPS * w[t]), "product", "entry (%zu, %zu): %.17Lg instead of %.17Lg", t / (size_t)n, t % (size_t)n, g[t], d[t]);
  vf::event("sparse-sparse");
  if (twin) vf::event("square-of-itself");
  vf::nontrivial();
}

#ifndef VF_PART
void vf_case(Rng& r, uint64_t) {
  g_xerbla = 0;
  g_large = r.below(100) == 0;
  switch (r.below(10)) {
    case 0: case 1: positions<int>(r); break;
    case 2: case 3: positions<I>(r); break;
    case 4: switch (r.below(4)) { case 0: roundtrip<int, double>(r); break; case 1: roundtrip<I, double>(r); break; case 2: roundtrip<int, float>(r); break; default: roundtrip<I, float>(r); } break;
    case 5: if (r.chance(50)) rowNorm<int>(r); else rowNorm<I>(r); break;
    case 6: case 7: products(r); break;
    default: sparseProduct(r);
  }
  VF_CHECK(g_xerbla == 0, "blas-argument", "argument %d of %s is wrong", g_xerbla, g_xname);
}
#else
template <typename F> static bool refused(F f) { try { f(); } catch (const il::AbortException&) { return true; } return false; }
template <typename N> static bool wrongProduct(Rng& r, I n0, I n1) {
  il::SparseMatrixCSR<N, double> a = build<N, double>(pattern(r, n0, n1, true, true), 0);
  I dx = r.range(-2, 2), dy = dx == 0 ? (r.chance(50) ? 1 : -1) : r.range(-1, 1);
  il::Array<double> x{std::max<I>(0, n1 + dx), 1.0}, y{std::max<I>(0, n0 + dy), 2.0};
  if (x.size() == n1 && y.size() == n0) return true;
  bool bad = refused([&] { il::blas(1.0, a, x, 1.0, il::io, y); });
  for (I i = 0; i < y.size(); ++i) VF_CHECK(y[i] == 2.0, "refused-wrote", "a refused call changed memory");
  return bad;
}
void vf_case(Rng& r, uint64_t) {
  I n0 = r.range(1, 8), n1 = r.range(1, 8);
  int w = (int)r.below(5);
  vf::op("sparse misuse", "%d %ldx%ld", w, (long)n0, (long)n1);
  bool bad = false;
  if (w == 0) bad = r.chance(50) ? wrongProduct<int>(r, n0, n1) : wrongProduct<I>(r, n0, n1);
  else if (w == 1) {
    I d = r.chance(50) ? 1 : -1;
    bad = refused([&] { il::Array<int> col{0}, row{n0 + 1 + d, 0}; il::SparseMatrixCSR<int, double> a{n0, n1, col, row}; });
  } else if (w == 2) {
    il::SparseMatrixCSR<I, double> a = build<I, double>(pattern(r, n0, n1, true, true), 0);
    I i = r.range(-1, n0), k = (i < 0 || i >= n0) ? 0 : r.chance(50) ? -1 : a.row(i + 1) - a.row(i) + (I)r.below(2);
    bad = refused([&] { if (r.chance(50)) { a(i, k) = 1; } else { const il::SparseMatrixCSR<I, double>& c = a; volatile double z = c(i, k); (void)z; } });
  } else if (w == 3) {
    il::SparseMatrixCSR<int, double> a = build<int, double>(pattern(r, n0, n1, true, true), 0), b = build<int, double>(pattern(r, n1 + 1, n0, true, true), 0);
    bad = refused([&] { il::dot(il::io, a, b); });
  } else {
    il::SparseMatrixCSR<int, double> a = build<int, double>(pattern(r, n0, n1, true, true), 0);
    I e0 = n0 + r.range(0, 1), e1 = e0 == n0 ? n1 + 1 : n1;
    il::Array<double> beta{e0, 1.0}, alpha{e1, 1.0};
    bad = refused([&] { volatile double z = il::norm(a, r.chance(50) ? il::Norm::Linf : il::Norm::Linf, beta, alpha); (void)z; });
  }
  VF_CHECK(bad, "accepted", "a call whose operands do not fit is not refused");
  vf::event("rejections"); vf::event("contract-sparse");
  vf::sig((uint64_t)(w * 100 + n0 * 10 + n1));
  vf::nontrivial();
}
#endif
