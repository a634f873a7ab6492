// G01: array algorithms against direct definitions.
#include "vfil.h"
#include <il/algorithmArray.h>
#include <il/algorithmArray2D.h>
#include <il/norm.h>
#include <il/String.h>
#include <limits>
using vf::Rng;

template <typename T> struct Gen;
template <> struct Gen<int> { static const char* n() { return "int"; } static int v(Rng& r, int s) { return s == 0 ? (int)r.range(-3, 3) : s == 1 ? (int)r.range(-1000000, 1000000) : (int)(r.next() >> 33) - 1073741824; } };
template <> struct Gen<long> { static const char* n() { return "long"; } static long v(Rng& r, int s) { return s == 0 ? (long)r.range(-3, 3) : s == 1 ? (long)r.range(-1000000, 1000000) : (long)r.next() / 2; } };
template <> struct Gen<double> { static const char* n() { return "double"; } static double v(Rng& r, int s) { return s == 0 ? (double)r.range(-3, 3) / 4 : s == 1 ? r.sym() : r.sym() * std::pow(10.0, (double)r.range(-100, 100)); } };
template <> struct Gen<float> { static const char* n() { return "float"; } static float v(Rng& r, int s) { return s == 0 ? (float)r.range(-3, 3) / 4 : s == 1 ? (float)r.sym() : (float)(r.sym() * std::pow(10.0, (double)r.range(-30, 30))); } };
template <> struct Gen<short> { static const char* n() { return "short"; } static short v(Rng& r, int s) { return s == 0 ? (short)r.range(-3, 3) : (short)r.range(-30000, 30000); } };
template <typename T> static il::Array<T> filled(Rng& r, const std::vector<T>& v) {
  il::Array<T> a;
  if (r.chance(30)) a.Reserve((il::int_t)v.size() + r.range(0, 20));
  if (r.chance(30) && !v.empty()) { il::Array<T> b{(il::int_t)v.size(), il::align, 32}; a = std::move(b); }
  a.Resize((il::int_t)v.size());
  for (size_t i = 0; i < v.size(); ++i) a[(il::int_t)i] = v[i];
  return a;
}
template <typename T> static std::vector<T> draw(Rng& r, int64_t lo) {
  vf::Quiet q;
  int64_t n = r.chance(50) ? r.range(lo, 20) : r.range(lo, 300);
  if (n < lo) n = lo;
  int s = (int)r.below(3), pat = (int)r.below(8);
  std::vector<T> v;
  for (int64_t i = 0; i < n; ++i) v.push_back(Gen<T>::v(r, s));
  if (pat == 1) std::sort(v.begin(), v.end());
  else if (pat == 2) std::sort(v.begin(), v.end(), [](T a, T b) { return a > b; });
  else if (pat == 3 && n) std::fill(v.begin(), v.end(), v[0]);
  else if (pat == 4 && n) { T a = v[0], b = v[v.size() - 1]; for (T& x : v) x = r.chance(50) ? a : b; }
  else if (pat == 5) for (T& x : v) x = x > 0 ? (T)-x : x;  // all negative
  else if (pat == 6) for (T& x : v) x = x < 0 ? (T)-x : x;
  return v;
}
template <typename T> static void unchanged(const il::Array<T>& a, const std::vector<T>& v, const char* what) {
  VF_CHECK(a.size() == (il::int_t)v.size() && (v.empty() || memcmp(a.data(), v.data(), v.size() * sizeof(T)) == 0), "input-changed", "%s changes the array it reads", what);
}
template <typename T> static T absT(T x) { return x < 0 ? (T)-x : x; }
template <typename T> static void extremaAbs(const il::Array<T>& a, const std::vector<T>& v, size_t b, size_t e, bool whole) {
  T w = absT(v[b]);
  for (size_t i = b; i < e; ++i) w = std::max(w, absT(v[i]));
  il::Range g{(il::int_t)b, (il::int_t)e};
  T x = whole ? il::maxAbs(a) : il::maxAbs(a, g);
  VF_CHECK(x == w, "maxAbs", "maxAbs<%s> over [%zu, %zu) is %.17g, not %.17g", Gen<T>::n(), b, e, (double)x, (double)w);
  il::int_t i = whole ? il::indexMaxAbs(a) : il::indexMaxAbs(a, g);
  VF_CHECK(i >= g.begin && i < g.end && absT(v[(size_t)i]) == w, "indexMaxAbs", "indexMaxAbs<%s> over [%zu, %zu) is %ld", Gen<T>::n(), b, e, (long)i);
}
template <> void extremaAbs<short>(const il::Array<short>&, const std::vector<short>&, size_t, size_t, bool) {}
template <typename T> static void extrema(Rng& r) {
  std::vector<T> v = draw<T>(r, 1);
  il::Array<T> a = filled(r, v);
  size_t n = v.size();
  for (int k = 0; k < 3; ++k) {
    bool whole = k == 0;
    size_t b = 0, e = n;
    if (!whole) { b = (size_t)r.below((int64_t)n); e = (size_t)r.range((int64_t)b + 1, (int64_t)n); }
    vf::op("extrema", "%s n=%zu [%zu, %zu)", Gen<T>::n(), n, b, e);
    il::Range g{(il::int_t)b, (il::int_t)e};
    T lo = *std::min_element(v.begin() + (long)b, v.begin() + (long)e), hi = *std::max_element(v.begin() + (long)b, v.begin() + (long)e);
    T x = whole ? il::min(a) : il::min(a, g), y = whole ? il::max(a) : il::max(a, g);
    VF_CHECK(x == lo, "min", "min<%s> over [%zu, %zu) is %.17g, not %.17g", Gen<T>::n(), b, e, (double)x, (double)lo);
    VF_CHECK(y == hi, "max", "max<%s> over [%zu, %zu) is %.17g, not %.17g", Gen<T>::n(), b, e, (double)y, (double)hi);
    il::int_t i = whole ? il::indexMin(a) : il::indexMin(a, g), j = whole ? il::indexMax(a) : il::indexMax(a, g);
    VF_CHECK(i >= g.begin && i < g.end && v[(size_t)i] == lo, "indexMin", "indexMin<%s> over [%zu, %zu) is %ld", Gen<T>::n(), b, e, (long)i);
    VF_CHECK(j >= g.begin && j < g.end && v[(size_t)j] == hi, "indexMax", "indexMax<%s> over [%zu, %zu) is %ld", Gen<T>::n(), b, e, (long)j);
    il::MinMax<T> m = whole ? il::minMax(a) : il::minMax(a, g);
    VF_CHECK(m.min == lo && m.max == hi, "minMax", "minMax<%s> over [%zu, %zu) of %zu is (%.17g, %.17g), not (%.17g, %.17g)", Gen<T>::n(), b, e, n, (double)m.min, (double)m.max, (double)lo, (double)hi);
    extremaAbs<T>(a, v, b, e, whole);
    vf::event(whole ? "whole-array" : "range");
  }
  unchanged(a, v, "a reduction");
}
template <typename T> static void column(Rng& r) {
  int64_t n0 = r.range(1, 12), n1 = r.range(1, 4);
  il::Array2D<T> A;
  if (r.chance(40)) A.Reserve(n0 + r.range(0, 5), n1 + r.range(0, 3));
  A.Resize(n0, n1);
  int s = (int)r.below(3);
  for (int64_t j = 0; j < n1; ++j) for (int64_t i = 0; i < n0; ++i) A(i, j) = Gen<T>::v(r, s);
  if (r.chance(10) && !std::numeric_limits<T>::is_integer) for (int64_t i = 0; i < n0; ++i) A(i, 0) = std::numeric_limits<T>::infinity();
  int64_t j = r.below(n1), b = r.below(n0), e = r.range(b + 1, n0);
  vf::op("minMax of a column", "%s %ldx%ld column %ld [%ld, %ld)", Gen<T>::n(), n0, n1, j, b, e);
  T lo = A(b, j), hi = A(b, j);
  for (int64_t i = b; i < e; ++i) { lo = std::min(lo, A(i, j)); hi = std::max(hi, A(i, j)); }
  il::MinMax<T> m = il::minMax(A, il::Range{b, e}, j);
  VF_CHECK(m.min == lo && m.max == hi, "minMax2D", "minMax<%s> of column %ld rows [%ld, %ld) is (%.17g, %.17g), not (%.17g, %.17g)", Gen<T>::n(), j, b, e, (double)m.min, (double)m.max, (double)lo, (double)hi);
  vf::event("column");
}
template <typename T> static void judgeSorted(const il::Array<T>& a, std::vector<T> v, const char* what) {
  vf::Quiet q;
  std::sort(v.begin(), v.end());
  VF_CHECK(a.size() == (il::int_t)v.size(), "sort-size", "%s: %ld elements from %zu", what, (long)a.size(), v.size());
  for (size_t i = 0; i < v.size(); ++i) VF_CHECK(a[(il::int_t)i] == v[i], "sort", "%s<%s> of %zu elements: element %zu is %.17g, not %.17g", what, Gen<T>::n(), v.size(), i, (double)a[(il::int_t)i], (double)v[i]);
}
template <typename T> static void sorting(Rng& r) {
  std::vector<T> v = draw<T>(r, 0);
  vf::op("sort", "%s n=%zu", Gen<T>::n(), v.size());
  il::Array<T> a = filled(r, v);
  const il::Array<T>& ca = a;
  { il::Array<T> s = il::sort(ca); judgeSorted(s, v, "sort(const)"); unchanged(a, v, "sort(const)"); }
  { il::Array<T> s = il::sort(a); judgeSorted(s, v, "sort(copy)"); unchanged(a, v, "sort(copy)"); }
  il::sort(il::io, a);
  judgeSorted(a, v, "sort(in place)");
  for (int k = 0; k < 8; ++k) {
    T x = !v.empty() && r.chance(60) ? v[(size_t)r.below((int64_t)v.size())] : Gen<T>::v(r, (int)r.below(3));
    bool in = std::find(v.begin(), v.end(), x) != v.end();
    il::int_t i = il::binarySearch(a, x);
    if (in) VF_CHECK(i >= 0 && i < a.size() && a[i] == x, "binarySearch", "binarySearch<%s> for a present value of %zu gives %ld", Gen<T>::n(), v.size(), (long)i);
    else VF_CHECK(i < 0, "binarySearch", "binarySearch<%s> for an absent value of %zu gives %ld", Gen<T>::n(), v.size(), (long)i);
    vf::event(in ? "search-present" : "search-absent");
  }
  il::StaticArray<T, 9> s;
  std::vector<T> w;
  { vf::Quiet q; for (int i = 0; i < 9; ++i) { s[i] = Gen<T>::v(r, (int)r.below(2)); w.push_back(s[i]); } std::sort(w.begin(), w.end()); }
  il::sort(il::io, s);
  for (int i = 0; i < 9; ++i) VF_CHECK(s[i] == w[(size_t)i], "sort", "sort of a static array");
  vf::event("sorted");
}
static void bigSort(Rng& r) {
  size_t n = (size_t)r.range(20000, 120000);
  int pat = (int)r.below(6);
  vf::op("sort large", "n=%zu pattern %d", n, pat);
  il::Array<int> a{(il::int_t)n};
  for (size_t i = 0; i < n; ++i)
    a[(il::int_t)i] = pat == 0 ? 7 : pat == 1 ? (int)(i & 1) : pat == 2 ? (int)i : pat == 3 ? (int)(n - i) : pat == 4 ? (int)r.range(0, 5) : (int)(r.next() >> 40);
  std::vector<int> v;
  { vf::Quiet q; v.assign(a.data(), a.data() + n); }
  il::sort(il::io, a);
  judgeSorted(a, v, "sort(in place)");
  vf::event("sorted-large");
}
template <typename T> static void moments(Rng& r) {
  std::vector<T> v = draw<T>(r, 2);
  for (T& x : v) if (x > 1e15 || x < -1e15) x = (T)1.5;
  if (r.chance(30)) { T off = (T)r.range(-1000, 1000); for (T& x : v) x += off; }
  il::Array<T> a = filled(r, v);
  long double n = (long double)v.size(), m = 0, ma = 0, s = 0;
  for (T x : v) { m += x; ma = std::max(ma, (long double)absT(x)); }
  m /= n;
  for (T x : v) s += ((long double)x - m) * ((long double)x - m);
  long double eps = std::numeric_limits<T>::epsilon(), dm = 2 * n * eps * ma;
  bool pop = r.chance(50);
  long double var = s / (pop ? n : n - 1), dv = 8 * (n + 4) * eps * var + 8 * dm * dm + std::numeric_limits<T>::min();
  vf::op("moments", "%s n=%zu", Gen<T>::n(), v.size());
  il::VarianceKind k = pop ? il::VarianceKind::Population : il::VarianceKind::Sample;
  T x = il::mean(a), y = il::variance(a, k);
  il::MeanVariance<T> z = il::meanVariance(a, k);
  VF_CHECK(fabsl(x - m) <= dm && fabsl(z.mean - m) <= dm, "mean", "mean of %zu %s is %.17g / %.17g, not %.17Lg", v.size(), Gen<T>::n(), (double)x, (double)z.mean, m);
  VF_CHECK(fabsl(y - var) <= dv && fabsl(z.variance - var) <= dv, "variance", "%s variance of %zu %s is %.17g / %.17g, not %.17Lg", pop ? "population" : "sample", v.size(), Gen<T>::n(), (double)y, (double)z.variance, var);
  if (v.size() == 2) vf::event("two-elements");
  unchanged(a, v, "a moment");
  il::Array<T> one{1, v[0]};
  VF_CHECK(il::mean(one) == v[0] && il::variance(one, il::VarianceKind::Population) == 0, "moments-of-one", "mean or variance of one element");
  vf::event("moments");
}
static void close(double g, long double w, size_t n, const char* what) {
  VF_CHECK(fabsl(g - w) <= (long double)(2 * n + 4) * 2.3e-16L * fabsl(w), "norm", "%s is %.17g, not %.17Lg", what, g, w);
}
static il::Norm kinds[] = {il::Norm::L1, il::Norm::L2, il::Norm::Linf};
static long double normOf(const std::vector<double>& v, int k) {
  long double s = 0;
  for (double x : v) { long double a = fabsl(x); s = k == 0 ? s + a : k == 1 ? s + a * a : std::max(s, a); }
  return k == 1 ? sqrtl(s) : s;
}
static void norms(Rng& r) {
  std::vector<double> v = draw<double>(r, 0), al, q;
  vf::op("norms", "n=%zu", v.size());
  il::Array<double> a = filled(r, v);
  { vf::Quiet qq; for (double x : v) { al.push_back(r.unit() * 5 + 0.01); q.push_back(x / al.back()); } }
  il::Array<double> alpha = filled(r, al);
  il::StaticArray<double, 7> s;
  std::vector<double> sv;
  { vf::Quiet qq; for (int i = 0; i < 7; ++i) { s[i] = i < (int)v.size() ? v[(size_t)i] : r.sym(); sv.push_back(s[i]); } }
  for (int k = 0; k < 3; ++k) {
    close(il::norm(a, kinds[k]), normOf(v, k), v.size(), "norm of an array");
    close(il::norm(a, kinds[k], alpha), normOf(q, k), v.size(), "weighted norm of an array");
    close(il::norm(s, kinds[k]), normOf(sv, k), 7, "norm of a static array");
  }
  unchanged(a, v, "a norm");
  vf::event("vector-norms");
}
template <typename T> static void matrixNorm(Rng& r) {
  int64_t n0 = r.range(0, 9), n1 = r.range(0, 9);
  il::Array2D<T> A;
  if (r.chance(40)) A.Reserve(n0 + r.range(0, 5), n1 + r.range(0, 3));
  A.Resize(n0, n1);
  int s = (int)r.below(2);
  std::vector<long double> row((size_t)n0, 0), col((size_t)n1, 0);
  for (int64_t j = 0; j < n1; ++j) for (int64_t i = 0; i < n0; ++i) { A(i, j) = Gen<T>::v(r, s); row[(size_t)i] += fabsl((long double)A(i, j)); col[(size_t)j] += fabsl((long double)A(i, j)); }
  long double l1 = 0, li = 0;
  for (long double x : col) l1 = std::max(l1, x);
  for (long double x : row) li = std::max(li, x);
  vf::op("matrix norm", "%s %ldx%ld", Gen<T>::n(), n0, n1);
  close(il::norm(A, il::Norm::L1), l1, 9, "L1 norm of a matrix");
  close(il::norm(A, il::Norm::Linf), li, 9, "Linf norm of a matrix");
  int64_t n = r.range(0, 8);
  il::TriDiagonal<T> B{n};
  long double w = 0;
  for (int64_t i = 0; i < n; ++i) { long double t = 0; for (int64_t k = -1; k <= 1; ++k) if (i + k >= 0 && i + k < n) { B(i, k) = Gen<T>::v(r, s); t += fabsl((long double)B(i, k)); } w = std::max(w, t); }
  vf::op("tridiagonal norm", "%s %ld", Gen<T>::n(), n);
  close(il::norm(B, il::Norm::Linf), w, 3, "norm of a tridiagonal matrix");
  vf::event("matrix-norms");
}
void vf_case(Rng& r, uint64_t idx) {
  if (idx % 500 == 0) { bigSort(r); vf::nontrivial(); return; }
  switch (r.below(6)) {
    case 0: extrema<int>(r); extrema<long>(r); extrema<double>(r); extrema<float>(r); extrema<short>(r); break;
    case 1: sorting<int>(r); sorting<double>(r); break;
    case 2: sorting<long>(r); sorting<float>(r); sorting<short>(r); break;
    case 3: moments<double>(r); moments<float>(r); break;
    case 4: norms(r); matrixNorm<double>(r); matrixNorm<int>(r); break;
    default: column<int>(r); column<double>(r); column<float>(r); column<long>(r); extrema<double>(r);
  }
  vf::sig(r.next());
  if (vf::wantSample()) vf::sample(vf::fmt("last: %s", vf::st().last_op));
  vf::nontrivial();
}
