// N02: elementary numeric functions against their definitions.
#include "vfil.h"
#include <il/math.h>
#include <il/unit/time.h>
#include <limits>
using vf::Rng;

template <typename T> static T val(Rng& r);
template <> int val<int>(Rng& r) { static const int e[] = {0, 1, -1, 2147483647, -2147483647 - 1, 1000, -7}; return r.chance(30) ? e[r.below(7)] : (int)r.next() >> r.below(31); }
template <> long val<long>(Rng& r) { static const long e[] = {0, 1, -1, INT64_MAX, INT64_MIN, 4294967296, -4294967297}; return r.chance(30) ? e[r.below(7)] : (long)r.next() >> r.below(63); }
template <> double val<double>(Rng& r) { static const double e[] = {0, -0.0, 1, -1, 1e308, -1e308, 5e-324, 0.5, 16777217.0, 9007199254740993.0}; return r.chance(30) ? e[r.below(10)] : r.sym() * std::pow(10.0, (double)r.range(-20, 20)); }
template <> float val<float>(Rng& r) { static const float e[] = {0, -0.0f, 1, -1, 3e38f, -3e38f, 1e-45f, 0.5f}; return r.chance(30) ? e[r.below(8)] : (float)(r.sym() * std::pow(10.0, (double)r.range(-20, 20))); }
template <typename T> static void minmax(Rng& r, const char* t) {
  T v[6];
  int64_t spread = r.range(0, 3);
  for (T& x : v) x = spread == 0 ? (T)r.range(-3, 3) : val<T>(r);
  vf::op("min/max", "%s", t);
  for (int n = 2; n <= 6; ++n) {
    T w = v[0];
    for (int k = 1; k < n; ++k) if (v[k] > w) w = v[k];
    T g = n == 2 ? il::max(v[0], v[1]) : n == 3 ? il::max(v[0], v[1], v[2]) : n == 4 ? il::max(v[0], v[1], v[2], v[3]) : n == 5 ? il::max(v[0], v[1], v[2], v[3], v[4]) : il::max(v[0], v[1], v[2], v[3], v[4], v[5]);
    VF_CHECK(g == w, "max", "max of %d %s is %.17g, not %.17g", n, t, (double)g, (double)w);
  }
  T w = v[0] < v[1] ? v[0] : v[1];
  VF_CHECK(il::min(v[0], v[1]) == w, "min", "min of two %s", t);
  for (int k = 2; k < 4; ++k) if (v[k] < w) w = v[k];
  VF_CHECK(il::min(v[0], v[1], v[2], v[3]) == w, "min", "min of four %s", t);
  vf::event("min-max");
}
static void mixed(Rng& r) {
  vf::op("max with int");
  long a = val<long>(r); int b = val<int>(r);
  VF_CHECK(il::max(a, b) == std::max(a, (long)b) && il::max(b, a) == std::max(a, (long)b), "max", "max(%ld, int %d)", a, b);
  double x = r.sym() * 1e4; int c = (int)r.range(-10000, 10000);
  VF_CHECK(il::max(x, c) == std::max(x, (double)c) && il::max(c, x) == std::max(x, (double)c), "max", "max(%g, int %d)", x, c);
}
template <il::int_t N, typename T> static T slow(T x) { T a = 1; for (int k = 0; k < N; ++k) a *= x; return a; }
template <il::int_t N> static void fixedPow(Rng& r) {
  int64_t lim = (int64_t)std::pow(9.0e18, 1.0 / (double)(N ? N : 1));
  if (lim > 3000000000L) lim = 3000000000L;
  int64_t x = r.range(-lim + 1, lim - 1);
  VF_CHECK((il::ipow<N>(x) == slow<N>(x)), "ipow", "ipow<%ld>(%ld) = %ld", (long)N, (long)x, (long)il::ipow<N>(x));
  VF_CHECK(il::ipow(x, N) == slow<N>(x), "ipow", "ipow(%ld, %ld) = %ld", (long)x, (long)N, (long)il::ipow(x, N));
  uint64_t u = r.next();
  VF_CHECK((il::ipow<N>(u) == slow<N>(u)) && il::ipow(u, N) == slow<N>(u), "ipow", "ipow of unsigned %lu to %ld (modulo 2^64)", (unsigned long)u, (long)N);
  double d = r.sym() * 30;
  long double w = powl((long double)d, (long double)N);
  double tol = (double)(fabsl(w)) * (N + 1) * 2.3e-16;
  VF_CHECK(std::fabs((double)(il::ipow<N>(d) - w)) <= tol && std::fabs((double)(il::ipow(d, N) - w)) <= tol, "ipow", "ipow<%ld>(%.17g) = %.17g, exact %.17g", (long)N, d, il::ipow<N>(d), (double)w);
  std::complex<double> z(r.sym(), r.sym()), zz = std::complex<double>(1, 0);
  for (int k = 0; k < N; ++k) zz *= z;
  double zt = 4e-15 * (N + 1) * std::pow(std::abs(z), (double)N) + 1e-300;
  VF_CHECK(std::abs(il::ipow<N>(z) - zz) <= zt && std::abs(il::ipow(z, N) - zz) <= zt, "ipow", "ipow<%ld> of a complex number", (long)N);
  vf::event("ipow");
}
static void powers(Rng& r) {
  vf::op("ipow");
  int e = (int)r.below(31), b = 2;
  // int: representable results never overflow on the way
  static const int maxe[] = {0, 0, 30, 19, 15, 13, 11, 11, 10, 9, 9};
  b = (int)r.range(2, 10);
  e = (int)r.range(0, maxe[b]);
  int64_t w = 1;
  for (int k = 0; k < e; ++k) w *= b;
  int s = r.chance(50) ? 1 : -1;
  int64_t ws = (e % 2 && s < 0) ? -w : w;
  VF_CHECK(il::ipow(s * b, (il::int_t)e) == ws, "ipow", "ipow(%d, %d) = %d, exact %ld", s * b, e, il::ipow(s * b, (il::int_t)e), (long)ws);
  switch (r.below(9)) {
    case 0: fixedPow<0>(r); break; case 1: fixedPow<1>(r); break; case 2: fixedPow<2>(r); break; case 3: fixedPow<3>(r); break; case 4: fixedPow<5>(r); break;
    case 5: fixedPow<7>(r); break; case 6: fixedPow<10>(r); break; case 7: fixedPow<16>(r); break; default: fixedPow<23>(r);
  }
}
static void absolute(Rng& r) {
  vf::op("abs");
  int i = val<int>(r); if (i != INT_MIN) VF_CHECK(il::abs(i) == (i < 0 ? -i : i), "abs", "abs(int %d)", i);
  long l = val<long>(r); if (l != LONG_MIN) VF_CHECK(il::abs((il::int_t)l) == (l < 0 ? -l : l), "abs", "abs(%ld)", l);
  double d = val<double>(r); VF_CHECK(il::abs(d) == std::fabs(d), "abs", "abs(%.17g) = %.17g", d, il::abs(d));
  float f = val<float>(r); VF_CHECK(il::abs(f) == std::fabs(f), "abs", "abs(float %.9g)", (double)f);
  std::complex<double> z(val<double>(r), val<double>(r));
  double h = std::hypot(z.real(), z.imag());
  double g = il::abs(z);
  if (std::isfinite(h)) VF_CHECK(std::fabs(g - h) <= 4e-16 * h + 5e-324, "abs", "abs(%g + %g i) = %.17g, hypot %.17g", z.real(), z.imag(), g, h);
  std::complex<float> y(val<float>(r), val<float>(r));
  double hf = std::hypot((double)y.real(), (double)y.imag());
  if (hf < 3.4e38) VF_CHECK(std::fabs(il::abs(y) - hf) <= 2.4e-7 * hf + 1.5e-45, "abs", "abs of complex<float> %g %g = %g, exact %g", y.real(), y.imag(), il::abs(y), hf);
  VF_CHECK(il::real(z) == z.real() && il::real(d) == d && il::real(f) == f, "real", "real part");
  std::complex<double> c = il::conjugate(z);
  VF_CHECK(c.real() == z.real() && c.imag() == -z.imag() && il::conjugate(d) == d, "conjugate", "conjugate of %g %g", z.real(), z.imag());
  double bad[] = {NAN, INFINITY, -INFINITY, d, 0.0};
  double p = bad[r.below(5)], q = bad[r.below(5)];
  VF_CHECK(il::isFinite(p) == (p - p == 0) && il::isFinite(std::complex<double>(p, q)) == (p - p == 0 && q - q == 0), "isFinite", "isFinite(%g, %g)", p, q);
  vf::event("abs");
}
static void rounding(Rng& r) {
  vf::op("floor");
  double d = r.chance(50) ? r.sym() * 1e6 : r.sym() * 8e18;
  if (r.chance(30)) d = (double)r.range(-100, 100);
  il::int_t f = il::floor(d);
  VF_CHECK((long double)f <= (long double)d && (long double)d < (long double)f + 1, "floor", "floor(%.17g) = %ld", d, (long)f);
  il::int_t a = r.chance(50) ? r.range(-100, 100) : (il::int_t)r.next() / 4;
  il::int_t b = r.chance(70) ? r.range(1, 20) : (il::int_t)(r.next() >> 4) + 1;
  il::int_t m = il::floor(a, b);
  VF_CHECK(m % b == 0 && m <= a && (__int128)a < (__int128)m + b, "floor-multiple", "floor(%ld, %ld) = %ld is not the largest multiple below", (long)a, (long)b, (long)m);
  int bi = (int)r.range(1, 1000);
  m = il::floor(a, bi);
  VF_CHECK(m % bi == 0 && m <= a && (__int128)a < (__int128)m + bi, "floor-multiple", "floor(%ld, int %d) = %ld", (long)a, bi, (long)m);
  vf::event("floor");
}
static void twoPowers(Rng& r) {
  vf::op("powers of 2");
  uint64_t x = (r.next() >> r.below(64));
  if (r.chance(40)) x = ((uint64_t)1 << r.below(64)) + (uint64_t)r.range(-1, 1);
  if (x == 0) x = 1;
  uint64_t p = (uint64_t)1 << (63 - __builtin_clzll(x));
  VF_CHECK(il::previous_power_of_2_64(x) == p, "previous_power_of_2", "previous_power_of_2_64(%lu) = %lu", (unsigned long)x, (unsigned long)il::previous_power_of_2_64(x));
  if (x <= (uint64_t)1 << 63) { uint64_t n = p == x ? p : p * 2; VF_CHECK(il::next_power_of_2_64(x) == n, "next_power_of_2", "next_power_of_2_64(%lu) = %lu", (unsigned long)x, (unsigned long)il::next_power_of_2_64(x)); }
  int lg = 63 - __builtin_clzll(x) + (p == x ? 0 : 1);
  VF_CHECK(il::nextLog2((std::size_t)x) == lg, "nextLog2", "nextLog2(%lu) = %d", (unsigned long)x, il::nextLog2((std::size_t)x));
  unsigned y = (unsigned)(x | 1) >> r.below(31); if (r.chance(40)) y = ((unsigned)1 << r.below(32)) + (unsigned)r.range(-1, 1);
  if (y == 0) y = 1;
  unsigned q = (unsigned)1 << (31 - __builtin_clz(y));
  VF_CHECK(il::previous_power_of_2_32(y) == q, "previous_power_of_2", "previous_power_of_2_32(%u) = %u", y, il::previous_power_of_2_32(y));
  if (y <= 1u << 31) VF_CHECK(il::next_power_of_2_32(y) == (q == y ? q : q * 2), "next_power_of_2", "next_power_of_2_32(%u) = %u", y, il::next_power_of_2_32(y));
  VF_CHECK(il::next_log2_32(y) == 31 - __builtin_clz(y) + (q == y ? 0 : 1), "nextLog2", "next_log2_32(%u) = %d", y, il::next_log2_32(y));
  vf::event("powers-of-2");
}
static void times(Rng& r) {
  static const double unit[] = {1.0, 1e-9, 1e-6, 1e-3, 60.0, 3600.0, 86400.0, 31536000.0};
  static const char* name[] = {"seconds", "nanoseconds", "microseconds", "milliseconds", "minutes", "hours", "days", "years"};
  double t = std::pow(10.0, r.unit() * 18 - 8.9);
  if (r.chance(30)) t = unit[1 + r.below(7)] * (double)r.range(1, 1000);
  if (r.chance(10)) t = unit[r.below(8)];
  vf::op("time_toString", "%.17g", t);
  std::string s;
  { s = il::time_toString(t); }
  char* end;
  double v = strtod(s.c_str(), &end);
  int k = -1;
  for (int i = 0; i < 8; ++i) if (s == std::to_string(v) + " " + name[i]) k = i;
  VF_CHECK(k >= 0, "time-text", "time %.17g is written \"%s\"", t, s.c_str());
  VF_CHECK(std::fabs(v * unit[k] - t) <= 6e-7 * unit[k] + 1e-12 * t, "time-value", "time %.17g is written \"%s\"", t, s.c_str());
  VF_CHECK(t < 1e-9 || v >= 0.999999, "time-unit", "time %.17g is written \"%s\"", t, s.c_str());
  VF_CHECK(il::time_toString(0.0) == "0 second", "time-text", "zero is written \"%s\"", il::time_toString(0.0).c_str());
  const double c[] = {il::second, il::nanosecond, il::microsecond, il::millisecond, il::minute, il::hour, il::day, il::year};
  for (int i = 0; i < 8; ++i) VF_CHECK(std::fabs(c[i] - unit[i]) <= 1e-15 * unit[i], "time-unit", "a %s is %.17g seconds", name[i], c[i]);
  vf::event("time");
}
void vf_case(Rng& r, uint64_t) {
  for (int k = 0; k < 10; ++k) {
    minmax<int>(r, "int"); minmax<long>(r, "long"); minmax<double>(r, "double"); minmax<float>(r, "float");
    mixed(r); powers(r); absolute(r); rounding(r); twoPowers(r); times(r);
  }
  VF_CHECK(il::pi == 3.14159265358979323846 && il::ii == std::complex<double>(0, 1), "constant", "pi or ii");
  volatile double half = 0.5;
  double u = 1; while (1 + u * half > 1) u *= half;
  VF_CHECK(il::epsilon<double>::value == u * 0.5 || il::epsilon<double>::value == u, "constant", "epsilon<double> = %g", (double)il::epsilon<double>::value);
  vf::sig(r.next());
  vf::event("argument-sets", 10);
  if (vf::wantSample()) vf::sample("10 argument sets of every function");
  vf::nontrivial();
}
