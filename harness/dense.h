// Numbers, coefficients and guarded operands shared by the dense and sparse algebra monitors.
#ifndef DENSE_H
#define DENSE_H
#include <complex>
#include <limits>
#include <mkl.h>
using vf::Rng;
typedef std::complex<long double> X;
typedef il::int_t I;

static int g_xerbla = 0;
static char g_xname[32];
static void onXerbla(const char* name, const int* num, const int len) { g_xerbla = *num; snprintf(g_xname, sizeof g_xname, "%.*s", std::min(len, 20), name); }
struct Arm { Arm() { mkl_set_xerbla((XerblaEntry)onXerbla); } };
static Arm g_arm;

template <typename T> struct Num;
template <> struct Num<float> { typedef float R; static const char* n() { return "float"; } static const bool cx = false; static float mk(double a, double) { return (float)a; } static X up(float v) { return X(v, 0); } };
template <> struct Num<double> { typedef double R; static const char* n() { return "double"; } static const bool cx = false; static double mk(double a, double) { return a; } static X up(double v) { return X(v, 0); } };
template <typename R_> struct Num<std::complex<R_>> { typedef R_ R; static const char* n() { return sizeof(R_) == 4 ? "complex-float" : "complex-double"; } static const bool cx = true;
  static std::complex<R_> mk(double a, double b) { return std::complex<R_>((R_)a, (R_)b); } static X up(std::complex<R_> v) { return X(v.real(), v.imag()); } };
template <> struct Num<int> { typedef double R; static const char* n() { return "int"; } static const bool cx = false; static int mk(double a, double) { return (int)a; } static X up(int v) { return X(v, 0); } };
static long double mag(X v) { return std::fabs(v.real()) + std::fabs(v.imag()); }

template <typename T> T value(Rng& r, bool exact) {
  if (exact) { double a = (double)r.range(-4, 4), b = (double)r.range(-4, 4); return Num<T>::mk(a, b); }
  double a = r.sym(), b = r.sym();
  if (r.chance(5)) { a *= 1e4; b *= 1e-4; }
  return Num<T>::mk(a, b);
}
template <typename T> T coef(Rng& r, bool exact) {
  switch (r.below(6)) {
    case 0: return Num<T>::mk(0, 0);
    case 1: case 2: return Num<T>::mk(1, 0);
    case 3: return Num<T>::mk(-1, 0);
    default: return exact ? Num<T>::mk((double)r.range(-8, 8) / (std::numeric_limits<T>::is_integer ? 1 : 2), (double)r.range(-4, 4)) : value<T>(r, false);
  }
}
static const unsigned char kPad[8] = {0x5a, 0xa5, 0xff, 0xff, 0x5b, 0xa7, 0xff, 0xff};  // not-a-number as float and as double
template <typename T> void padAll(std::vector<T>& b) { unsigned char* p = (unsigned char*)b.data(); for (size_t i = 0; i < b.size() * sizeof(T); ++i) p[i] = kPad[i % 8]; }

// a vector or matrix placed in a larger buffer
template <typename T> struct Op {
  I n0, n1, ld; bool rows; size_t off; std::vector<T> buf, was;
  std::vector<X> m;                       // values, column after column
  size_t at(I i, I j) const { return off + (size_t)(rows ? i * ld + j : i + j * ld); }
  void make(Rng& r, I a, I b, bool rows_, bool exact, bool undefined) {
    vf::Quiet q;
    n0 = a; n1 = b; rows = rows_;
    I line = rows ? n1 : n0, lines = rows ? n0 : n1;
    ld = line + (r.chance(50) ? 0 : r.range(0, 9));
    if (ld == 0) ld = 1;
    off = (size_t)r.range(1, 9);
    buf.resize(off + (size_t)(ld * (lines + 1)) + (size_t)r.range(8, 40));
    padAll(buf);
    m.resize((size_t)(n0 * n1));
    for (I j = 0; j < n1; ++j) for (I i = 0; i < n0; ++i) {
      T v = value<T>(r, exact);
      if (undefined) { m[(size_t)(i + j * n0)] = X(0, 0); continue; }
      buf[at(i, j)] = v; m[(size_t)(i + j * n0)] = Num<T>::up(v);
    }
    was = buf;
  }
  X get(I i, I j) const { return m[(size_t)(i + j * n0)]; }
  const T* p() const { return buf.data() + off; }
  T* q() { return buf.data() + off; }
  bool untouched() const { return memcmp(buf.data(), was.data(), buf.size() * sizeof(T)) == 0; }
  // everything outside the matrix is as before
  bool around() const {
    vf::Quiet q;
    std::vector<T> b = buf;
    for (I j = 0; j < n1; ++j) for (I i = 0; i < n0; ++i) b[at(i, j)] = was[at(i, j)];
    return memcmp(b.data(), was.data(), b.size() * sizeof(T)) == 0;
  }
};
template <typename T> bool near(T got, X want, long double scale, I k, bool exact) {
  X g = Num<T>::up(got);
  if (exact) return g == want;
  long double eps = std::numeric_limits<typename Num<T>::R>::epsilon();
  long double d = mag(g - want);
  return d <= eps * (long double)(4 * k + 32) * scale + 1e-37L;
}
static void noXerbla(const char* what) {
  int n = g_xerbla; g_xerbla = 0;
  VF_CHECK(n == 0, "mapping", "%s passes an argument BLAS refuses (argument %d of %s)", what, n, g_xname);
}
template <typename T> std::string num(X v) { vf::Quiet q; char b[80]; snprintf(b, sizeof b, Num<T>::cx ? "(%.9Lg,%.9Lg)" : "%.9Lg", v.real(), v.imag()); return b; }

#endif
