// N01: checked integer arithmetic against 128-bit arithmetic. VF_PART 0: portable branches,
// 1: compiler-builtin branches.
#if VF_PART == 1
#define IL_BUILTIN_SAFE_ARITHMETIC 1
#endif
#include "vfil.h"
#include <il/core/math/safe_arithmetic.h>
#include <limits>
using vf::Rng;
typedef __int128 W;
typedef unsigned __int128 UW;

template <typename T> static bool fits(W x) { return x >= (W)std::numeric_limits<T>::min() && x <= (W)std::numeric_limits<T>::max(); }
static std::string show(W x) {
  bool neg = x < 0;
  UW u = neg ? (UW)0 - (UW)x : (UW)x;
  std::string s;
  do { s.insert(s.begin(), (char)('0' + (int)(u % 10))); u /= 10; } while (u);
  return neg ? "-" + s : s;
}
template <typename T> struct Name { static const char* n() { return "?"; } };
#define NAME(T) template <> struct Name<T> { static const char* n() { return #T; } };
NAME(int) NAME(unsigned) NAME(long) NAME(unsigned long) NAME(long long) NAME(unsigned long long)

// one observed call: exact result `want` (ok=false: not defined)
template <typename T> static void judge(const char* what, const std::string& args, T got, bool err, W want, bool defined) {
  bool okay = defined && fits<T>(want);
  if (okay) {
    VF_CHECK(!err, "spurious-error", "%s<%s>(%s) reports an error, the exact result %s is representable", what, Name<T>::n(), args.c_str(), show(want).c_str());
    VF_CHECK((W)got == want, "wrong-result", "%s<%s>(%s) = %s, exact %s", what, Name<T>::n(), args.c_str(), show((W)got).c_str(), show(want).c_str());
  } else
    VF_CHECK(err, "missed-error", "%s<%s>(%s) = %s without error, exact %s", what, Name<T>::n(), args.c_str(), show((W)got).c_str(), defined ? show(want).c_str() : "is undefined");
}
template <typename T> static std::vector<T> edges() {
  std::vector<T> v;
  typedef std::numeric_limits<T> L;
  for (int k = 0; k <= 3; ++k) { v.push_back((T)k); v.push_back((T)(L::max() - k)); v.push_back((T)(L::min() + k)); if (L::is_signed) v.push_back((T)-k); }
  for (int k = 0; k <= 2; ++k) { v.push_back((T)(L::max() / 2 + 1 - k)); v.push_back((T)(L::min() / 2 + k)); v.push_back((T)(L::max() / 3 + k)); v.push_back((T)(L::min() / 3 - k)); }
  long double rt = sqrtl((long double)L::max());
  for (int k = -1; k <= 2; ++k) { v.push_back((T)((T)rt + k)); if (L::is_signed) v.push_back((T)(-(T)rt + k)); }
  for (int b : {7, 8, 15, 16, 31, 32, 33, 62}) if (b < (int)sizeof(T) * 8 - 1) for (int k = -1; k <= 1; ++k) { v.push_back((T)(((T)1 << b) + k)); if (L::is_signed) v.push_back((T)(-((T)1 << b) + k)); }
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
template <typename T> static T draw(Rng& r, const std::vector<T>& e) {
  if (r.chance(40)) return e[(size_t)r.below((int64_t)e.size())];
  int bits = (int)r.range(1, (int64_t)sizeof(T) * 8);
  uint64_t x = r.next() >> (64 - bits);
  if (std::numeric_limits<T>::is_signed && r.chance(50)) x = (uint64_t)0 - x;
  return (T)x;
}
static int g_calls;
template <typename T> static std::string two(T a, T b) { return show((W)a) + ", " + show((W)b); }

template <typename T, bool S = std::numeric_limits<T>::is_signed> struct Sgn;
template <typename T> struct Sgn<T, true> {
  static void pair(T a, T b, bool e0) {
    bool e = e0;
    T x = il::safeDifference(a, b, il::io, e); judge<T>("safeDifference", two(a, b), x, e, (W)a - (W)b, true);
    e = e0; x = il::safeDivision(a, b, il::io, e); judge<T>("safeDivision", two(a, b), x, e, b == 0 ? 0 : (W)a / (W)b, b != 0);
    g_calls += 2;
    if (a >= 0 && b > 0) {
      e = e0; x = il::safeUpperRound(a, b, il::io, e);
      judge<T>("safeUpperRound", two(a, b), x, e, ((W)a + b - 1) / b * b, true);
      ++g_calls;
      vf::event("upper-round");
    }
  }
  static void many(T a, T b, T c, T d, bool e0) {
    T v[4] = {a, b, c, d};
    for (int n = 3; n <= 4; ++n) {
      bool e = e0;
      T x = n == 3 ? il::safeProduct(a, b, c, il::io, e) : il::safeProduct(a, b, c, d, il::io, e);
      // exact product, saturated once it leaves 127 bits; zero wins
      bool zero = false, big = false, absbig = false;
      W p = 1, q = 1;
      for (int k = 0; k < n; ++k) {
        if (v[k] == 0) { zero = true; continue; }
        W m = v[k] < 0 ? -(W)v[k] : (W)v[k];
        if (!big && p > ((W)1 << 126) / m) big = true;
        if (!big) p *= m;
        if (!absbig && q * m > (W)std::numeric_limits<T>::max()) absbig = true; else if (!absbig) q *= m;
      }
      bool neg = false;
      for (int k = 0; k < n; ++k) neg = neg != (v[k] < 0);
      W want = zero ? 0 : neg ? -p : p;
      std::string args = two(a, b) + ", " + two(c, d);
      ++g_calls;
      if (!e) VF_CHECK((zero || !big) && fits<T>(want) && (W)x == want, "wrong-product", "safeProduct<%s>(%d of %s) = %s without error, exact %s", Name<T>::n(), n, args.c_str(), show((W)x).c_str(), big && !zero ? "overflows" : show(want).c_str());
      else VF_CHECK(absbig, "spurious-error", "safeProduct<%s>(%d of %s) reports an error, every partial product is representable", Name<T>::n(), n, args.c_str());
      vf::event(e ? "product-error" : "product-exact");
    }
  }
};
template <typename T> struct Sgn<T, false> {
  static void pair(T, T, bool) {}
  static void many(T, T, T, T, bool) {}
};
template <typename T> static void pair(T a, T b, bool e0) {
  bool e = e0;
  T x = il::safeSum(a, b, il::io, e);
  judge<T>("safeSum", two(a, b), x, e, (W)a + (W)b, true);
  vf::event(e ? "error-reported" : "exact");
  e = e0; x = il::safeProduct(a, b, il::io, e);
  if (sizeof(T) == 8 && !std::numeric_limits<T>::is_signed) {
    UW p = (UW)a * (UW)b;
    bool okay = p <= (UW)std::numeric_limits<T>::max();
    VF_CHECK(e == !okay && (e || (UW)x == p), okay ? "wrong-result" : "missed-error", "safeProduct<%s>(%s) = %s, error %d", Name<T>::n(), two(a, b).c_str(), show((W)x).c_str(), (int)e);
  } else
    judge<T>("safeProduct", two(a, b), x, e, (W)a * (W)b, true);
  vf::event(e ? "error-reported" : "exact");
  g_calls += 2;
  Sgn<T>::pair(a, b, e0);
}
template <typename S, typename U> static void conv(S s, U u, bool e0) {
  bool e = e0;
  U x = il::safeConvert<U, S>(s, il::io, e);
  judge<U>("safeConvert", show((W)s), x, e, (W)s, true);
  e = e0;
  S y = il::safeConvert<S, U>(u, il::io, e);
  judge<S>("safeConvert", show((W)u), y, e, (W)u, true);
  vf::event(e ? "narrowing-error" : "narrowing-exact");
  g_calls += 2;
}
template <typename T> static void type(Rng& r, uint64_t i) {
  static const std::vector<T>* ep = [] { vf::Quiet q; return new std::vector<T>(edges<T>()); }();
  const std::vector<T>& e = *ep;
  vf::op(Name<T>::n(), "block %lu", (unsigned long)i);
  if (i < e.size()) {  // every pair of edge values
    for (T b : e) { pair<T>(e[i], b, false); pair<T>(e[i], b, true); }
    vf::event("edge-pairs", 2 * e.size());
    vf::sig(i);
  }
  for (int k = 0; k < 60; ++k) {
    T a = draw(r, e), b = draw(r, e);
    bool e0 = r.chance(50);
    pair<T>(a, b, e0);
    if (a != 0 && r.chance(30)) { T q = (T)(std::numeric_limits<T>::max() / a); pair<T>(a, q, e0); if (q < std::numeric_limits<T>::max()) pair<T>(a, (T)(q + 1), e0); }
    if (r.chance(30)) { T c = (T)(std::numeric_limits<T>::max() - (a > 0 ? a : 0)); pair<T>(a, c, e0); if (c < std::numeric_limits<T>::max()) pair<T>(a, (T)(c + 1), e0); }
    T small[4];
    for (T& s : small) s = r.chance(60) ? draw(r, e) : (T)r.range(std::numeric_limits<T>::is_signed ? -300 : 0, 300);
    Sgn<T>::many(small[0], small[1], small[2], small[3], e0);
    if (r.chance(20)) { vf::sig((uint64_t)a); vf::sig((uint64_t)b); }
  }
}
void vf_case(Rng& r, uint64_t idx) {
  g_calls = 0;
  uint64_t b = idx / 6;
  switch (idx % 6) {
    case 0: type<int>(r, b); break;
    case 1: type<unsigned>(r, b); break;
    case 2: type<long>(r, b); break;
    case 3: type<unsigned long>(r, b); break;
    case 4: type<long long>(r, b); break;
    default: type<unsigned long long>(r, b); break;
  }
  static const auto* ei = [] { vf::Quiet q; return new std::vector<int>(edges<int>()); }();
  static const auto* eu = [] { vf::Quiet q; return new std::vector<unsigned>(edges<unsigned>()); }();
  static const auto* el = [] { vf::Quiet q; return new std::vector<long>(edges<long>()); }();
  static const auto* eul = [] { vf::Quiet q; return new std::vector<unsigned long>(edges<unsigned long>()); }();
  for (int k = 0; k < 20; ++k) {
    bool e0 = r.chance(50);
    conv<int, unsigned>(draw(r, *ei), draw(r, *eu), e0);
    conv<long, unsigned long>(draw(r, *el), draw(r, *eul), e0);
    conv<long long, unsigned long long>((long long)draw(r, *el), (unsigned long long)draw(r, *eul), e0);
    long a = draw(r, *el);
    if (a >= 0) { bool e = e0; long x = il::safeProduct2Positive(a, il::io, e); judge<long>("safeProduct2Positive", show(a), x, e, (W)a * 2, true); ++g_calls; }
  }
  vf::event("calls-judged", (uint64_t)g_calls);
  if (vf::wantSample()) vf::sample(vf::fmt("%d calls judged, last op %s", g_calls, vf::st().last_op));
  vf::nontrivial();
}
