// A08: in debug builds, elements of numeric type that nobody has set hold the documented mark.
#include "vfil.h"
#include <cmath>
#include <limits>
#include <complex>
#include <memory>
#include <vector>
#include <il/Array.h>
#include <il/SmallArray.h>
#include <il/StaticArray.h>
#include <il/Array2D.h>
#include <il/Array2C.h>
#include <il/Array3D.h>
#include <il/Array3C.h>
#include <il/Array4D.h>
#include <il/Array4C.h>
#include <il/StaticArray2D.h>
#include <il/StaticArray2C.h>
#include <il/StaticArray3D.h>
#include <il/StaticArray4D.h>
#include <il/container/2d/LowerArray2D.h>
#include <il/container/2d/UpperArray2D.h>
using vf::Rng;
typedef il::int_t I;

// the mark of a type, written from the documentation: NaN, or the largest 1234... the type holds (false and '\0' for bool and char)
template <typename T> struct Mark {
  static bool is(T x) { unsigned long long w = 0; for (int d = 1;; d = d % 9 + 1) { unsigned long long t = w * 10 + (unsigned long long)d; if (t > (unsigned long long)std::numeric_limits<T>::max() || t / 10 != w) break; if (big(t)) break; w = t; } return x == (T)w; }
  // the digits are those of the signed type of the same size
  static bool big(unsigned long long t) { return t > ((~0ull) >> (64 - 8 * sizeof(T) + 1)); }
  static T some(Rng& r) { return (T)r.next(); }
  static const char* name() { return sizeof(T) == 1 ? "8-bit" : sizeof(T) == 2 ? "16-bit" : sizeof(T) == 4 ? "32-bit" : "64-bit"; }
};
template <> struct Mark<bool> { static bool is(bool x) { unsigned char c; memcpy(&c, &x, 1); return c == 0; } static bool some(Rng& r) { return r.chance(80); } static const char* name() { return "bool"; } };
template <> struct Mark<char> { static bool is(char x) { return x == '\0'; } static char some(Rng& r) { return (char)r.next(); } static const char* name() { return "char"; } };
template <typename T> struct MarkF { static bool is(T x) { return x != x; } static T some(Rng& r) { return (T)r.range(-1000, 1000) / (T)8; } static const char* name() { return "floating"; } };
template <> struct Mark<float> : MarkF<float> {};
template <> struct Mark<double> : MarkF<double> {};
template <> struct Mark<long double> : MarkF<long double> {};
template <typename T> struct MarkC { typedef std::complex<T> C; static bool is(const C& x) { return x.real() != x.real() && x.imag() != x.imag(); } static C some(Rng& r) { return C((T)r.range(-9, 9), (T)r.range(-9, 9)); } static const char* name() { return "complex"; } };
template <> struct Mark<std::complex<float>> : MarkC<float> {};
template <> struct Mark<std::complex<double>> : MarkC<double> {};

template <typename C> struct Ad;
#define AD1(CLS, ALIGNED) template <typename T> struct Ad<CLS> { typedef CLS C; typedef T E; enum { rank = 1, fixed = 0 }; \
  static C* make(const I* n, I al) { return mk(n, al, std::integral_constant<bool, ALIGNED>()); } \
  static C* mk(const I* n, I al, std::true_type) { return al ? new C(n[0], il::align, al) : new C(n[0]); } \
  static C* mk(const I* n, I, std::false_type) { return new C(n[0]); } \
  static T& at(C& c, const I* i) { return c[i[0]]; } static void resize(C& c, const I* n) { c.Resize(n[0]); } static void reserve(C& c, const I* n) { c.Reserve(n[0]); } static const char* name() { return #CLS; } };
#define COMMA ,
AD1(il::Array<T>, true)
template <typename T> using Small = il::SmallArray<T, 4>;
template <typename T> struct Ad<il::SmallArray<T, 4>> { typedef il::SmallArray<T, 4> C; typedef T E; enum { rank = 1, fixed = 0 };
  static C* make(const I* n, I) { return new C(n[0]); } static T& at(C& c, const I* i) { return c[i[0]]; } static void resize(C& c, const I* n) { c.Resize(n[0]); } static void reserve(C& c, const I* n) { c.Reserve(n[0]); } static const char* name() { return "il::SmallArray<T, 4>"; } };
#define AD2(CLS) template <typename T> struct Ad<CLS<T>> { typedef CLS<T> C; typedef T E; enum { rank = 2, fixed = 0 }; \
  static C* make(const I* n, I al) { return al ? new C(n[0], n[1], il::align, al) : new C(n[0], n[1]); } \
  static T& at(C& c, const I* i) { return c(i[0], i[1]); } static void resize(C& c, const I* n) { c.Resize(n[0], n[1]); } static void reserve(C& c, const I* n) { c.Reserve(n[0], n[1]); } static const char* name() { return #CLS; } };
AD2(il::Array2D) AD2(il::Array2C)
#define AD3(CLS) template <typename T> struct Ad<CLS<T>> { typedef CLS<T> C; typedef T E; enum { rank = 3, fixed = 0 }; \
  static C* make(const I* n, I al) { return al ? new C(n[0], n[1], n[2], il::align, al) : new C(n[0], n[1], n[2]); } \
  static T& at(C& c, const I* i) { return c(i[0], i[1], i[2]); } static void resize(C& c, const I* n) { c.Resize(n[0], n[1], n[2]); } static void reserve(C& c, const I* n) { c.Reserve(n[0], n[1], n[2]); } static const char* name() { return #CLS; } };
AD3(il::Array3D) AD3(il::Array3C)
#define AD4(CLS) template <typename T> struct Ad<CLS<T>> { typedef CLS<T> C; typedef T E; enum { rank = 4, fixed = 0 }; \
  static C* make(const I* n, I) { return new C(n[0], n[1], n[2], n[3]); } \
  static T& at(C& c, const I* i) { return c(i[0], i[1], i[2], i[3]); } static void resize(C& c, const I* n) { c.Resize(n[0], n[1], n[2], n[3]); } static void reserve(C& c, const I* n) { c.Reserve(n[0], n[1], n[2], n[3]); } static const char* name() { return #CLS; } };
AD4(il::Array4D) AD4(il::Array4C)

static bool step(I* i, const I* n, int rank) { for (int d = rank - 1; d >= 0; --d) { if (++i[d] < n[d]) return true; i[d] = 0; } return false; }
static I total(const I* n, int rank) { I t = 1; for (int d = 0; d < rank; ++d) t *= n[d]; return t; }

template <typename C> static void history(Rng& r) {
  typedef Ad<C> A; typedef typename A::E T;
  const int rank = A::rank;
  const I most = rank == 1 ? 20 : rank == 2 ? 7 : rank == 3 ? 5 : 4;
  I n[4] = {0, 0, 0, 0};
  for (int d = 0; d < rank; ++d) n[d] = r.chance(8) ? 0 : r.range(1, most);
  I al = r.chance(40) ? (I)alignof(T) << r.below(4) : 0;
  vf::op(A::name(), "%s %ld %ld %ld %ld align %ld", Mark<T>::name(), (long)n[0], (long)n[1], (long)n[2], (long)n[3], (long)al);
  std::unique_ptr<C> c(A::make(n, al));
  struct Cell { bool set; T x; };
  std::vector<Cell> w; { vf::Quiet q; w.assign((size_t)total(n, rank), Cell{false, T()}); }
  auto check = [&](const char* when) {
    I i[4] = {0, 0, 0, 0};
    if (w.empty()) return;
    size_t k = 0; long marked = 0;
    do {
      T x = A::at(*c, i);
      if (w[k].set) VF_CHECK(memcmp(&x, &w[k].x, sizeof(T) == 16 && std::is_same<T, long double>::value ? 10 : sizeof(T)) == 0, "kept", "%s: element (%ld, %ld, %ld, %ld) has lost the value it was given", when, (long)i[0], (long)i[1], (long)i[2], (long)i[3]);
      else { VF_CHECK(Mark<T>::is(x), "mark", "%s: element (%ld, %ld, %ld, %ld) was never set and does not hold the mark of its type", when, (long)i[0], (long)i[1], (long)i[2], (long)i[3]); ++marked; }
      ++k;
    } while (step(i, n, rank));
    vf::event("elements-marked", marked);
  };
  check("new");
  for (I t = 0, e = r.range(1, 8); t < e; ++t) {
    int what = (int)r.below(6);
    if (what <= 1 && !w.empty()) {
      bool all = r.chance(50);
      vf::op("set", "%s", all ? "all" : "some");
      I i[4] = {0, 0, 0, 0}; size_t k = 0;
      do { if (all || r.chance(50)) { T x = Mark<T>::some(r); memset(&w[k].x, 0, sizeof(T)); w[k].x = x; w[k].set = true; A::at(*c, i) = x; } ++k; } while (step(i, n, rank));
    } else if (what <= 3) {
      I m[4] = {0, 0, 0, 0};
      for (int d = 0; d < rank; ++d) m[d] = r.chance(35) ? n[d] : r.chance(8) ? 0 : r.range(1, most + 1);
      vf::op("Resize", "%ld %ld %ld %ld", (long)m[0], (long)m[1], (long)m[2], (long)m[3]);
      std::vector<Cell> v; { vf::Quiet q; v.assign((size_t)total(m, rank), Cell{false, T()}); }
      I i[4] = {0, 0, 0, 0}; size_t k = 0; bool grown = false;
      if (!v.empty()) do {
        bool in = true; I at = 0;
        for (int d = 0; d < rank; ++d) { if (i[d] >= n[d]) in = false; at = at * n[d] + i[d]; }
        if (in) v[k] = w[(size_t)at]; else grown = true;
        ++k;
      } while (step(i, m, rank));
      A::resize(*c, m);
      { vf::Quiet q; w = v; }
      for (int d = 0; d < 4; ++d) n[d] = m[d];
      vf::event(grown ? "grown" : "not-grown");
    } else if (what == 4) {
      I m[4]; for (int d = 0; d < rank; ++d) m[d] = r.range(1, most + 2);
      vf::op("Reserve", "%ld", (long)m[0]);
      A::reserve(*c, m);
    } else {
      bool mv = r.chance(50);
      vf::op(mv ? "move" : "copy", " ");
      std::unique_ptr<C> b(mv ? new C(std::move(*c)) : new C(*c));
      c = std::move(b);
    }
    check("after an operation");
    vf::sig((uint64_t)total(n, rank) * 8 + (uint64_t)what);
  }
  vf::nontrivial();
}
// the containers of a fixed size, built where other data were, and the triangular matrices
template <typename T, typename C, typename F> static void fixedOne(Rng& r, const char* name, F at, I count) {
  alignas(C) unsigned char room[sizeof(C)];
  memset(room, (int)r.below(255) + 1, sizeof(C));
  vf::op(name, "%s", Mark<T>::name());
  C* c = new (room) C;
  for (I k = 0; k < count; ++k) VF_CHECK(Mark<T>::is(at(*c, k)), "mark", "element %ld was never set and does not hold the mark of its type", (long)k);
  vf::event("fixed", count); vf::event("elements-marked", count);
  c->~C();
}
template <typename T> static void fixed(Rng& r) {
  fixedOne<T, il::StaticArray<T, 5>>(r, "StaticArray", [](il::StaticArray<T, 5>& c, I k) { return c[k]; }, 5);
  fixedOne<T, il::StaticArray2D<T, 3, 2>>(r, "StaticArray2D", [](il::StaticArray2D<T, 3, 2>& c, I k) { return c(k % 3, k / 3); }, 6);
  fixedOne<T, il::StaticArray2C<T, 3, 2>>(r, "StaticArray2C", [](il::StaticArray2C<T, 3, 2>& c, I k) { return c(k % 3, k / 3); }, 6);
  fixedOne<T, il::StaticArray3D<T, 2, 3, 2>>(r, "StaticArray3D", [](il::StaticArray3D<T, 2, 3, 2>& c, I k) { return c(k % 2, k / 2 % 3, k / 6); }, 12);
  fixedOne<T, il::StaticArray4D<T, 2, 1, 3, 2>>(r, "StaticArray4D", [](il::StaticArray4D<T, 2, 1, 3, 2>& c, I k) { return c(k % 2, 0, k / 2 % 3, k / 6); }, 12);
  I n = r.range(0, 9);
  vf::op("triangular", "%s %ld", Mark<T>::name(), (long)n);
  il::LowerArray2D<T> lo(n); il::UpperArray2D<T> up(n);
  for (I i = 0; i < n; ++i) for (I j = 0; j <= i; ++j) {
    VF_CHECK(Mark<T>::is(lo(i, j)), "mark", "lower element (%ld, %ld) was never set and does not hold the mark of its type", (long)i, (long)j);
    VF_CHECK(Mark<T>::is(up(j, i)), "mark", "upper element (%ld, %ld) was never set and does not hold the mark of its type", (long)j, (long)i);
  }
  vf::event("triangular", n); vf::event("elements-marked", n * n);
  vf::nontrivial(); vf::sig((uint64_t)n);
}
template <typename T> static void type(Rng& r) {
  switch (r.below(11)) {
    case 0: case 1: history<il::Array<T>>(r); break;
    case 2: history<il::SmallArray<T, 4>>(r); break;
    case 3: history<il::Array2D<T>>(r); break;
    case 4: history<il::Array2C<T>>(r); break;
    case 5: history<il::Array3D<T>>(r); break;
    case 6: history<il::Array3C<T>>(r); break;
    case 7: history<il::Array4D<T>>(r); break;
    case 8: history<il::Array4C<T>>(r); break;
    default: fixed<T>(r);
  }
}
void vf_case(Rng& r, uint64_t) {
#if VF_PART == 0
  switch (r.below(6)) {
    case 0: type<bool>(r); break;
    case 1: type<char>(r); break;
    case 2: type<signed char>(r); break;
    case 3: type<unsigned char>(r); break;
    case 4: type<short>(r); break;
    default: type<unsigned short>(r);
  }
#elif VF_PART == 1
  switch (r.below(6)) {
    case 0: type<int>(r); break;
    case 1: type<unsigned>(r); break;
    case 2: type<long>(r); break;
    case 3: type<unsigned long>(r); break;
    case 4: type<long long>(r); break;
    default: type<unsigned long long>(r);
  }
#else
  switch (r.below(5)) {
    case 0: type<float>(r); break;
    case 1: type<double>(r); break;
    case 2: type<long double>(r); break;
    case 3: type<std::complex<float>>(r); break;
    default: type<std::complex<double>>(r);
  }
#endif
}
