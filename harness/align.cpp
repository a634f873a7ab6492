// A06: addresses of arrays created with an alignment, through histories of copies, moves,
// growth and assignment, under varied allocator addresses.
#include "vfil.h"
#include <il/Array.h>
#include <il/Array2D.h>
#include <il/Array2C.h>
#include <il/Array3D.h>
#include <il/Array3C.h>
#include "elem.h"
using vf::Rng;

struct Al { int64_t al, r, mod; };
struct S24 { double a[3]; };  // sizeof is not a power of two
struct Packed12 { int a[3]; };

template <typename T>
Al pickAl(Rng& r) {
  Al a;
  int64_t lo = (int64_t)alignof(T);
  a.al = lo << r.below(7);
  a.mod = a.al << r.below(4);
  while (a.mod < (int64_t)sizeof(T)) a.mod *= 2;
  if (a.mod > 16384) a.mod = a.al;
  int64_t step = std::max<int64_t>(a.al, sizeof(T));
  a.r = a.mod > step ? step * r.below(a.mod / step) : 0;
  return a;
}

// the allocator is made to return differently aligned blocks
struct Noise {
  std::vector<void*> p;
  explicit Noise(Rng& r) { int n = (int)r.below(5); for (int i = 0; i < n; ++i) p.push_back(malloc((size_t)r.range(1, 300))); }
  ~Noise() { for (size_t i = 0; i < p.size(); ++i) free(p[i]); }
};

static void addr(const void* p, const Al& a, const char* what, const char* after) {
  uintptr_t u = (uintptr_t)p;
  VF_CHECK((int64_t)(u % (uintptr_t)a.mod) == a.r, "align:address", "after %s %s is %ld modulo %ld, expected %ld", after, what, (long)(u % (uintptr_t)a.mod), (long)a.mod, (long)a.r);
  vf::event("aligned-address");
  if (u % (uintptr_t)(2 * a.mod) != 0) vf::event("aligned-address-odd-multiple");
}

// ---- 1D ---------------------------------------------------------------------
template <typename T>
struct One { il::Array<T>* a; Al al; bool on; std::vector<int64_t> m; };
template <typename T>
void checkOne(One<T>& s, const char* after) {
  il::Array<T>& a = *s.a;
  VF_CHECK(a.size() == (il::int_t)s.m.size(), "align:size", "after %s size %ld expected %ld", after, (long)a.size(), (long)s.m.size());
  for (il::int_t i = 0; i < a.size(); ++i) VF_CHECK(vf::El<T>::id(a[i]) == s.m[i], "align:element", "after %s element %ld changed", after, (long)i);
  if (a.capacity() > 0) {
    if (s.on) {
      VF_CHECK(a.alignment() == s.al.al, "align:reported", "after %s alignment() is %ld, expected %ld", after, (long)a.alignment(), (long)s.al.al);
      addr(a.data(), s.al, "the first element", after);
    }
    if (a.alignment() != 0) VF_CHECK((uintptr_t)a.data() % (uintptr_t)a.alignment() == 0, "align:untrue", "after %s alignment() reports %ld but data() is not", after, (long)a.alignment());
    // the whole capacity belongs to the array
    if (a.capacity() > a.size()) { memset((void*)(a.Data() + a.size()), 0x5a, sizeof(T) * (size_t)(a.capacity() - a.size())); vf::event("spare-capacity-written"); }
  }
}
template <typename T>
void oneD(Rng& r) {
  One<T> s[2];
  int64_t next = 1;
  for (int k = 0; k < 2; ++k) {
    Noise nz(r);
    s[k].al = pickAl<T>(r);
    int64_t n = r.chance(15) ? 0 : r.range(1, 40);
    int form = (int)r.below(4);
    vf::op("align1-ctor", "%s n=%ld al=%ld r=%ld mod=%ld form=%d", vf::El<T>::name(), (long)n, (long)s[k].al.al, (long)s[k].al.r, (long)s[k].al.mod, form);
    if (form == 0) { s[k].a = new il::Array<T>(n, il::align, s[k].al.al, s[k].al.r, s[k].al.mod); }
    else if (form == 1) { s[k].al.r = 0; s[k].al.mod = s[k].al.al; s[k].a = new il::Array<T>(n, il::align, s[k].al.al); }
    else if (form == 2) { s[k].a = new il::Array<T>(n, vf::El<T>::make(3), il::align, s[k].al.al, s[k].al.r, s[k].al.mod); }
    else { s[k].al.r = 0; s[k].al.mod = s[k].al.al; s[k].a = new il::Array<T>(n, vf::El<T>::make(3), il::align, s[k].al.al); }
    s[k].on = s[k].a->alignment() != 0;
    if (n > 0) VF_CHECK(s[k].on, "align:dropped", "a non-empty array created with alignment %ld reports none", (long)s[k].al.al);
    for (int64_t i = 0; i < n; ++i) {
      if (form >= 2) VF_CHECK(vf::El<T>::id((*s[k].a)[i]) == vf::Norm<T>::n(3), "align:fill", "element %ld is not the fill value", (long)i);
      int64_t x = next++ % 100; (*s[k].a)[i] = vf::El<T>::make(x); s[k].m.push_back(vf::Norm<T>::n(x));
    }
    checkOne(s[k], "construction");
  }
  vf::nontrivial();
  vf::event("align1");
  for (int q = (int)r.range(3, 14); q > 0; --q) {
    int ka = (int)r.below(2);
    One<T>&a = s[ka], &b = s[1 - ka];
    Noise nz(r);
    switch (r.below(8)) {
      case 0: vf::op("align1-copy-assign"); *a.a = *b.a; a.m = b.m; a.al = b.al; a.on = b.on; vf::event("align-copy"); break;
      case 1: { vf::op("align1-copy-ctor"); il::Array<T>* c = new il::Array<T>(*b.a); delete a.a; a.a = c; a.m = b.m; a.al = b.al; a.on = b.on; vf::event("align-copy"); break; }
      case 2: vf::op("align1-move-assign"); *a.a = std::move(*b.a); a.m = b.m; a.al = b.al; a.on = b.on; b.m.clear(); b.on = false; vf::event("align-move"); break;
      case 3: { int64_t n = r.range(0, 60); vf::op("align1-resize", "%ld", (long)n); size_t o = a.m.size(); a.a->Resize(n); a.m.resize((size_t)n);
        for (int64_t i = (int64_t)o; i < n; ++i) { int64_t x = next++ % 100; (*a.a)[i] = vf::El<T>::make(x); a.m[i] = vf::Norm<T>::n(x); } vf::event("align-resize"); break; }
      case 4: { int64_t n = r.range(0, 80); vf::op("align1-reserve", "%ld", (long)n); a.a->Reserve(n); vf::event("align-reserve"); break; }
      case 5: { int64_t n = r.range(0, 60); vf::op("align1-resize-value", "%ld", (long)n); a.a->Resize(n, vf::El<T>::make(7)); a.m.resize((size_t)n, vf::Norm<T>::n(7)); break; }
      default: { int64_t n = r.range(1, 20); vf::op("align1-append", "%ld", (long)n);
        for (int64_t i = 0; i < n; ++i) { int64_t x = next++ % 100; a.a->Append(vf::El<T>::make(x)); a.m.push_back(vf::Norm<T>::n(x)); if (a.on) addr(a.a->data(), a.al, "the first element", "append"); } vf::event("align-append"); }
    }
    for (int k = 0; k < 2; ++k) checkOne(s[k], vf::st().last_op);
  }
  for (int k = 0; k < 2; ++k) delete s[k].a;
}

// ---- N-d ---------------------------------------------------------------------
template <typename C> struct TR;
template <typename T> struct TR<il::Array2D<T>> { typedef T E; enum { rank = 2, row = 0 };
  static il::Array2D<T>* mk(const int64_t* n, const Al& a) { return a.r == 0 && a.mod == a.al ? new il::Array2D<T>(n[0], n[1], il::align, a.al) : new il::Array2D<T>(n[0], n[1], il::align, a.al, a.r, a.mod); }
  static il::Array2D<T>* mkv(const int64_t* n, const T& x, const Al& a) { return a.r == 0 && a.mod == a.al ? new il::Array2D<T>(n[0], n[1], x, il::align, a.al) : new il::Array2D<T>(n[0], n[1], x, il::align, a.al, a.r, a.mod); }
  static T& at(il::Array2D<T>& a, int64_t i, int64_t j, int64_t) { return a(i, j); }
  static void rs(il::Array2D<T>& a, const int64_t* n) { a.Resize(n[0], n[1]); }
  static void rv(il::Array2D<T>& a, const int64_t* n) { a.Reserve(n[0], n[1]); } };
template <typename T> struct TR<il::Array2C<T>> { typedef T E; enum { rank = 2, row = 1 };
  static il::Array2C<T>* mk(const int64_t* n, const Al& a) { return a.r == 0 && a.mod == a.al ? new il::Array2C<T>(n[0], n[1], il::align, a.al) : new il::Array2C<T>(n[0], n[1], il::align, a.al, a.r, a.mod); }
  static il::Array2C<T>* mkv(const int64_t* n, const T& x, const Al& a) { return a.r == 0 && a.mod == a.al ? new il::Array2C<T>(n[0], n[1], x, il::align, a.al) : new il::Array2C<T>(n[0], n[1], x, il::align, a.al, a.r, a.mod); }
  static T& at(il::Array2C<T>& a, int64_t i, int64_t j, int64_t) { return a(i, j); }
  static void rs(il::Array2C<T>& a, const int64_t* n) { a.Resize(n[0], n[1]); }
  static void rv(il::Array2C<T>& a, const int64_t* n) { a.Reserve(n[0], n[1]); } };
template <typename T> struct TR<il::Array3D<T>> { typedef T E; enum { rank = 3, row = 0 };
  static il::Array3D<T>* mk(const int64_t* n, const Al& a) { return a.r == 0 && a.mod == a.al ? new il::Array3D<T>(n[0], n[1], n[2], il::align, a.al) : new il::Array3D<T>(n[0], n[1], n[2], il::align, a.al, a.r, a.mod); }
  static il::Array3D<T>* mkv(const int64_t* n, const T& x, const Al& a) { return a.r == 0 && a.mod == a.al ? new il::Array3D<T>(n[0], n[1], n[2], x, il::align, a.al) : new il::Array3D<T>(n[0], n[1], n[2], x, il::align, a.al, a.r, a.mod); }
  static T& at(il::Array3D<T>& a, int64_t i, int64_t j, int64_t k) { return a(i, j, k); }
  static void rs(il::Array3D<T>& a, const int64_t* n) { a.Resize(n[0], n[1], n[2]); }
  static void rv(il::Array3D<T>& a, const int64_t* n) { a.Reserve(n[0], n[1], n[2]); } };
template <typename T> struct TR<il::Array3C<T>> { typedef T E; enum { rank = 3, row = 1 };
  static il::Array3C<T>* mk(const int64_t* n, const Al& a) { return a.r == 0 && a.mod == a.al ? new il::Array3C<T>(n[0], n[1], n[2], il::align, a.al) : new il::Array3C<T>(n[0], n[1], n[2], il::align, a.al, a.r, a.mod); }
  static il::Array3C<T>* mkv(const int64_t* n, const T& x, const Al& a) { return a.r == 0 && a.mod == a.al ? new il::Array3C<T>(n[0], n[1], n[2], x, il::align, a.al) : new il::Array3C<T>(n[0], n[1], n[2], x, il::align, a.al, a.r, a.mod); }
  static T& at(il::Array3C<T>& a, int64_t i, int64_t j, int64_t k) { return a(i, j, k); }
  static void rs(il::Array3C<T>& a, const int64_t* n) { a.Resize(n[0], n[1], n[2]); }
  static void rv(il::Array3C<T>& a, const int64_t* n) { a.Reserve(n[0], n[1], n[2]); } };

// zero: the storage may have been sized while one extent was zero
template <typename C> struct Nd { C* a; Al al; bool on, zero; };
template <typename C>
void checkNd(Nd<C>& s, const char* after) {
  typedef TR<C> R;
  typedef typename R::E T;
  C& a = *s.a;
  int64_t n[3] = {a.size(0), a.size(1), R::rank > 2 ? (int64_t)a.size(R::rank - 1) : 1};
  if (n[0] == 0 || n[1] == 0 || n[2] == 0) { s.zero = true; return; }
  if (a.alignment() != 0) VF_CHECK((uintptr_t)a.data() % (uintptr_t)a.alignment() == 0, "align:untrue", "after %s alignment() reports %ld but data() is not", after, (long)a.alignment());
  if (!s.on) return;
  VF_CHECK(a.alignment() == s.al.al, "align:reported", "after %s alignment() is %ld, expected %ld", after, (long)a.alignment(), (long)s.al.al);
  addr(a.data(), s.al, "the first element", after);
  // every contiguous line starts on the alignment
  for (int64_t k = 0; k < n[2]; ++k)
    for (int64_t q = 0; q < (R::row ? n[0] : n[1]); ++q) {
      if (R::row && R::rank == 2 && k) break;
      for (int64_t p = 0; p < (R::row && R::rank == 3 ? n[1] : 1); ++p) {
        const T* x = R::row ? (R::rank == 2 ? &R::at(a, q, 0, 0) : &R::at(a, q, p, 0)) : &R::at(a, 0, q, k);
        VF_CHECK((uintptr_t)x % (uintptr_t)s.al.al == 0, s.zero ? "align:line-of-storage-sized-with-a-zero-extent" : "align:line", "after %s line (%ld,%ld,%ld) is not aligned on %ld", after, (long)q, (long)p, (long)k, (long)s.al.al);
        vf::event("aligned-line");
      }
    }
}
template <typename C>
void nD(Rng& r) {
  typedef TR<C> R;
  typedef typename R::E T;
  Nd<C> s[2];
  for (int k = 0; k < 2; ++k) {
    Noise nz(r);
    s[k].al = pickAl<T>(r);
    if (r.chance(30)) { s[k].al.r = 0; s[k].al.mod = s[k].al.al; vf::event("align-default-offset"); }
    int64_t n[3] = {r.range(1, 9), r.range(1, 9), r.range(1, 4)};
    vf::op("alignN-ctor", "%s rank %d row %d n=%ld %ld %ld al=%ld r=%ld mod=%ld", vf::El<T>::name(), (int)R::rank, (int)R::row, (long)n[0], (long)n[1], (long)n[2], (long)s[k].al.al, (long)s[k].al.r, (long)s[k].al.mod);
    s[k].a = r.chance(50) ? R::mk(n, s[k].al) : R::mkv(n, vf::El<T>::make(1), s[k].al);
    s[k].on = true;
    s[k].zero = false;
    checkNd(s[k], "construction");
  }
  vf::nontrivial();
  vf::event(R::rank == 2 ? "align2" : "align3");
  for (int q = (int)r.range(3, 10); q > 0; --q) {
    int ka = (int)r.below(2);
    Nd<C>&a = s[ka], &b = s[1 - ka];
    Noise nz(r);
    int64_t n[3] = {r.range(0, 10), r.range(0, 10), r.range(0, 5)};
    switch (r.below(6)) {
      case 0: vf::op("alignN-copy-assign"); *a.a = *b.a; a.al = b.al; a.on = b.on; a.zero = a.zero || b.zero; vf::event("align-copy"); break;
      case 1: { vf::op("alignN-copy-ctor"); C* c = new C(*b.a); delete a.a; a.a = c; a.al = b.al; a.on = b.on; a.zero = b.zero; vf::event("align-copy"); break; }
      case 2: vf::op("alignN-move-assign"); *a.a = std::move(*b.a); a.al = b.al; a.on = b.on; b.on = false; a.zero = b.zero; b.zero = false; vf::event("align-move"); break;
      case 3: case 4: vf::op("alignN-resize", "%ld %ld %ld", (long)n[0], (long)n[1], (long)n[2]); R::rs(*a.a, n); vf::event("align-resize"); break;
      default: vf::op("alignN-reserve", "%ld %ld %ld", (long)n[0], (long)n[1], (long)n[2]); R::rv(*a.a, n); vf::event("align-reserve");
    }
    for (int k = 0; k < 2; ++k) {
      C& c = *s[k].a;
      int64_t z[3] = {c.size(0), c.size(1), R::rank > 2 ? (int64_t)c.size(R::rank - 1) : 1};
      for (int64_t i = 0; i < z[0]; ++i) for (int64_t j = 0; j < z[1]; ++j) for (int64_t l = 0; l < z[2]; ++l) R::at(c, i, j, l) = vf::El<T>::make(5);
      checkNd(s[k], vf::st().last_op);
    }
  }
  for (int k = 0; k < 2; ++k) delete s[k].a;
}

template <typename T>
void any(Rng& r) {
  switch (r.below(6)) {
    case 0: return nD<il::Array2D<T>>(r);
    case 1: return nD<il::Array2C<T>>(r);
    case 2: return nD<il::Array3D<T>>(r);
    case 3: return nD<il::Array3C<T>>(r);
    default: return oneD<T>(r);
  }
}

void vf_case(Rng& r, uint64_t idx) {
  if (idx < 2) {  // element sizes that do not divide the required byte shift
    vf::nontrivial();
    if (idx == 0) {
      vf::op("align-complex-offset-8");
      il::Array<std::complex<double>> a{4, il::align, 8, 8, 16};
      VF_CHECK((uintptr_t)a.data() % 16 == 8, "align:size-not-dividing-shift:complex-offset-8", "an array of 4 complex<double> created with alignment 8, offset 8 modulo 16 starts at %ld modulo 16", (long)((uintptr_t)a.data() % 16));
    } else {
      vf::op("align-24-byte-element");
      for (int k = 0; k < 64; ++k) {
        il::Array<S24> b{k + 1};
        il::Array<S24> a{k + 1, il::align, 64};
        VF_CHECK((uintptr_t)a.data() % 64 == 0, "align:size-not-dividing-shift:24-byte-element", "an array of 24-byte elements created with alignment 64 starts at %ld modulo 64", (long)((uintptr_t)a.data() % 64));
      }
    }
    return;
  }
  switch (r.below(6)) {
    case 0: any<char>(r); break;
    case 1: any<short>(r); break;
    case 2: any<int>(r); break;
    case 3: any<float>(r); break;
    case 4: any<double>(r); break;
    default: any<std::complex<double>>(r);
  }
  if (vf::wantSample()) vf::sample(vf::fmt("last op %s", vf::st().last_op));
}
