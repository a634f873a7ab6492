// P01: what the debugger shows of a container is what the container holds.
// The program runs under gdb: it fills one object of every kind, writes down what the objects' own accessors report,
// and stops; a script compares what the repository's printers show with the notes.
#include "vfil.h"
#include <sys/wait.h>
#include <deque>
#include <memory>
#include <string>
#include <il/Array.h>
#include <il/SmallArray.h>
#include <il/StaticArray.h>
#include <il/ArrayView.h>
#include <il/Array2D.h>
#include <il/Array2C.h>
#include <il/Array2DView.h>
#include <il/StaticArray2D.h>
#include <il/StaticArray2C.h>
#include <il/container/2d/LowerArray2D.h>
#include <il/TriDiagonal.h>
#include <il/SparseMatrixCSR.h>
#include <il/Array3D.h>
#include <il/StaticArray3D.h>
#include <il/Array4D.h>
#include <il/Array4C.h>
#include <il/StaticArray4D.h>
#include <il/String.h>
#include <il/Map.h>
#include <il/Info.h>
#include <il/Status.h>
#include <il/Dynamic.h>
#include <il/container/deque/Deque.h>
using vf::Rng;
typedef il::int_t I;
typedef const char* CS;

// ---- the program under the debugger ---------------------------------------------
static std::string& notes() { static std::string* s = new std::string; return *s; }
extern "C" { const char* volatile vf_notes; volatile long vf_notes_size; void __attribute__((noinline)) vf_stop() { asm volatile("" ::: "memory"); } }
static void note(const char* f, ...) __attribute__((format(printf, 1, 2)));
static void note(const char* f, ...) { char b[4000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); notes() += b; notes() += '\n'; }
static std::string hex(const std::string& s) { std::string t; char b[3]; for (unsigned char c : s) { snprintf(b, 3, "%02x", c); t += b; } return t; }
static std::string enc(int x) { return vf::fmt("i%d", x); }
static std::string enc(long x) { return vf::fmt("i%ld", x); }
static std::string enc(double x) { return vf::fmt("d%.17g", x); }
static std::string enc(const il::String& s) { return "s" + hex(std::string(s.asCString(), (size_t)s.size())); }
static void object(const char* name) { note("V %s", name); }
static void pair(const char* name, I x) { note("P %s\t%ld", name, (long)x); }
static void textPair(const char* name, const char* x) { note("P %s\t%s", name, x); }
static void child(const std::string& label, const std::string& v) { note("C %s\t%s", label.c_str(), v.c_str()); }
static void number(const char* label, I x) { child(label, enc((long)x)); }

template <typename T> struct Make;
template <> struct Make<int> { static int some(Rng& r) { return (int)r.next(); } };
template <> struct Make<long> { static long some(Rng& r) { return (long)r.next(); } };
template <> struct Make<double> { static double some(Rng& r) { return (double)r.range(-100000, 100000) / 64; } };
static il::String words(Rng& r, bool utf8, I most) {
  il::String s;
  for (I i = 0, n = r.range(0, most); i < n; ++i) if (utf8 && r.chance(20)) s.Append((int)(r.chance(50) ? r.range(0xA0, 0x7FF) : r.chance(50) ? r.range(0x4E00, 0x9FFF) : r.range(0x1F300, 0x1F64F))); else s.Append((char)r.range('a', 'z'));
  return s;
}
template <> struct Make<il::String> { static il::String some(Rng& r) { return words(r, false, 40); } };


il::Array<int>* o_ai; il::Array<double>* o_ad; il::Array<il::String>* o_as;
il::SmallArray<double, 3>* o_sad; il::SmallArray<il::String, 2>* o_sas;
il::StaticArray<int, 5>* o_sti; il::ArrayView<double>* o_vd; il::ArrayView<int>* o_vi;
il::Array2D<double>* o_2d; il::Array2D<int>* o_2i; il::Array2C<double>* o_2cd; il::Array2C<il::String>* o_2cs;
il::Array2DView<double>* o_v2; il::StaticArray2D<int, 3, 2>* o_s2d; il::StaticArray2C<double, 3, 2>* o_s2c;
il::LowerArray2D<double>* o_low; il::TriDiagonal<double>* o_tri;
il::SparseMatrixCSR<int, double>* o_spi; il::SparseMatrixCSR<il::int_t, double>* o_spl;
il::Array3D<double>* o_3d; il::StaticArray3D<int, 2, 3, 2>* o_s3; il::Array4D<int>* o_4d; il::Array4C<double>* o_4c; il::StaticArray4D<double, 2, 1, 3, 2>* o_s4;
il::String* o_s; il::String* o_t; il::StringView* o_sv;
il::Map<il::String, int>* o_mi; il::Map<il::String, il::String>* o_ms; il::Info* o_info; il::Status* o_st; il::Dynamic* o_dyn[4];
il::Deque<int>* o_di; il::Deque<il::String>* o_ds;

template <typename C> static void tell1(const char* name, const C& c, bool capacity, I cap) {
  object(name);
  pair("size", c.size()); if (capacity) pair("capacity", cap);
  number("size", c.size()); if (capacity) number("capacity", cap);
  for (I i = 0; i < c.size(); ++i) child(vf::fmt("[%ld]", (long)i), enc(c[i]));
}
template <typename C, typename T> static void grow(Rng& r, C& c) {
  for (I k = 0, e = r.range(0, 4); k < e; ++k) switch (r.below(4)) {
    case 0: { for (I i = 0, n = r.range(0, 6); i < n; ++i) c.Append(Make<T>::some(r)); break; }
    case 1: { I m = c.size(); c.Resize(r.range(0, 9)); for (I i = m; i < c.size(); ++i) c[i] = Make<T>::some(r); break; }
    case 2: c.Reserve(r.range(0, 15)); break;
    default: if (r.chance(30)) { C d(std::move(c)); if (r.chance(50)) c = d; } else { C d(c); c = std::move(d); }
  }
}
template <typename T> static void array(Rng& r, const char* name, il::Array<T>*& p) {
  delete p;
  bool al = sizeof(T) <= 8 && r.chance(30);
  I m = r.chance(5) ? r.range(20, 250) : r.range(0, 6);
  p = al ? new il::Array<T>(m, il::align, 64) : new il::Array<T>(m);
  for (I i = 0; i < p->size(); ++i) (*p)[i] = Make<T>::some(r);
  grow<il::Array<T>, T>(r, *p);
  tell1(name, *p, true, p->capacity());
  if (p->alignment() > 0) number("alignment", p->alignment());
}
template <typename T, il::int_t n> static void small(Rng& r, const char* name, il::SmallArray<T, n>*& p) {
  delete p; p = new il::SmallArray<T, n>(r.chance(5) ? r.range(20, 250) : r.range(0, 5));
  for (I i = 0; i < p->size(); ++i) (*p)[i] = Make<T>::some(r);
  grow<il::SmallArray<T, n>, T>(r, *p);
  tell1(name, *p, true, p->capacity());
}
template <typename C> static void head2(const char* name, const C& c, bool cap) {
  object(name);
  pair("size0", c.size(0)); pair("size1", c.size(1)); number("size_0", c.size(0)); number("size_1", c.size(1));
  (void)cap;
}
template <typename C> static void caps2(const C& c) { pair("capacity0", c.capacity(0)); pair("capacity1", c.capacity(1)); number("capacity_0", c.capacity(0)); number("capacity_1", c.capacity(1)); }
template <typename C> static void cells2(const C& c, bool rows) {
  I n = c.size(0), m = c.size(1);
  if (rows) { for (I i = 0; i < n; ++i) for (I j = 0; j < m; ++j) child(vf::fmt("[%ld, %ld]", (long)i, (long)j), enc(c(i, j))); }
  else for (I j = 0; j < m; ++j) for (I i = 0; i < n; ++i) child(vf::fmt("[%ld, %ld]", (long)i, (long)j), enc(c(i, j)));
}
template <typename C, typename T> static void fill2(Rng& r, C& c) { for (I i = 0; i < c.size(0); ++i) for (I j = 0; j < c.size(1); ++j) c(i, j) = Make<T>::some(r); }
template <typename C, typename T> static void dense2(Rng& r, const char* name, C*& p, bool rows) {
  delete p;
  I n = r.range(0, 4), m = r.range(0, 4);
  p = sizeof(T) <= 8 && r.chance(30) ? new C(n, m, il::align, 32) : new C(n, m);
  fill2<C, T>(r, *p);
  if (r.chance(50)) { p->Reserve(n + r.below(4), m + r.below(4)); }
  if (r.chance(30)) { p->Resize(r.range(0, 5), r.range(0, 5)); fill2<C, T>(r, *p); }
  head2(name, *p, true); caps2(*p); cells2(*p, rows);
}
template <typename Index> static void sparse(Rng& r, const char* name, il::SparseMatrixCSR<Index, double>*& p) {
  delete p;
  I n = r.range(1, 5), m = r.range(1, 6);
  il::Array<Index> col{}, row{n + 1};
  row[0] = 0;
  for (I i = 0; i < n; ++i) { for (I j = 0; j < m; ++j) if (r.chance(35)) col.Append((Index)j); row[i + 1] = (Index)col.size(); }
  il::Array<double> e{col.size()};
  for (I k = 0; k < e.size(); ++k) e[k] = Make<double>::some(r);
  p = new il::SparseMatrixCSR<Index, double>(n, m, col, row, e);
  object(name);
  pair("size0", p->size(0)); pair("size1", p->size(1));
  number("nb_rows", p->size(0)); number("nb_cols", p->size(1)); number("nb_nonzeros", p->nbNonZeros());
  for (I i = 0; i < n; ++i) for (I k = p->row(i); k < p->row(i + 1); ++k) child(vf::fmt("[%ld, %ld]", (long)i, (long)p->column(k)), enc((*p)[k]));
}
template <typename C> static void cells3(const C& c) {
  for (I k = 0; k < c.size(2); ++k) for (I j = 0; j < c.size(1); ++j) for (I i = 0; i < c.size(0); ++i) child(vf::fmt("[%ld, %ld, %ld]", (long)i, (long)j, (long)k), enc(c(i, j, k)));
}
template <typename C> static void cells4(const C& c, bool rows) {
  I n[4] = {c.size(0), c.size(1), c.size(2), c.size(3)}, i[4] = {0, 0, 0, 0};
  for (int d = 0; d < 4; ++d) if (n[d] == 0) return;
  for (;;) {
    child(vf::fmt("[%ld, %ld, %ld, %ld]", (long)i[0], (long)i[1], (long)i[2], (long)i[3]), enc(c(i[0], i[1], i[2], i[3])));
    int d = rows ? 3 : 0;
    while (d >= 0 && d < 4 && ++i[d] == n[d]) { i[d] = 0; d += rows ? -1 : 1; }
    if (d < 0 || d > 3) return;
  }
}
template <typename C> static void sizes(const C& c, int rank, bool cap, bool text) {
  for (int d = 0; d < rank; ++d) { number(vf::fmt("size_%d", d).c_str(), c.size(d)); if (text || d < 2) pair(vf::fmt("size%d", d).c_str(), c.size(d)); }
  (void)cap;
}
template <typename C> static void capacities(const C& c, int rank, int text) { for (int d = 0; d < rank; ++d) { number(vf::fmt("capacity_%d", d).c_str(), c.capacity(d)); if (d < text) pair(vf::fmt("capacity%d", d).c_str(), c.capacity(d)); } }
static void tellString(const char* name, const il::String& s) {
  object(name);
  note("T %s", hex(std::string(s.asCString(), (size_t)s.size())).c_str());
  pair("size", s.size()); pair("capacity", s.capacity());
  textPair("type", s.type() == il::StringType::Ascii ? "ascii" : s.type() == il::StringType::Utf8 ? "utf8" : s.type() == il::StringType::Wtf8 ? "wtf8" : "byte");
  textPair("is small", s.isSmall() ? "True" : "False");
}
template <typename V> static void map(Rng& r, const char* name, il::Map<il::String, V>*& p) {
  delete p; p = new il::Map<il::String, V>{};
  std::vector<il::String> keys;
  const bool large = r.chance(15);
  if (large && r.chance(30)) p->Reserve(r.range(20, 90));
  for (I k = 0, e = large ? r.range(20, 70) : r.range(0, 14); k < e; ++k) {
    il::String key = words(r, false, r.chance(60) ? 12 : 45); p->Set(key, Make<V>::some(r)); keys.push_back(key);
    if (r.chance(30)) { il::spot_t s = p->search(keys[(size_t)r.below((I)keys.size())]); if (p->found(s)) p->erase(s); }
  }
  if (r.chance(10)) p->Clear();
  if (large && p->nbTombstones() > 1) note("E several-tombstones");
  object(name);
  number("nb_elements", p->nbElements()); number("nb_tombstones", p->nbTombstones()); number("nb_buckets", p->nbBuckets());
  for (il::spot_t s = p->spotBegin(); s != p->spotEnd(); s = p->next(s)) child("[]", "m" + enc(p->key(s)).substr(1) + "/" + enc(p->value(s)));
}
template <typename T> static void deque(Rng& r, const char* name, il::Deque<T>*& p) {
  delete p;
  I cap = r.range(0, 6);
  p = cap == 0 && r.chance(50) ? new il::Deque<T>() : new il::Deque<T>(cap);
  std::deque<T> w;
  for (I k = 0, e = r.range(0, 14); k < e; ++k) {
    if (r.chance(60) ? (I)w.size() < cap : w.empty()) { if ((I)w.size() == cap) continue; T x = Make<T>::some(r); if (r.chance(50)) { p->PushBack(x); w.push_back(x); } else { p->PushFront(x); w.push_front(x); } }
    else if (!w.empty()) { if (r.chance(50)) { p->PopBack(); w.pop_back(); } else { p->PopFront(); w.pop_front(); } }
  }
  object(name);
  pair("size", p->size()); pair("capacity", p->capacity()); number("size", p->size()); number("capacity", p->capacity());
  for (size_t i = 0; i < w.size(); ++i) child(vf::fmt("[%zu]", i), enc(w[i]));
}
static void info(Rng& r, il::Info& f, int fields, bool tell) {
  for (int k = 0; k < fields; ++k) {
    std::string key = vf::fmt("f%d%s", k, r.chance(30) ? "_longer_name" : "");
    switch (r.below(3)) {
      case 0: { il::int_t x = r.chance(50) ? r.range(-5, 5) : (I)r.next(); f.Set(key.c_str(), x); if (tell) child(key, enc((long)x)); break; }
      case 1: { double x = Make<double>::some(r); f.Set(key.c_str(), x); if (tell) child(key, enc(x)); break; }
      default: { std::string t((size_t)r.below(20), (char)r.range('a', 'z')); f.Set(key.c_str(), t.c_str()); if (tell) child(key, "c" + hex(t)); }
    }
  }
}
static void round(Rng& r) {
  notes().clear();
  array(r, "o_ai", o_ai); array(r, "o_ad", o_ad); array(r, "o_as", o_as);
  small(r, "o_sad", o_sad); small(r, "o_sas", o_sas);
  delete o_sti; o_sti = new il::StaticArray<int, 5>(); for (I i = 0; i < 5; ++i) (*o_sti)[i] = Make<int>::some(r);
  tell1("o_sti", *o_sti, false, 0);
  delete o_vd; o_vd = new il::ArrayView<double>(o_ad->view()); if (o_ad->size() > 0 && r.chance(50)) { I b = r.below(o_ad->size()); *o_vd = o_ad->view(il::Range{b, b + r.below(o_ad->size() - b + 1)}); }
  tell1("o_vd", *o_vd, false, 0);
  delete o_vi; o_vi = r.chance(20) ? new il::ArrayView<int>() : new il::ArrayView<int>(o_ai->view());
  tell1("o_vi", *o_vi, false, 0);
  dense2<il::Array2D<double>, double>(r, "o_2d", o_2d, false); dense2<il::Array2D<int>, int>(r, "o_2i", o_2i, false);
  dense2<il::Array2C<double>, double>(r, "o_2cd", o_2cd, true); dense2<il::Array2C<il::String>, il::String>(r, "o_2cs", o_2cs, true);
  delete o_v2; o_v2 = new il::Array2DView<double>(o_2d->view());
  if (o_2d->size(0) > 0 && o_2d->size(1) > 0 && r.chance(60)) { I b = r.below(o_2d->size(0)), c = r.below(o_2d->size(1)); *o_v2 = o_2d->view(il::Range{b, b + r.below(o_2d->size(0) - b + 1)}, il::Range{c, c + r.below(o_2d->size(1) - c + 1)}); }
  if (r.chance(40)) {  // a view made from a pointer, with lines apart, aligned or not
    static double cells[120];
    for (double& x : cells) x = Make<double>::some(r);
    I n = r.range(0, 4), m = r.range(0, 4), s = n + r.range(n == 0, 9);
    *o_v2 = r.chance(50) ? il::Array2DView<double>(cells, n, m, s) : il::Array2DView<double>(cells, n, m, s, (short)(16 << r.below(4)), 0);
  }
  head2("o_v2", *o_v2, false); cells2(*o_v2, false);
  delete o_s2d; o_s2d = new il::StaticArray2D<int, 3, 2>(); fill2<il::StaticArray2D<int, 3, 2>, int>(r, *o_s2d); head2("o_s2d", *o_s2d, false); cells2(*o_s2d, false);
  delete o_s2c; o_s2c = new il::StaticArray2C<double, 3, 2>(); fill2<il::StaticArray2C<double, 3, 2>, double>(r, *o_s2c); head2("o_s2c", *o_s2c, false); cells2(*o_s2c, true);
  { delete o_low; I n = r.range(0, 5); o_low = new il::LowerArray2D<double>(n); for (I j = 0; j < n; ++j) for (I i = j; i < n; ++i) (*o_low)(i, j) = Make<double>::some(r); if (r.chance(30)) { il::LowerArray2D<double> w(*o_low); *o_low = w; } else if (r.chance(30)) { il::LowerArray2D<double> w(std::move(*o_low)); *o_low = std::move(w); }
    object("o_low"); pair("size", n); number("size", n); pair("capacity", o_low->capacity()); number("capacity", o_low->capacity());
    for (I j = 0; j < n; ++j) for (I i = j; i < n; ++i) child(vf::fmt("[%ld, %ld]", (long)i, (long)j), enc((*o_low)(i, j))); }
  { delete o_tri; I n = r.range(0, 5); o_tri = new il::TriDiagonal<double>(n); for (I i = 0; i < n; ++i) for (I k = -1; k <= 1; ++k) (*o_tri)(i, k) = Make<double>::some(r);
    object("o_tri"); pair("size", n); number("size", n);
    for (I i = 0; i < n; ++i) for (I k = -1; k <= 1; ++k) if (i + k >= 0 && i + k < n) child(vf::fmt("[%ld, %ld]", (long)i, (long)(i + k)), enc((*o_tri)(i, k))); }
  sparse(r, "o_spi", o_spi); sparse(r, "o_spl", o_spl);
  { delete o_3d; o_3d = new il::Array3D<double>(r.range(0, 3), r.range(0, 3), r.range(0, 3)); if (r.chance(40)) o_3d->Reserve(o_3d->size(0) + r.below(3), o_3d->size(1) + r.below(3), o_3d->size(2) + r.below(3));
    for (I i = 0; i < o_3d->size(0); ++i) for (I j = 0; j < o_3d->size(1); ++j) for (I k = 0; k < o_3d->size(2); ++k) (*o_3d)(i, j, k) = Make<double>::some(r);
    object("o_3d"); sizes(*o_3d, 3, true, false); capacities(*o_3d, 3, 2); cells3(*o_3d); }
  { delete o_s3; o_s3 = new il::StaticArray3D<int, 2, 3, 2>(); for (I i = 0; i < 2; ++i) for (I j = 0; j < 3; ++j) for (I k = 0; k < 2; ++k) (*o_s3)(i, j, k) = Make<int>::some(r); object("o_s3"); sizes(*o_s3, 3, false, true); cells3(*o_s3); }
  { delete o_4d; o_4d = new il::Array4D<int>(r.range(0, 3), r.range(0, 3), r.range(0, 3), r.range(0, 3)); if (r.chance(40)) o_4d->Reserve(o_4d->size(0) + r.below(2), o_4d->size(1) + r.below(3), o_4d->size(2) + r.below(3), o_4d->size(3) + r.below(2));
    for (I i = 0; i < o_4d->size(0); ++i) for (I j = 0; j < o_4d->size(1); ++j) for (I k = 0; k < o_4d->size(2); ++k) for (I l = 0; l < o_4d->size(3); ++l) (*o_4d)(i, j, k, l) = Make<int>::some(r);
    object("o_4d"); sizes(*o_4d, 4, true, true); capacities(*o_4d, 4, 4); cells4(*o_4d, false); }
  { delete o_4c; o_4c = new il::Array4C<double>(r.range(0, 3), r.range(0, 3), r.range(0, 3), r.range(0, 3)); if (r.chance(40)) o_4c->Reserve(o_4c->size(0) + r.below(2), o_4c->size(1) + r.below(3), o_4c->size(2) + r.below(3), o_4c->size(3) + r.below(2));
    for (I i = 0; i < o_4c->size(0); ++i) for (I j = 0; j < o_4c->size(1); ++j) for (I k = 0; k < o_4c->size(2); ++k) for (I l = 0; l < o_4c->size(3); ++l) (*o_4c)(i, j, k, l) = Make<double>::some(r);
    object("o_4c"); sizes(*o_4c, 4, true, true); capacities(*o_4c, 4, 4); cells4(*o_4c, true); }
  { delete o_s4; o_s4 = new il::StaticArray4D<double, 2, 1, 3, 2>(); for (I i = 0; i < 2; ++i) for (I k = 0; k < 3; ++k) for (I l = 0; l < 2; ++l) (*o_s4)(i, 0, k, l) = Make<double>::some(r); object("o_s4"); sizes(*o_s4, 4, false, true); cells4(*o_s4, false); }
  delete o_s; o_s = new il::String(words(r, true, r.chance(10) ? 400 : 45)); if (r.chance(20)) o_s->Reserve(r.range(0, 60)); tellString("o_s", *o_s);
  { delete o_t; std::string b; for (I k = 0, e = r.range(0, 45); k < e; ++k) b += (char)(r.chance(5) ? 0 : r.range(1, 126));
    o_t = new il::String(r.pick({il::StringType::Ascii, il::StringType::Byte, il::StringType::Utf8, il::StringType::Wtf8}), b.data(), (I)b.size()); if (r.chance(30)) o_t->Append((char)'!'); if (r.chance(20)) *o_t = il::String(); tellString("o_t", *o_t); }
  { delete o_sv; o_sv = new il::StringView(*o_s); if (r.chance(40)) *o_sv = il::StringView(); else if (o_s->size() > 0 && r.chance(50)) { I b = r.below(o_s->size()); while (!o_s->isRuneBoundary(b)) --b; *o_sv = o_s->subview(b, o_s->size()); }
    object("o_sv"); note("T %s", hex(std::string(o_sv->size() > 0 ? o_sv->data() : "", (size_t)o_sv->size())).c_str()); }
  map(r, "o_mi", o_mi); map(r, "o_ms", o_ms);
  { delete o_info; o_info = new il::Info(); object("o_info"); info(r, *o_info, (int)r.below(4), true); }
  { static bool seen = true; if (o_st) { if (!seen) (void)o_st->Ok(); delete o_st; } o_st = new il::Status(); bool ok = r.chance(40); seen = r.chance(50);
    if (ok) o_st->SetOk(); else { o_st->SetError(il::Error::ParseKey); if (r.chance(50)) o_st->SetInfo("line", (I)r.below(100)); }
    if (seen) { (void)o_st->Ok(); }
    object("o_st"); textPair("ok", ok ? "true" : "false"); textPair("checked", seen ? "True" : "False"); child("ok", enc((int)ok)); child("checked", enc((int)seen));
    if (!ok) child("error", enc((int)il::Error::ParseKey)); else note("N error"); }
  for (int k = 0; k < 4; ++k) {
    delete o_dyn[k];
    std::string name = vf::fmt("o_dyn[%d]", k);
    switch (r.below(10)) {
      case 7: { unsigned char x = (unsigned char)r.next(); o_dyn[k] = new il::Dynamic(x); object(name.c_str()); child("type", enc((int)il::Type::UInt8)); child("value", enc((int)x)); break; }
      case 8: { unsigned short x = (unsigned short)r.next(); o_dyn[k] = new il::Dynamic(x); object(name.c_str()); child("type", enc((int)il::Type::UInt16)); child("value", enc((int)x)); break; }
      case 9: { il::Array<il::Dynamic> x{}; for (I i = 0, n = r.range(1, 5); i < n; ++i) x.Append(il::Dynamic((il::int_t)i)); I n = x.size(); o_dyn[k] = new il::Dynamic(std::move(x)); object(name.c_str()); child("type", enc((int)il::Type::ArrayOfDynamic)); child("value", vf::fmt("n%ld", (long)n)); break; }
      case 0: { bool x = r.chance(50); o_dyn[k] = new il::Dynamic(x); object(name.c_str()); child("type", enc((int)il::Type::Bool)); child("value", enc((int)x)); break; }
      case 1: { I x = r.chance(50) ? r.range(-9, 9) : (I)r.next(); o_dyn[k] = new il::Dynamic(x); object(name.c_str()); child("type", enc((int)il::Type::Integer)); child("value", enc((long)x)); break; }
      case 2: { double x = Make<double>::some(r); o_dyn[k] = new il::Dynamic(x); object(name.c_str()); child("type", enc((int)il::Type::Double)); child("value", enc(x)); break; }
      case 3: { il::String x = words(r, false, 40); o_dyn[k] = new il::Dynamic(x); object(name.c_str()); child("type", enc((int)il::Type::UnicodeString)); child("value", enc(x)); break; }
      case 4: { float x = (float)Make<double>::some(r); o_dyn[k] = new il::Dynamic(x); object(name.c_str()); child("type", enc((int)il::Type::Float32)); child("value", enc((double)x)); break; }
      case 5: { short x = (short)r.next(); o_dyn[k] = new il::Dynamic(x); object(name.c_str()); child("type", enc((int)il::Type::Int16)); child("value", enc((int)x)); break; }
      default: { o_dyn[k] = new il::Dynamic(); object(name.c_str()); child("type", enc((int)il::Type::Void)); note("N value"); }
    }
  }
  deque(r, "o_di", o_di); deque(r, "o_ds", o_ds);
  vf_notes = notes().data(); vf_notes_size = (long)notes().size();
  vf_stop();
}
static void __attribute__((constructor(65000))) underDebugger() {
  const char* s = getenv("VF_PRINTERS");
  if (!s) return;
  static std::ios_base::Init io;
  Rng r(strtoull(s, nullptr, 10));
  for (int k = 0; k < 12; ++k) round(r);
  _exit(0);
}

// ---- the monitor -------------------------------------------------------------------
void vf_case(Rng& r, uint64_t) {
  vf::Quiet q;
  uint64_t seed = r.next() >> 1;
  vf::op("gdb", "seed %llu", (unsigned long long)seed);
  std::string out = "printers.out";
  unlink(out.c_str());
  pid_t p = fork();
  if (p == 0) {
    setenv("VF_PRINTERS", std::to_string(seed).c_str(), 1);
    setenv("VF_OUT", out.c_str(), 1); setenv("VF_DIR", VF_REPO "/prettyPrint/gdb", 1);
    setenv("PYTHONDONTWRITEBYTECODE", "1", 1); setenv("LC_ALL", "C.UTF-8", 1); setenv("HOME", "/nonexistent", 1); unsetenv("DEBUGINFOD_URLS");
    freopen("gdb.log", "w", stdout); dup2(1, 2); freopen("/dev/null", "r", stdin);
    char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); self[n > 0 ? n : 0] = 0;
    execlp("gdb", "gdb", "-nx", "-batch", "-x", VF_HARN "/printers.py", self, (char*)nullptr);
    _exit(127);
  }
  int st = 0; waitpid(p, &st, 0);
  std::string text; { FILE* f = fopen(out.c_str(), "r"); if (f) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) text.append(b, n); fclose(f); } }
  bool done = false; long objects = 0, children = 0;
  size_t at = 0;
  while (at < text.size()) {
    size_t e = text.find('\n', at); if (e == std::string::npos) e = text.size();
    std::string l = text.substr(at, e - at); at = e + 1;
    if (l.compare(0, 4, "BAD ") == 0) { size_t t = l.find('\t'); vf::fail((std::string("shown@") + l.substr(4, t - 4)).c_str(), "%s", l.substr(t + 1).c_str()); }
    if (sscanf(l.c_str(), "DONE %ld %ld", &objects, &children) == 2) done = true;
    char kind[100]; long n; if (sscanf(l.c_str(), "SHOWN %99s %ld", kind, &n) == 2) vf::event(kind, n);
  }
  if (!done) { std::string log; { FILE* f = fopen("gdb.log", "r"); if (f) { char b[2000]; size_t n = fread(b, 1, sizeof b - 1, f); log.assign(b, n); fclose(f); } } vf::fail("no-debugger", "the session under the debugger did not come to its end (status %x): %s", st, log.c_str()); }
  vf::sample(vf::fmt("session with seed %llu: %ld objects, %ld elements and fields compared", (unsigned long long)seed, objects, children)); vf::event("objects-shown", objects); vf::event("children-compared", children); vf::sig(seed); vf::nontrivial();
}
