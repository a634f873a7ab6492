// C01: threads that share only read-only objects, or nothing. A case builds objects, then runs 2-4
// threads of random tasks at once (started together, yields injected) under the thread sanitizer;
// each thread's digest of everything it observed must be the one it gets when it runs alone.
// VF_PART 0: containers, strings, maps, values; 1: files; 2: linear algebra.
#ifndef VF_PART
#define VF_PART 0
#endif
#include "vfil.h"
#include <pthread.h>
#include <sched.h>
#include <complex>
#include <il/Array.h>
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/Array3D.h>
#include <il/SmallArray.h>
#include <il/Status.h>
#include <il/String.h>
using vf::Rng;
typedef il::int_t I;

struct Sink {
  uint64_t h = 0x9E3779B97F4A7C15ull;
  std::vector<double> near;  // results whose last digits may depend on the alignment of the memory
  void u(uint64_t v) { h = vf::mix(h, v); }
  void i(I v) { u((uint64_t)v); }
  void d(double v) { uint64_t b; memcpy(&b, &v, 8); u(b); }
  void b(const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; u(n); for (size_t k = 0; k < n; ++k) h = (h ^ c[k]) * 0x100000001b3ull; }
  void s(const std::string& x) { b(x.data(), x.size()); }
  void s(const il::String& x) { b(x.data(), (size_t)x.size()); }
};

#if VF_PART == 0
#include <il/BandArray2C.h>
#include <il/Deque.h>
#include <il/Dynamic.h>
#include <il/Info.h>
#include <il/LowerArray2D.h>
#include <il/Map.h>
#include <il/MapArray.h>
#include <il/Set.h>
#include <il/SparseMatrixCSR.h>
#include <il/StaticArray.h>
#include <il/StaticArray2D.h>
#include <il/TriDiagonal.h>
#include <il/Tree.h>
#include <il/algorithmArray.h>
#include <il/algorithmArray2D.h>
#include <il/container/string/UTF16String.h>
#include <il/container/string/algorithmString.h>
#include <il/container/string/unicode.h>
#include <il/math.h>
#include <il/norm.h>
#include <il/Array3C.h>
#include <il/Array4C.h>
#include <il/Array4D.h>
#include <il/StaticArray2C.h>
#include <il/StaticArray3D.h>
#include <il/StaticArray4D.h>
#include <il/UpperArray2D.h>
#include <il/core/math/safe_arithmetic.h>
#include <il/print.h>
#include <il/unit/time.h>
static il::String word(Rng& r, int most = 40) {
  I n = r.chance(50) ? r.range(0, 12) : r.range(0, most);
  il::String s{};
  for (I k = 0; k < n; ++k) if (r.chance(8)) s.Append((int)(r.chance(50) ? 0xe9 : 0x20ac)); else s.Append((char)('a' + r.below(6)));
  return s;
}
typedef il::Map<il::String, il::Dynamic> MP;
typedef il::MapArray<il::String, il::Dynamic> MA;
static il::Dynamic value(Rng& r, int depth) {
  switch (r.below(depth > 0 ? 10 : 6)) {
    case 0: return il::Dynamic{r.chance(50)};
    case 1: return il::Dynamic{(I)r.range(-1000000, 1000000)};
    case 2: return il::Dynamic{r.sym()};
    case 3: case 4: return il::Dynamic{word(r)};
    case 5: { il::Array<double> a{r.range(0, 5), 0.5}; for (I k = 0; k < a.size(); ++k) a[k] = r.sym(); return il::Dynamic{std::move(a)}; }
    case 6: case 7: { il::Array<il::Dynamic> a{}; for (I k = 0, n = r.range(0, 4); k < n; ++k) a.Append(value(r, depth - 1)); return il::Dynamic{std::move(a)}; }
    case 8: { MP m{}; for (I k = 0, n = r.range(0, 4); k < n; ++k) m.Set(word(r), value(r, depth - 1)); return il::Dynamic{std::move(m)}; }
    default: { MA m{}; for (I k = 0, n = r.range(0, 4); k < n; ++k) m.Set(word(r), value(r, depth - 1)); return il::Dynamic{std::move(m)}; }
  }
}
static void look(Sink& o, const il::Dynamic& v) {
  o.u((uint64_t)(int)v.type());
  if (v.is<bool>()) o.u(v.to<bool>());
  else if (v.is<I>()) o.i(v.to<I>());
  else if (v.is<double>()) o.d(v.to<double>());
  else if (v.is<il::String>()) o.s(v.as<il::String>());
  else if (v.is<il::Array<double>>()) { const il::Array<double>& a = v.as<il::Array<double>>(); o.i(a.size()); for (I k = 0; k < a.size(); ++k) o.d(a[k]); }
  else if (v.is<il::Array<il::Dynamic>>()) { const il::Array<il::Dynamic>& a = v.as<il::Array<il::Dynamic>>(); o.i(a.size()); for (I k = 0; k < a.size(); ++k) look(o, a[k]); }
  else if (v.is<MP>()) { const MP& m = v.as<MP>(); o.i(m.nbElements()); for (il::spot_t p = m.spotBegin(); p != m.spotEnd(); p = m.next(p)) { o.s(m.key(p)); look(o, m.value(p)); } }
  else if (v.is<MA>()) { const MA& m = v.as<MA>(); o.i(m.nbElements()); for (il::spot_t p = m.spotBegin(); p != m.spotEnd(); p = m.next(p)) { o.s(m.key(p)); look(o, m.value(p)); } }
}
struct Shared {
  il::Array<double> a; il::Array<int> ai; il::Array<il::String> as; il::SmallArray<double, 4> sm; il::Array<double> al;
  il::Array2D<double> m2; il::Array2C<double> m2c; il::Array3D<int> m3; il::BandArray2C<double> band; il::LowerArray2D<double> low; il::TriDiagonal<double> tri;
  il::String small, large; il::UTF16String w;
  il::Map<il::String, I> map; il::Map<I, il::String> mapi; MA ma; il::Set<I> set;
  il::Dynamic dyn; il::Info info; il::SparseMatrixCSR<int, double> sp; il::Deque<I> dq;
  std::vector<std::string> keys;
  il::Array3C<int> many3; il::Array4D<int> many4; il::StaticArray2C<double, 2, 3> st2; il::UpperArray2D<double> up; il::Tree<I, 3> tree;
  explicit Shared(Rng& r) : a{r.range(1, 40)}, ai{r.range(1, 40)}, sm{r.range(0, 8)}, al{r.range(1, 20), il::align, 64},
    m2{r.range(1, 8), r.range(1, 8)}, m2c{r.range(1, 8), r.range(1, 8)}, m3{r.range(1, 4), r.range(1, 4), r.range(1, 4)}, band{5, 6, 1, 2}, low{r.range(1, 6)}, tri{r.range(1, 9)}, dq{16}, many3{r.range(1, 4), r.range(1, 4), r.range(1, 4), 0}, many4{r.range(1, 3), r.range(1, 3), r.range(1, 3), r.range(1, 3), 0}, st2{0.5}, up{r.range(1, 6)} {
    for (I i = 0; i < many3.size(0); ++i) for (I j = 0; j < many3.size(1); ++j) for (I k = 0; k < many3.size(2); ++k) many3(i, j, k) = (int)r.range(-9, 9);
    for (I l = 0; l < many4.size(3); ++l) for (I i = 0; i < many4.size(0); ++i) many4(i, 0, 0, l) = (int)r.range(-9, 9);
    for (I j = 0; j < up.size(); ++j) for (I i = 0; i <= j; ++i) up(i, j) = r.sym();
    tree.Set(tree.root(), r.range(0, 99)); for (I k = 0; k < 3; ++k) if (r.chance(60)) { tree.AddChild(tree.root(), k); if (r.chance(50)) tree.Set(tree.child(tree.root(), k), r.range(0, 99)); }
    for (I k = 0; k < a.size(); ++k) a[k] = r.sym();
    for (I k = 0; k < ai.size(); ++k) ai[k] = (int)r.range(-50, 50);
    for (I k = 0; k < al.size(); ++k) al[k] = r.sym();
    for (I k = 0, n = r.range(0, 8); k < n; ++k) as.Append(word(r));
    for (I k = 0; k < sm.size(); ++k) sm[k] = r.sym();
    for (I j = 0; j < m2.size(1); ++j) for (I i = 0; i < m2.size(0); ++i) m2(i, j) = r.sym();
    for (I j = 0; j < m2c.size(1); ++j) for (I i = 0; i < m2c.size(0); ++i) m2c(i, j) = r.sym();
    for (I k = 0; k < m3.size(2); ++k) for (I j = 0; j < m3.size(1); ++j) for (I i = 0; i < m3.size(0); ++i) m3(i, j, k) = (int)r.range(-9, 9);
    for (I i = 0; i < 5; ++i) for (I k = -1; k <= 2; ++k) if (i + k >= 0 && i + k < 6) band(i, k) = r.sym();
    for (I i = 0; i < low.size(); ++i) for (I j = 0; j <= i; ++j) low(i, j) = r.sym();
    for (I i = 0; i < tri.size(); ++i) for (I k = -1; k <= 1; ++k) if (i + k >= 0 && i + k < tri.size()) tri(i, k) = r.sym();
    small = il::String{"h\xc3\xa9llo"}; large = word(r, 120); large.Append("the end of a long string that is on the heap");
    w = il::toUtf16(large);
    for (I k = 0, n = r.range(0, 30); k < n; ++k) { il::String s = word(r); map.Set(s, k); keys.push_back(std::string(s.asCString())); ma.Set(s, value(r, 1)); I x = r.range(0, 60); mapi.Set(x, word(r)); set.Add(r.range(0, 60)); }
    if (map.nbElements() > 0 && r.chance(50)) { map.erase(map.spotBegin()); mapi.erase(mapi.spotBegin()); }
    dyn = value(r, 3);
    info.Set("size", (I)r.range(0, 99)); info.Set("norm", r.sym()); info.Set("name", r.chance(50) ? "x" : "a name that does not fit in the small buffer of the object");
    I n = r.range(1, 8);
    il::Array<il::StaticArray<int, 2>> pos{}; il::Array<int> ix{};
    (void)ix;
    { il::Array<int> col{}, row{}; row.Append(0); for (I i = 0; i < n; ++i) { for (I j = 0; j < n; ++j) if (r.chance(40)) col.Append((int)j); row.Append((int)col.size()); } il::Array<double> el{col.size()}; for (I k = 0; k < el.size(); ++k) el[k] = r.sym(); sp = il::SparseMatrixCSR<int, double>{n, n, std::move(col), std::move(row), std::move(el)}; }
    for (I k = 0; k < 9; ++k) dq.PushBack(r.range(0, 99));
  }
};
static il::String anyKey(Rng& r, const Shared& s) { if (!s.keys.empty() && r.chance(80)) { const std::string& k = s.keys[(size_t)r.below((int64_t)s.keys.size())]; return il::String{il::StringType::Utf8, k.data(), (I)k.size()}; } return word(r); }

static void tArray(Rng& r, const Shared& s, Sink& o) {
  for (I k = 0; k < s.a.size(); ++k) o.d(s.a[k]);
  o.d(s.a.back()); o.i(s.a.capacity() >= s.a.size());
  for (const double* p = s.a.begin(); p != s.a.end(); ++p) o.d(*p);
  il::ArrayView<double> v = s.a.view(il::Range{0, s.a.size() / 2});
  for (I k = 0; k < v.size(); ++k) o.d(v[k]);
  o.d(il::min(s.a)); o.d(il::max(s.a)); o.d(il::mean(s.a)); o.i(il::min(s.ai)); o.i(il::max(s.ai)); o.d(il::norm(s.a, il::Norm::L2));
  il::Array<double> c{s.a}; c.Append(r.unit()); o.d(c.back()); c = s.a; o.i(c.size());
  for (I k = 0; k < s.as.size(); ++k) o.s(s.as[k]);
  il::Array<il::String> d{s.as}; d.Append(il::String{"x"}); o.i(d.size());
  il::SmallArray<double, 4> e{s.sm}; for (I k = 0; k < e.size(); ++k) o.d(e[k]);
  il::Array<double> f{s.al}; o.i(f.alignment()); for (I k = 0; k < f.size(); ++k) o.d(f[k] + s.al[k]);
  il::MinMax<double> mm = il::minMax(s.a); o.d(mm.min); o.d(mm.max);
}
static void tMatrix(Rng& r, const Shared& s, Sink& o) {
  for (I j = 0; j < s.m2.size(1); ++j) for (I i = 0; i < s.m2.size(0); ++i) o.d(s.m2(i, j));
  for (I j = 0; j < s.m2c.size(1); ++j) for (I i = 0; i < s.m2c.size(0); ++i) o.d(s.m2c(i, j));
  il::Array2D<double> c{s.m2}; c(0, 0) = r.unit(); o.d(c(0, 0)); c = s.m2; o.d(c(0, 0)); c.Resize(9, 9); o.i(c.size(0));
  il::Array2DView<double> v = s.m2.view(il::Range{0, s.m2.size(0)}, il::Range{0, s.m2.size(1)});
  o.d(v(v.size(0) - 1, v.size(1) - 1)); il::ArrayView<double> col = s.m2.view(il::Range{0, s.m2.size(0)}, 0); for (I k = 0; k < col.size(); ++k) o.d(col[k]);
  il::Array2C<double> d{s.m2c}; o.d(d(0, 0)); il::Array3D<int> e{s.m3}; o.i(e(0, 0, 0)); o.i(s.m3(s.m3.size(0) - 1, 0, 0));
  o.d(il::norm(s.m2, il::Norm::L1)); o.d(il::norm(s.tri, il::Norm::Linf)); il::MinMax<double> mm = il::minMax(s.m2, il::Range{0, s.m2.size(0)}, 0); o.d(mm.min); o.d(mm.max);
  for (I i = 0; i < 5; ++i) o.d(s.band(i, 0));
  il::LowerArray2D<double> l{s.low}; o.d(l(l.size() - 1, 0)); o.d(s.low(0, 0)); il::TriDiagonal<double> t{s.tri}; o.d(t(0, 0));
  il::BandArray2C<double> g{s.band}; o.d(g(0, 0));
}
static void tString(Rng& r, const Shared& s, Sink& o) {
  o.i(s.small.size()); o.s(s.small); o.s(s.large); o.u(s.large == s.small); o.u(s.small < s.large); o.u(s.large.isUtf8()); o.u(s.large.isAscii()); o.u(s.small.isSmall());
  il::String a{s.large}; a.Append('x'); o.s(a); a = s.small; a.Append("tail of the string, long enough for the heap"); o.s(a);
  o.s(s.large.substring(0, s.large.size() / 2 > 0 && s.large.isRuneBoundary(s.large.size() / 2) ? s.large.size() / 2 : 0));
  il::StringView v = s.large.view(); for (I i = 0; i < v.size(); i = v.nextRune(i)) o.i(v.rune(i));
  o.i(il::search(v.subview(v.size() - 3, v.size()), v)); o.i(il::count('a', v)); o.i(s.large.search(il::StringView("end"))); o.u(s.large.startsWith(il::StringView("the"))); o.u(s.large.endsWith('p'));
  il::UTF16String w{s.w}; for (I i = 0; i < w.size(); i = w.nextRune(i)) o.i(w.rune(i));
  o.s(il::toUtf8(s.w)); o.i(il::toUtf16(s.large).size()); o.s(il::join(s.small, il::String{"+"}, s.large)); o.s(il::toString((I)r.range(-100000, 100000)));
  o.u(il::HashFunction<il::String>::hash(s.large, 7)); o.u(il::HashFunction<il::String>::hash(s.small, 7));
}
static void tMap(Rng& r, const Shared& s, Sink& o) {
  for (I t = 0; t < 12; ++t) {
    il::String k = anyKey(r, s);
    il::spot_t p = s.map.search(k); o.u(s.map.found(p)); if (s.map.found(p)) { o.i(s.map.value(p)); o.s(s.map.key(p)); o.i(s.map.valueForKey(k)); }
    o.i(s.map.valueForKey(k, (I)-7)); std::string c(k.data(), (size_t)k.size()); o.u(s.map.found(s.map.searchCString(c.data(), (I)c.size())));
    il::spot_t q = s.ma.search(k); o.u(s.ma.found(q)); if (s.ma.found(q)) look(o, s.ma.value(q));
    I x = r.range(0, 60); p = s.mapi.search(x); o.u(s.mapi.found(p)); if (s.mapi.found(p)) o.s(s.mapi.value(p)); o.u(s.set.contains(x)); o.u(s.set.found(s.set.search(x)));
  }
  o.u(s.map.found(s.map.searchCString("absent")));
  for (il::spot_t p = s.map.spotBegin(); p != s.map.spotEnd(); p = s.map.next(p)) { o.s(s.map.key(p)); o.i(s.map.value(p)); }
  for (il::spot_t p = s.mapi.spotBegin(); p != s.mapi.spotEnd(); p = s.mapi.next(p)) { o.i(s.mapi.key(p)); o.s(s.mapi.value(p)); }
  for (il::spot_t p = s.ma.spotBegin(); p != s.ma.spotEnd(); p = s.ma.next(p)) { o.s(s.ma.key(p)); look(o, s.ma.value(p)); }
  for (il::spot_t p = s.set.spotBegin(); p != s.set.spotEnd(); p = s.set.next(p)) o.i(s.set.element(p));
  o.i(s.map.nbElements()); o.i(s.map.nbTombstones()); o.i(s.mapi.nbBuckets()); o.u(s.map.isEmpty());
  il::Map<il::String, I> c{s.map}; c.Set(word(r), 1); o.i(c.nbElements()); c = s.map; o.i(c.nbElements()); il::Set<I> e{s.set}; e.Add(77); o.i(e.nbElements()); MA g{s.ma}; o.i(g.nbElements());
}
static void tDynamic(Rng& r, const Shared& s, Sink& o) {
  look(o, s.dyn); il::Dynamic c{s.dyn}; look(o, c); c = value(r, 2); look(o, c); c = s.dyn; look(o, c);
  o.i(s.info.toInteger("size")); o.d(s.info.toDouble("norm")); o.b(s.info.asCString("name"), strlen(s.info.asCString("name"))); o.u(s.info.found(s.info.search("none")));
  il::Info f{s.info}; f.Set("more", (I)3); o.i(f.toInteger("more")); o.i(f.toInteger("size"));
}
static void tSparse(Rng&, const Shared& s, Sink& o) {
  for (I i = 0; i < s.sp.size(0); ++i) for (I k = s.sp.row(i); k < s.sp.row(i + 1); ++k) { o.i(s.sp.column(k)); o.d(s.sp[k]); }
  il::SparseMatrixCSR<int, double> c{s.sp}; o.i(c.nbNonZeros());
  o.i(s.dq.size()); o.i(s.dq.front()); o.i(s.dq.back()); o.i(s.dq.capacity());
}
static void tOwn(Rng& r, const Shared&, Sink& o) {
  il::Array<il::String> a{}; for (I k = 0, n = r.range(0, 12); k < n; ++k) a.Append(word(r)); a.Resize(r.range(0, 9)); for (I k = 0; k < a.size(); ++k) o.s(a[k]);
  il::Array<I> b{}; for (I k = 0, n = r.range(1, 30); k < n; ++k) b.Append(r.range(-99, 99)); il::sort(il::io, b); for (I k = 0; k < b.size(); ++k) o.i(b[k]); o.i(il::binarySearch(b, b[0]));
  il::Map<il::String, I> m{}; for (I k = 0; k < 12; ++k) { m.Set(word(r, 4), k); if (r.chance(20)) { il::spot_t p = m.spotBegin(); m.erase(p); } } for (il::spot_t p = m.spotBegin(); p != m.spotEnd(); p = m.next(p)) { o.s(m.key(p)); o.i(m.value(p)); }
  il::Set<I> t{}; for (I k = 0; k < 12; ++k) t.Add(r.range(0, 20)); o.i(t.nbElements());
  il::Deque<I> q{8}; for (I k = 0; k < 6; ++k) { q.PushBack(k); if (r.chance(40)) q.PopFront(); } o.i(q.size());
  il::Array2D<double> x{r.range(0, 5), r.range(0, 5), r.unit()}; x.Resize(7, 3, 2.0); o.d(x(6, 2));
  look(o, value(r, 3));
  il::UTF16String w = il::toUtf16(word(r)); o.s(il::toUtf8(w));
  il::Status st{}; if (r.chance(50)) { st.SetError(il::Error::FilesystemFileNotFound); IL_SET_SOURCE(st); st.SetInfo("line", (I)r.range(0, 9)); o.i(st.toInteger("line")); } else st.SetOk(); o.u(st.Ok()); 
  o.i(il::ipow((I)3, (int)r.range(0, 9))); o.i(il::nextLog2((int)r.range(1, 999)));
  il::Info f{}; f.Set("a key", word(r).asCString()); o.i((I)strlen(f.asCString("a key")));
}
static void tFormat(Rng& r, const Shared& s, Sink& o) {
  o.s(il::format("{:>12.5f}|{}|{:#x}|{:<6}", s.a[0], s.ai[0], (unsigned)s.ai.size(), r.range(-999, 999)));
  o.s(fmt::format("{1:*^20}{0:08d}{2}", (int)r.range(-99999, 99999), std::string("centre"), s.small.asCString()));
  o.s(fmt::format("{:.17g} {:e} {:g}", s.a[0], r.sym(), r.unit() * 1e300)); o.s(fmt::format("{:b} {:o} {:X} {}", (unsigned)r.below(99999), (int)r.below(999), (int)r.below(99999), r.next()));
  fmt::MemoryWriter w; for (I k = 0, n = r.range(0, 40); k < n; ++k) w.write("{}-{:>5};", k, s.ai[k % s.ai.size()]); o.s(w.str());
  try { fmt::MemoryWriter x; x.write(r.chance(50) ? "{:d}" : "{0} {3}", "text"); o.u(0); } catch (const fmt::FormatError& e) { o.s(std::string(e.what())); }
  char b[40]; fmt::ArrayWriter a(b); a.write("{:06.2f}", r.unit()); o.s(std::string(a.c_str()));
  o.s(il::time_toString(r.unit() * 100000)); o.s(il::time_toString(1e-9 * (double)r.range(1, 2000000000)));
}
static void tNumbers(Rng& r, const Shared& s, Sink& o) {
  for (I k = 0; k < 8; ++k) {
    I a = (I)(r.next() >> r.below(63)), b = (I)(r.next() >> r.below(63)); int c = (int)r.next(), d = (int)(r.next() >> r.below(31)); bool e = false;
    I x = il::safeSum(a, b, il::io, e); o.u(e); if (!e) o.i(x); e = false; x = il::safeProduct(a, b, il::io, e); o.u(e); if (!e) o.i(x);
    e = false; int y = il::safeSum(c, d, il::io, e); o.u(e); if (!e) o.i(y); e = false; y = il::safeDivision(c, d, il::io, e); o.u(e); if (!e) o.i(y);
    o.d(il::ipow(r.sym(), (int)r.range(0, 12))); o.d(il::ipow<7>(s.a[0])); o.d(il::max(r.sym(), s.a[0], 0.25)); o.d(il::min(r.sym(), s.a[0])); o.i(il::floor(s.a[0] * 1e6)); o.u(il::next_power_of_2_64((r.next() >> 2) | 1));
    std::complex<double> z(r.sym(), r.sym()); o.d(il::abs(z)); o.d(il::conjugate(z).imag()); o.u(il::isFinite(z)); o.u(il::HashFunction<I>::hash(a, 9)); o.i(c & 1);
  }
}
static void tMany(Rng& r, const Shared& s, Sink& o) {
  { il::Array3C<int> a{s.many3}; for (I i = 0; i < a.size(0); ++i) for (I j = 0; j < a.size(1); ++j) for (I k = 0; k < a.size(2); ++k) { o.i(a(i, j, k)); o.i(s.many3(i, j, k)); } a.Resize(3, 2, 4); o.i(a.size(2)); }
  { il::Array4D<int> a{s.many4}; for (I i = 0; i < a.size(0); ++i) for (I l = 0; l < a.size(3); ++l) o.i(a(i, 0, 0, l) + s.many4(i, 0, 0, l)); il::Array4C<I> b{2, 1, 3, 2, r.range(0, 9)}; o.i(b(1, 0, 2, 1)); }
  { il::StaticArray2C<double, 2, 3> a = s.st2; a(1, 2) += 1.0; o.d(a(1, 2)); o.d(s.st2(1, 2)); il::StaticArray3D<double, 2, 2, 2> b{r.unit()}; o.d(b(1, 1, 1)); il::StaticArray4D<int, 1, 2, 1, 2> c{4}; o.i(c(0, 1, 0, 1)); }
  { il::UpperArray2D<double> a{s.up}; for (I j = 0; j < a.size(); ++j) for (I i = 0; i <= j; ++i) { o.d(a(i, j)); o.d(s.up(i, j)); } }
  { o.i(s.tree.depth()); for (I k = 0; k < 3; ++k) if (s.tree.hasChild(s.tree.root(), k)) { il::spot_t c = s.tree.child(s.tree.root(), k); o.u(s.tree.isEmpty(c)); if (!s.tree.isEmpty(c)) o.i(s.tree.value(c)); o.i(s.tree.parent(c).index); }
    il::SmallArray<I, 3> c = s.tree.children(s.tree.root()); for (I k = 0; k < c.size(); ++k) o.i(c[k]); il::Tree<I, 3> t{s.tree}; t.Set(t.root(), 5); o.i(t.value(t.root())); }
  { il::Array2DView<double> v = s.m2.view(); double t = 0; for (I j = 0; j < v.size(1); ++j) for (I i = 0; i < v.size(0); ++i) t += v(i, j); o.d(t); il::Array2CView<double> w = s.m2c.view(); o.d(w(w.size(0) - 1, w.size(1) - 1)); il::ArrayView<double> f = s.a.view(); for (I k = 0; k < f.size(); ++k) o.d(f[k]); }
  { il::Status st{}; st.SetError(il::Error::ParseNumber); st.SetInfo("line", r.range(0, 99)); il::Status m{std::move(st)}; o.u(m.Ok()); o.i(m.toInteger("line")); }
  o.i(il::search(s.large.view(), s.large.view()));
}
typedef void (*Task)(Rng&, const Shared&, Sink&);
static const Task kTask[] = {tArray, tMatrix, tString, tMap, tDynamic, tSparse, tOwn, tFormat, tNumbers, tMany};
static const char* const kName[] = {"read-arrays", "read-matrices", "read-strings", "read-maps", "read-values", "read-sparse", "own-objects", "formatting", "arithmetic", "other-containers"};
#endif

#if VF_PART == 1
#include <il/File.h>
#include <il/data.h>
#include <il/Array3C.h>
#include <il/io/ppm/ppm.h>
#include <il/numpy.h>
#include <il/toml.h>
typedef il::Map<il::String, il::Dynamic> MP;
typedef il::MapArray<il::String, il::Dynamic> MA;
struct Shared { std::string text[3]; il::Array<double> a; il::Array2D<double> m; MA ma; explicit Shared(Rng& r) : a{r.range(0, 20)}, m{r.range(1, 6), r.range(1, 6)} {
  for (I k = 0; k < a.size(); ++k) a[k] = r.sym();
  for (I j = 0; j < m.size(1); ++j) for (I i = 0; i < m.size(0); ++i) m(i, j) = r.sym();
  for (I k = 0, n = r.range(0, 6); k < n; ++k) { std::string key = "k" + std::to_string(k); il::String ks{il::StringType::Utf8, key.data(), (I)key.size()}; if (r.chance(40)) ma.Set(ks, il::Dynamic{r.sym()}); else if (r.chance(50)) ma.Set(ks, il::Dynamic{il::String{"some text that is long enough"}}); else ma.Set(ks, il::Dynamic{(I)r.range(-9, 9)}); }
  const char* lines[] = {"a = 12\n", "b = \"text\\u00e9\"\n", "c = [1, 2, 3]\n", "d = 1.5e3\n", "e = { x = 1, y = \"z\" }\n", "f = true\n", "g = [[1, 2], [3.5]]\n", "# a comment\n", "h = 'literal'\n", "[t]\nq = 4\n", "[[u]]\nv = 1\n", "bad = \n", "i = 1_000\n", "j = \"\"\"x\n  y\"\"\"\n"};
  for (int t = 0; t < 3; ++t) for (size_t k = 0; k < sizeof lines / sizeof *lines; ++k) if (r.chance(k == 11 ? 10 : 60)) text[t] += lines[k];
} };
static std::string fileName(const char* ext) { return "t" + std::to_string((uintptr_t)pthread_self()) + ext; }
static il::String S(const std::string& s) { return il::String{il::StringType::Utf8, s.data(), (I)s.size()}; }
static void put(const std::string& n, const std::string& t) { FILE* f = fopen(n.c_str(), "wb"); if (!f) abort(); fwrite(t.data(), 1, t.size(), f); fclose(f); }
static void look(Sink& o, const il::Dynamic& v);
template <typename M> static void lookMap(Sink& o, const M& m) { o.i(m.nbElements()); for (il::spot_t p = m.spotBegin(); p != m.spotEnd(); p = m.next(p)) { o.s(m.key(p)); look(o, m.value(p)); } }
static void look(Sink& o, const il::Dynamic& v) {
  o.u((uint64_t)(int)v.type());
  if (v.is<bool>()) o.u(v.to<bool>());
  else if (v.is<I>()) o.i(v.to<I>());
  else if (v.is<double>()) o.d(v.to<double>());
  else if (v.is<il::String>()) o.s(v.as<il::String>());
  else if (v.is<il::Array<il::Dynamic>>()) { const il::Array<il::Dynamic>& a = v.as<il::Array<il::Dynamic>>(); o.i(a.size()); for (I k = 0; k < a.size(); ++k) look(o, a[k]); }
  else if (v.is<MP>()) lookMap(o, v.as<MP>());
  else if (v.is<MA>()) lookMap(o, v.as<MA>());
}
static void fToml(Rng& r, const Shared& s, Sink& o) {
  std::string n = fileName(".toml"); put(n, s.text[r.below(3)]);
  il::Status st{};
  if (r.chance(70)) { MA m = il::load<MA>(S(n), il::io, st); bool ok = st.Ok(); o.u(ok); if (ok) { lookMap(o, m); il::Status s2{}; il::save(m, S(n), il::io, s2); o.u(s2.Ok()); il::Status s3{}; MA b = il::load<MA>(S(n), il::io, s3); o.u(s3.Ok()); lookMap(o, b); } else o.i(st.toInteger("line")); }
  else { MP m = il::load<MP>(S(n), il::io, st); bool ok = st.Ok(); o.u(ok); if (ok) lookMap(o, m); }
  unlink(n.c_str());
}
static void fSave(Rng&, const Shared& s, Sink& o) {
  std::string n = fileName(".toml"); il::Status st{}; il::save(s.ma, S(n), il::io, st); o.u(st.Ok());
  FILE* f = fopen(n.c_str(), "rb"); if (f) { char b[4096]; size_t k = fread(b, 1, sizeof b, f); o.b(b, k); fclose(f); }
  unlink(n.c_str());
}
static void fNumpy(Rng& r, const Shared& s, Sink& o) {
  std::string n = fileName(".npy"); il::Status st{}, s2{}, s3{}, s4{};
  if (r.chance(50)) { il::save(s.a, S(n), il::io, st); o.u(st.Ok()); il::Array<double> b = il::load<il::Array<double>>(S(n), il::io, s2); o.u(s2.Ok()); for (I k = 0; k < b.size(); ++k) o.d(b[k]); il::Array<int> c = il::load<il::Array<int>>(S(n), il::io, s3); o.u(s3.Ok()); }
  else { il::save(s.m, S(n), il::io, st); o.u(st.Ok()); il::Array2D<double> b = il::load<il::Array2D<double>>(S(n), il::io, s2); o.u(s2.Ok()); for (I j = 0; j < b.size(1); ++j) for (I i = 0; i < b.size(0); ++i) o.d(b(i, j)); }
  unlink(n.c_str());
  il::Array<double> x = il::load<il::Array<double>>(S("absent.npy"), il::io, s4); o.u(s4.Ok());
}
static void fPack(Rng&, const Shared& s, Sink& o) {
  std::string n = fileName(".data"); il::Status st{}, s2{}; il::save(s.ma, S(n), il::io, st); o.u(st.Ok()); MA b = il::load<MA>(S(n), il::io, s2); o.u(s2.Ok()); lookMap(o, b); unlink(n.c_str());
}
static void fPpm(Rng& r, const Shared&, Sink& o) {
  std::string n = fileName(".ppm"); std::string t = "P6\n2 3\n255\n"; for (int k = 0; k < 18; ++k) t += (char)r.below(256); if (r.chance(20)) t.resize(t.size() - 1);
  put(n, t); il::Status st{}; il::Array3C<unsigned char> a = il::load<il::Array3C<unsigned char>>(S(n), il::io, st); bool ok = st.Ok(); o.u(ok); if (ok) for (I i = 0; i < a.size(0); ++i) for (I j = 0; j < a.size(1); ++j) for (I k = 0; k < a.size(2); ++k) o.u(a(i, j, k));
  unlink(n.c_str());
}
typedef void (*Task)(Rng&, const Shared&, Sink&);
static const Task kTask[] = {fToml, fSave, fNumpy, fPack, fPpm};
static const char* const kName[] = {"parse-toml", "save-toml", "numpy-files", "packs", "images"};
#endif

#if VF_PART == 2
#include <il/SparseMatrixCSR.h>
#include <il/StaticArray.h>
#include <il/StaticArray2D.h>
#include <il/linearAlgebra/dense/blas/blas.h>
#include <il/linearAlgebra/dense/blas/dot.h>
#include <il/linearAlgebra/dense/blas/blas_static.h>
#include <il/linearAlgebra/sparse/blas/sparseDot.h>
#include <il/random/sobol.h>
#include <il/linearAlgebra/dense/factorization/Eigen.h>
#include <il/linearAlgebra/dense/factorization/LU.h>
#include <il/linearAlgebra/dense/factorization/linearSolve.h>
#include <il/linearAlgebra/dense/norm.h>
#include <il/linearAlgebra/matrixFree/solver/Cg.h>
#include <il/linearAlgebra/matrixFree/solver/Gmres.h>
#include <il/linearAlgebra/sparse/factorization/GmresIlu0.h>
#include <il/linearAlgebra/sparse/factorization/Pardiso.h>
#include <il/LowerArray2D.h>
#include <il/TriDiagonal.h>
#include <il/linearAlgebra/dense/blas/cross.h>
#include <il/linearAlgebra/dense/blas/solve.h>
#include <il/linearAlgebra/dense/factorization/Cholesky.h>
#include <il/linearAlgebra/dense/factorization/Singular.h>
#include <il/linearAlgebra/dense/factorization/luDecomposition.h>
#include <il/linearAlgebra/dense/factorization/qrDecomposition.h>
struct Op : il::FunctorArray<double> {
  const il::Array2D<double>* a;
  I size(I) const override { return a->size(0); }
  void operator()(il::ArrayView<double> x, il::io_t, il::ArrayEdit<double> y) const override { for (I i = 0; i < a->size(0); ++i) { double t = 0; for (I j = 0; j < a->size(1); ++j) t += (*a)(i, j) * x[j]; y[i] = t; } }
};
struct Shared {
  I n; il::Array2D<double> a, b; il::Array2C<double> c; il::Array<double> x, y; il::SparseMatrixCSR<int, double> sp; il::SparseMatrixCSR<I, double> sl;
  template <typename N> static void csr(const il::Array2D<double>& a, il::SparseMatrixCSR<N, double>& s) {
    I n = a.size(0); il::Array<N> col{}, row{}; il::Array<double> el{}; row.Append((N)0);
    for (I i = 0; i < n; ++i) { for (I j = 0; j < n; ++j) if (i == j || (i + j) % 3 == 0) { col.Append((N)j); el.Append(a(i, j)); } row.Append((N)col.size()); }
    s = il::SparseMatrixCSR<N, double>{n, n, std::move(col), std::move(row), std::move(el)};
  }
  explicit Shared(Rng& r) : n{r.range(2, 12)}, a{n, n}, b{n, n}, c{n, n}, x{n}, y{n} {
    for (I j = 0; j < n; ++j) for (I i = 0; i < n; ++i) { b(i, j) = r.sym(); c(i, j) = r.sym(); }
    for (I j = 0; j < n; ++j) for (I i = 0; i <= j; ++i) a(i, j) = a(j, i) = r.sym();
    for (I i = 0; i < n; ++i) { a(i, i) = (double)n + r.unit(); x[i] = r.sym(); y[i] = r.sym(); }
    csr(a, sp); csr(a, sl);
  }
};
static void out(Sink& o, const il::Array<double>& v) { for (I i = 0; i < v.size(); ++i) o.d(v[i]); }
static void out(Sink& o, const il::Array2D<double>& v) { for (I j = 0; j < v.size(1); ++j) for (I i = 0; i < v.size(0); ++i) o.d(v(i, j)); }
static void lBlas(Rng&, const Shared& s, Sink& o) {
  out(o, il::dot(s.a, s.x)); out(o, il::dot(s.a, s.b)); o.d(il::dot(s.x, s.y));
  il::Array2D<double> z{s.n, s.n, 0.5}; il::blas(2.0, s.a.view(), s.b.view(), -1.0, il::io, z.Edit()); out(o, z);
  il::Array<double> w{s.n, 1.0}; il::blas(2.0, s.a.view(), s.x.view(), 3.0, il::io, w.Edit()); out(o, w); il::blas(0.5, s.x.view(), il::io, w.Edit()); out(o, w);
  { il::SparseMatrixCSR<int, double> p1{s.sp}, p2{s.sp}; il::SparseMatrixCSR<int, double> p3 = il::dot(il::io, p1, p2); for (I k = 0; k < p3.nbNonZeros(); ++k) o.d(p3[k]); }
}
static void lLu(Rng&, const Shared& s, Sink& o) {
  il::Status st{}; il::LU<il::Array2D<double>> lu{il::Array2D<double>{s.a}, il::io, st}; o.u(st.Ok()); out(o, lu.solve(s.y)); o.d(lu.determinant());
  il::Status s2{}; out(o, il::linearSolve(s.a, s.y, il::io, s2)); o.u(s2.Ok());
  il::Array2D<double> q{s.n, s.n, 0.0}; il::Status s3{}; il::Array<double> v = il::linearSolve(q, s.y, il::io, s3); o.u(s3.Ok());
}
static void lGmres(Rng& r, const Shared& s, Sink& o) {
  Op f; f.a = &s.a;
  if (r.chance(50)) { il::Gmres<double> g{f, s.n}; il::Array<double> x{s.n}; il::Status st{}; g.Solve(s.y.view(), 1e-8, 60, il::io, x.Edit(), st); o.u(st.Ok()); out(o, x); o.i(g.nbIterations()); }
  else { il::GmresIlu0 g{1e-8, 50, 20}; il::SparseMatrixCSR<int, double> sp{s.sp}; g.computePreconditionner(il::io, sp); out(o, g.solve(s.y, il::io, sp)); }
}
static void lPardiso(Rng&, const Shared& s, Sink& o) {
  il::Pardiso p; p.SymbolicFactorization(s.sl); p.NumericalFactorization(s.sl); il::Array<double> x = p.Solve(s.sl, s.y); for (I i = 0; i < x.size(); ++i) o.near.push_back(x[i]);
}
static void lSmall(Rng& r, const Shared&, Sink& o) {
  il::Array2C<double> z = il::sobol(r.range(1, 15), r.range(1, 4), 0.0, 1.0); o.d(z(z.size(0) - 1, 0));
  il::StaticArray2D<double, 3, 3> m{il::value, {{2.0, 0.5, 0.1}, {0.3, 3.0, 0.2}, {0.1, 0.4, 4.0}}}; m(0, 0) += r.unit(); il::StaticArray<double, 3> v{il::value, {1.0, 2.0, 3.0}}; il::StaticArray<double, 3> w = il::dot(m, v); for (I k = 0; k < 3; ++k) o.d(w[k]);
}
// digits of LAPACK's results may depend on the alignment of the memory
static void nearly(Sink& o, const il::Array<double>& v) { for (I i = 0; i < v.size(); ++i) o.near.push_back(v[i]); }
static void nearly(Sink& o, const il::Array2D<double>& v) { for (I j = 0; j < v.size(1); ++j) for (I i = 0; i < v.size(0); ++i) o.near.push_back(v(i, j)); }
static void lFactor(Rng& r, const Shared& s, Sink& o) {
  if (r.chance(30)) { il::Status st{}; il::Cholesky<il::Array2D<double>> c{il::Array2D<double>{s.a}, il::io, st}; bool ok = st.Ok(); o.u(ok); if (ok) { nearly(o, c.solve(s.y)); nearly(o, c.inverse()); } }
  if (r.chance(30)) { il::LowerArray2D<double> p{s.n}; for (I i = 0; i < s.n; ++i) for (I j = 0; j <= i; ++j) p(i, j) = s.a(i, j); if (r.chance(20)) p(s.n - 1, s.n - 1) = -1; il::Status st{}; il::Cholesky<il::LowerArray2D<double>> c{p, il::io, st}; o.u(st.Ok()); }
  if (r.chance(30)) { il::Array2D<double> a{s.a}; il::Array<int> piv{s.n}; il::luDecomposition(il::io, piv.Edit(), a.Edit()); nearly(o, a); for (I i = 0; i < s.n; ++i) o.i(piv[i]); il::Array2D<double> b{s.b}; il::solve(piv.view(), a.view(), il::MatrixType::LowerUnit, il::io, b.Edit()); il::solve(a.view(), il::MatrixType::UpperNonUnit, il::io, b.Edit()); nearly(o, b); }
  if (r.chance(30)) { il::Array2D<double> a{s.a}; il::Array<double> t{s.n}; il::qrDecomposition(il::io, t.Edit(), a.Edit()); nearly(o, a); nearly(o, t); }
  if (r.chance(30)) { il::Status st{}; il::Eigen<il::Array2D<double>> e{il::Array2D<double>{s.a}, il::io, st}; o.u(st.Ok()); il::Array<std::complex<double>> w = e.eigenValue(); std::vector<double> v; for (I i = 0; i < w.size(); ++i) v.push_back(w[i].real()); std::sort(v.begin(), v.end()); for (double x : v) o.near.push_back(x); }
  if (r.chance(30)) { il::StaticArray2D<double, 3, 3> a{0.25}; for (I i = 0; i < 3; ++i) a(i, i) = 1.0 + r.unit(); il::Status st{}; il::StaticArray<double, 3> d = il::singularValues(a, il::io, st); o.u(st.Ok()); for (I i = 0; i < 3; ++i) o.near.push_back(d[i]); }
  if (r.chance(30)) { il::TriDiagonal<double> t{s.n}; for (I i = 0; i < s.n; ++i) for (I k = -1; k <= 1; ++k) if (i + k >= 0 && i + k < s.n) t(i, k) = k == 0 ? 4.0 + s.x[i] : s.y[i]; il::Status st{}; nearly(o, il::linearSolve(t, s.y, il::io, st)); o.u(st.Ok()); }
}
static void lOther(Rng& r, const Shared& s, Sink& o) {
  Op f; f.a = &s.a; il::Cg<double> g{f}; g.SetRelativePrecision(1e-9); g.SetMaxNbIterations(100); il::Status st{}; out(o, g.Solve(s.y, il::io, st)); o.u(st.Ok()); o.i(g.nbIterations());
  o.d(il::norm(s.a, il::Norm::L1)); o.d(il::norm(s.a, il::Norm::Linf)); o.d(il::norm(s.x, il::Norm::L2));
  il::StaticArray<double, 3> u{il::value, {r.sym(), r.sym(), r.sym()}}, v{il::value, {s.x[0], s.y[0], 1.0}}; il::StaticArray<double, 3> w = il::cross(u, v); for (I k = 0; k < 3; ++k) o.d(w[k]); o.d(il::dot(u, v));
  il::Array2C<double> c = il::dot(s.c, s.c); for (I i = 0; i < s.n; ++i) for (I j = 0; j < s.n; ++j) o.d(c(i, j));
}
typedef void (*Task)(Rng&, const Shared&, Sink&);
static const Task kTask[] = {lBlas, lLu, lGmres, lPardiso, lSmall, lFactor, lOther};
static const char* const kName[] = {"products", "dense-solvers", "iterative-solvers", "direct-sparse", "static-products", "factorizations", "other-solvers"};
#endif

static const int kTasks = (int)(sizeof kTask / sizeof *kTask);
static const int kMaxThreads = 4;
struct Step { int task; uint64_t seed; int yields; };
struct Thread {
  const Shared* s; std::vector<Step> steps; std::vector<uint64_t> got; std::vector<std::vector<double>> near; std::vector<int> seen;  // seen: what the others did when a step began
  std::atomic<int>* gate; std::atomic<int>* now; int self, total; bool rejected = false;
};
static void* body(void* p) {
  Thread& t = *(Thread*)p;
  if (t.gate) { t.gate->fetch_add(1, std::memory_order_relaxed); while (t.gate->load(std::memory_order_relaxed) < t.total) sched_yield(); }
  for (size_t k = 0; k < t.steps.size(); ++k) {
    const Step& e = t.steps[k];
    if (t.now) {
      t.now[t.self].store(e.task + 1, std::memory_order_relaxed);
      for (int y = 0; y < e.yields; ++y) sched_yield();
      for (int j = 0; j < t.total; ++j) if (j != t.self) { int w = t.now[j].load(std::memory_order_relaxed); if (w > 0) t.seen.push_back(e.task * 64 + w - 1); }
    }
    Sink o; Rng r(e.seed);
    try { kTask[e.task](r, *t.s, o); } catch (const il::AbortException&) { t.rejected = true; o.u(0xabad); }
    t.got.push_back(o.h); t.near.push_back(o.near);
  }
  if (t.now) t.now[t.self].store(0, std::memory_order_relaxed);
  return nullptr;
}
void vf_case(Rng& r, uint64_t) {
  vf::st().track_leaks = false;
  Shared s(r);
  int n = (int)r.range(2, kMaxThreads), focus = (int)r.below(kTasks);
  bool focused = r.chance(60);
  Thread t[kMaxThreads];
  std::atomic<int> gate(0), now[kMaxThreads];
  for (int i = 0; i < kMaxThreads; ++i) now[i] = 0;
  uint64_t same = r.next(); bool together = r.chance(40);
  for (int i = 0; i < n; ++i) {
    t[i].s = &s; t[i].gate = &gate; t[i].now = now; t[i].self = i; t[i].total = n;
    for (I k = 0, m = r.range(1, 4); k < m; ++k) { Step e; e.task = focused && r.chance(80) ? focus : (int)r.below(kTasks); e.seed = together ? same : r.next(); e.yields = r.chance(50) ? 0 : (int)r.below(4); t[i].steps.push_back(e); vf::sig((uint64_t)e.task * 7 + (uint64_t)i); vf::sig(e.seed); }
  }
  vf::op("threads", "%d, mostly %s%s", n, focused ? kName[focus] : "anything", together ? " with the same arguments" : "");
  pthread_t id[kMaxThreads];
  for (int i = 0; i < n; ++i) if (pthread_create(&id[i], nullptr, body, &t[i])) abort();
  for (int i = 0; i < n; ++i) pthread_join(id[i], nullptr);
  for (int i = 0; i < n; ++i) {
    VF_CHECK(!t[i].rejected, "rejected", "a valid call was rejected by the library's own checks in thread %d", i);
    Thread a; a.s = &s; a.steps = t[i].steps; a.gate = nullptr; a.now = nullptr; a.self = i; a.total = 1;
    if (pthread_create(&id[0], nullptr, body, &a)) abort();
    pthread_join(id[0], nullptr);
    for (size_t k = 0; k < a.got.size(); ++k) {
      bool same_near = a.near[k].size() == t[i].near[k].size();
      for (size_t l = 0; same_near && l < a.near[k].size(); ++l) same_near = std::fabs(a.near[k][l] - t[i].near[k][l]) <= 1e-9 * (1 + std::fabs(a.near[k][l]));
      VF_CHECK(same_near && a.got[k] == t[i].got[k], "interference", "thread %d of %d, step %zu (%s): not the result it gets alone", i, n, k, kName[t[i].steps[k].task]);
    }
    for (size_t k = 0; k < t[i].steps.size(); ++k) vf::event(kName[t[i].steps[k].task]);
    for (int w : t[i].seen) vf::event((std::string("at-once:") + kName[w / 64] + "/" + kName[w % 64]).c_str());
  }
  vf::event("threads", (uint64_t)n);
  if (vf::wantSample()) vf::sample(vf::fmt("%d threads, mostly %s", n, focused ? kName[focus] : "anything"));
  vf::nontrivial();
}
