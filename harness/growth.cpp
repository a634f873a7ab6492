// A09: what growing costs. The monitors count the bytes that are requested, the elements that are
// constructed or assigned and the slots of hash tables that are looked at, while containers grow,
// are filled within what they have reserved, and are used for long at a bounded size.
#include "vfil.h"
#include "elem.h"
#include <il/Array.h>
#include <il/SmallArray.h>
#include <il/String.h>
#include <il/container/string/UTF16String.h>
#include <il/Map.h>
#include <il/MapArray.h>
#include <il/Set.h>
#include <il/container/deque/Deque.h>
#include <il/container/info/Info.h>
#include <il/Dynamic.h>
#include <cmath>
using vf::Rng;
typedef il::int_t I;

// ---- what has been requested -------------------------------------------------
static long g_bytes = 0, g_blocks = 0, g_held = 0;
static bool g_meter = false;
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*);
static void onMalloc(const volatile void* p, size_t n) { if (p && g_meter && !vf::g_quiet) { g_bytes += (long)n; ++g_blocks; } if (p && !vf::g_quiet) g_held += (long)n; }
static void onFree(const volatile void* p) { if (p && !vf::g_quiet) g_held -= (long)__sanitizer_get_allocated_size(p); }
static struct Install { Install() { __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); } } g_install;
struct Meter {
  uint64_t made;
  static uint64_t count() { return vf::life().ctors + vf::life().assigns; }
  Meter() { g_bytes = g_blocks = 0; g_meter = true; made = count(); }
  ~Meter() { g_meter = false; }
  long bytes() const { return g_bytes; }
  long blocks() const { return g_blocks; }
  long handled() const { return (long)(count() - made); }
};
// elements that own nothing on the heap
template <typename T> struct Plain { static const bool v = true; };
template <> struct Plain<vf::Tracked> { static const bool v = false; };
template <> struct Plain<vf::MoveOnly> { static const bool v = false; };
template <typename T> struct Make { static T of(int64_t i) { return vf::El<T>::make(i); } };
template <> struct Make<vf::MoveOnly> { static vf::MoveOnly of(int64_t i) { return vf::MoveOnly{i}; } };
template <typename T> struct Most { static const int64_t v = 60000; };
template <> struct Most<vf::Tracked> { static const int64_t v = 1500; };
template <> struct Most<vf::MoveOnly> { static const int64_t v = 1500; };
template <typename T> struct Copied { static const bool v = true; };
template <> struct Copied<vf::MoveOnly> { static const bool v = false; };
static int g_way = 0;  // the way elements are appended: a run uses the same one, or all of them
template <typename C, typename T, bool copied> struct Push {
  static void one(Rng& r, C& c, int64_t i) {
    switch (g_way < 3 ? g_way : (int)r.below(3)) {
      case 0: c.Append(Make<T>::of(i)); break;
      case 1: { T x = Make<T>::of(i); c.Append(x); break; }
      default: { const T x = Make<T>::of(i); c.Append(x); }
    }
  }
};
template <typename C, typename T> struct Push<C, T, false> { static void one(Rng& r, C& c, int64_t i) { (void)r; c.Append(Make<T>::of(i)); } };

// a run of appends at the end of an array
template <typename C, typename T> static void appends(Rng& r, C& c, const char* what) {
  int64_t n0 = c.size(), n = r.below(3) ? r.range(0, std::min<int64_t>(Most<T>::v, 400)) : r.mark(Most<T>::v);
  vf::op("append-run", "%s of %ld, then %ld more (capacity %ld)", what, (long)n0, (long)n, (long)c.capacity());
  vf::sig((uint64_t)n); vf::sig((uint64_t)n0);
  long moves = 0;
  Meter m;
  const T* p = c.data();
  I cap = c.capacity();
  for (int64_t i = 0; i < n; ++i) {
    bool room = c.size() < cap;
    Push<C, T, Copied<T>::v>::one(r, c, i);
    if (c.data() != p || c.capacity() != cap) {
      if (room) { vf::Quiet q; VF_CHECK(false, "append-within-capacity", "%s of %ld elements with a capacity of %ld has got new storage", what, (long)(c.size() - 1), (long)cap); }
      ++moves;
    }
    p = c.data(); cap = c.capacity();
  }
  vf::Quiet q;
  long e = (long)(n0 + n), bytes = m.bytes(), handled = m.handled();
  VF_CHECK(c.size() == e, "size", "%s has %ld elements instead of %ld", what, (long)c.size(), e);
  VF_CHECK(moves <= 12 + 8 * std::log2((double)e + 1), "appends-moved", "%s: %ld appends have changed the storage %ld times", what, (long)n, moves);
  if (Plain<T>::v) VF_CHECK(bytes <= 16 * (e + 8) * (long)sizeof(T) + 1024, "appends-bytes", "%s: %ld appends to %ld elements have requested %ld bytes", what, (long)n, (long)n0, bytes);
  else VF_CHECK(handled <= 20 * (e + 8), "appends-handled", "%s: %ld appends to %ld elements have made or assigned %ld elements", what, (long)n, (long)n0, handled);
  VF_CHECK(c.capacity() <= 8 * (e + 8), "capacity-excess", "%s of %ld elements has a capacity of %ld", what, e, (long)c.capacity());
  if (moves > 1) vf::event("regrown");
  vf::event("appends", n);
  vf::nontrivial();
}
// filling what has been reserved
template <typename C, typename T> static void reserved(Rng& r, C& c, const char* what) {
  int64_t n = r.below(3) ? r.range(0, 300) : r.mark(std::min<int64_t>(Most<T>::v, 20000));
  n = std::max<int64_t>(n, c.size());
  vf::op("reserve-and-fill", "%s of %ld (capacity %ld), room for %ld", what, (long)c.size(), (long)c.capacity(), (long)n);
  vf::sig((uint64_t)n);
  c.Reserve(n);
  I cap = c.capacity();
  const T* p = c.data();
  VF_CHECK(cap >= n, "reserve", "%s has a capacity of %ld after reserving %ld", what, (long)cap, (long)n);
  int64_t k = n - c.size();
  Meter m;
  int64_t i = 0;
  while (i < k) {
    switch (r.below(8)) {
      case 0: { int64_t g = std::min<int64_t>(k - i, r.range(0, 20)); c.Resize(c.size() + g); i += g; break; }
      case 1: c.Reserve(r.below((uint64_t)cap + 1)); break;
      default: Push<C, T, Copied<T>::v>::one(r, c, i); ++i;
    }
    if (c.data() != p || c.capacity() != cap) { vf::Quiet q; VF_CHECK(false, "append-within-reserve", "%s of %ld elements has got new storage although room for %ld was reserved", what, (long)c.size(), (long)n); }
  }
  vf::Quiet q;
  if (Plain<T>::v) VF_CHECK(m.bytes() == 0, "fill-allocates", "%s: filling the %ld reserved elements has requested %ld bytes", what, (long)n, m.bytes());
  else VF_CHECK(m.handled() <= 4 * k, "fill-moves", "%s: appending %ld elements within the capacity has made or assigned %ld elements", what, (long)k, m.handled());
  vf::event("filled"); vf::nontrivial();
}
// staying for long at a bounded size
template <typename C, typename T> static void steady(Rng& r, C& c, const char* what) {
  int64_t top = r.range(1, 40), rounds = r.range(20, 200);
  vf::op("steady", "%s, %ld rounds of up to %ld elements", what, (long)rounds, (long)top);
  vf::sig((uint64_t)(top * 1000 + rounds));
  c.Reserve(top);
  I cap = c.capacity();
  for (int64_t k = 0; k < rounds; ++k) {
    switch (r.below(4)) {
      case 0: c.Resize(r.range(0, top)); break;
      case 1: c.Resize(0); break;
      case 2: while (c.size() < top && r.chance(90)) Push<C, T, Copied<T>::v>::one(r, c, k); break;
      default: c.Reserve(r.range(0, top));
    }
    if (c.capacity() != cap) { vf::Quiet q; VF_CHECK(false, "steady-capacity", "%s: the capacity went from %ld to %ld with at most %ld elements", what, (long)cap, (long)c.capacity(), (long)top); }
  }
  vf::event("steady"); vf::nontrivial();
}
template <typename C, typename T> static void arrayCase(Rng& r, const char* what) {
  C c{};
  g_way = (int)r.below(4);
  if (r.chance(50)) c.Resize(r.size(30));
  if (r.chance(20)) c.Reserve(r.size(60));
  switch (r.below(5)) {
    case 0: case 1: appends<C, T>(r, c, what); break;
    case 2: case 3: reserved<C, T>(r, c, what); break;
    default: steady<C, T>(r, c, what);
  }
}
template <typename T> static void arrays(Rng& r) {
  if (r.chance(30)) {
    switch (r.below(3)) {
      case 0: arrayCase<il::SmallArray<T, 1>, T>(r, "SmallArray<1>"); break;
      case 1: arrayCase<il::SmallArray<T, 4>, T>(r, "SmallArray<4>"); break;
      default: arrayCase<il::SmallArray<T, 50>, T>(r, "SmallArray<50>");
    }
    vf::event("small-array");
    return;
  }
  arrayCase<il::Array<T>, T>(r, "Array");
}
static void alignedArrays(Rng& r) {
  g_way = (int)r.below(4);
  I al = (I)8 << r.below(6);
  il::Array<double> c{1 + (I)r.size(20), il::align, al};
  if (r.chance(50)) appends<il::Array<double>, double>(r, c, "aligned Array"); else reserved<il::Array<double>, double>(r, c, "aligned Array");
  if (c.size() > 0) VF_CHECK((uintptr_t)c.data() % (uintptr_t)al == 0, "alignment", "not %ld-aligned", (long)al);
  vf::event("aligned");
}

// ---- strings: what has been reserved is used -----------------------------------
static int rune(Rng& r) { static const int e[] = {'a', 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF}; return r.pick(e); }
// a text built piece by piece
template <typename S> struct Piece;
template <> struct Piece<il::String> { static const char* name() { return "a string"; } static void lit(il::String& s) { s.Append("hello"); } };
template <> struct Piece<il::UTF16String> { static const char* name() { return "a 16-bit string"; } static void lit(il::UTF16String& s) { s.Append(u"abc"); } };
template <typename S> static void texts(Rng& r) {
  S s{};
  if (r.chance(50)) s.Append((I)r.range(0, 40), 'q');
  int64_t n = r.below(3) ? r.range(0, 500) : r.mark(30000);
  int way = (int)r.below(4);
  vf::op("append-text", "%s of %ld, %ld pieces, %d", Piece<S>::name(), (long)s.size(), (long)n, way);
  vf::sig((uint64_t)n * 4 + (uint64_t)way);
  long moves = 0;
  Meter m;
  const void* p = s.data();
  I cap = s.capacity();
  for (int64_t i = 0; i < n; ++i) {
    switch (way < 3 ? way : (int)r.below(5)) {
      case 0: s.Append('c'); break;
      case 1: s.Append(rune(r)); break;
      case 2: Piece<S>::lit(s); break;
      case 3: s.Append((I)r.below(4), 'd'); break;
      default: s.Append((I)r.below(4), rune(r));
    }
    if (s.data() != p || s.capacity() != cap) ++moves;
    p = s.data(); cap = s.capacity();
  }
  vf::Quiet q;
  long e = (long)s.size(), bytes = m.bytes();
  VF_CHECK(moves <= 12 + 8 * std::log2((double)e + 1), "appends-moved", "%s: %ld pieces have changed the storage %ld times", Piece<S>::name(), (long)n, moves);
  VF_CHECK(bytes <= 16 * (e + 64) * (long)sizeof(*s.data()), "appends-bytes", "%s: %ld pieces, %ld characters have requested %ld bytes", Piece<S>::name(), (long)n, e, bytes);
  VF_CHECK(s.capacity() <= 8 * (e + 64), "capacity-excess", "%s of %ld characters has a capacity of %ld", Piece<S>::name(), e, (long)s.capacity());
  vf::event("text-pieces", n); vf::nontrivial();
}

static void strings(Rng& r) {
  int64_t n = r.below(4) ? r.range(0, 300) : r.mark(5000);
  if (r.chance(40)) { if (r.chance(60)) texts<il::String>(r); else texts<il::UTF16String>(r); return; }
  if (r.chance(60)) {
    il::String s{};
    if (r.chance(50)) s.Append((I)r.range(0, 40), 'q');
    if (r.chance(20)) s.Clear();
    n = std::max<int64_t>(n, s.size());
    vf::op("fill-string", "of %ld, room for %ld", (long)s.size(), (long)n);
    vf::sig((uint64_t)n);
    s.Reserve(n);
    const char* p = s.data();
    I cap = s.capacity();
    Meter m;
    while (s.size() < n) {
      I left = n - s.size();
      I k = std::min<I>(left, r.range(0, 12));
      switch (r.below(6)) {
        case 0: s.Append('c'); break;
        case 1: if (left >= 4) s.Append(rune(r)); break;
        case 2: s.Append(k, 'd'); break;
        case 3: if (left >= 4 * k) s.Append(k, rune(r)); break;
        case 4: if (left >= 5) s.Append("hello"); break;
        default: { char b[12]; memset(b, 'e', 12); s.Append(il::StringType::Ascii, b, k); }
      }
      if (s.data() != p || s.capacity() != cap) { vf::Quiet q; VF_CHECK(false, "append-within-reserve", "a string of %ld characters has got new storage although room for %ld was reserved", (long)s.size(), (long)n); }
    }
    vf::Quiet q;
    VF_CHECK(m.bytes() == 0, "fill-allocates", "filling the %ld reserved characters has requested %ld bytes", (long)n, m.bytes());
    vf::event("filled-string");
  } else {
    il::UTF16String s{};
    if (r.chance(50)) s.Append((I)r.range(0, 40), 'q');
    n = std::max<int64_t>(n, s.size());
    vf::op("fill-string16", "of %ld, room for %ld", (long)s.size(), (long)n);
    vf::sig((uint64_t)n);
    s.Reserve(n);
    const unsigned short* p = s.data();
    I cap = s.capacity();
    Meter m;
    while (s.size() < n) {
      I left = n - s.size();
      I k = std::min<I>(left, r.range(0, 12));
      switch (r.below(6)) {
        case 0: case 1: s.Append('c'); break;
        case 2: if (left >= 2) s.Append(rune(r)); break;
        case 3: s.Append(k, 'd'); break;
        case 4: if (left >= 2 * k) s.Append(k, rune(r)); break;
        default: if (left >= 3) s.Append(u"abc");
      }
      if (s.data() != p || s.capacity() != cap) { vf::Quiet q; VF_CHECK(false, "append-within-reserve", "a 16-bit string of %ld units has got new storage although room for %ld was reserved", (long)s.size(), (long)n); }
    }
    vf::Quiet q;
    VF_CHECK(m.bytes() == 0, "fill-allocates", "filling the %ld reserved units has requested %ld bytes", (long)n, m.bytes());
    vf::event("filled-string16");
  }
  vf::nontrivial();
}

// ---- hash tables -----------------------------------------------------------------
static long g_looked = 0;
struct F : il::HashFunction<long> {  // counts the slots that are looked at
  static bool isEmpty(long x) { ++g_looked; return il::HashFunction<long>::isEmpty(x); }
};
static long key(uint64_t i) { uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; return (long)(x >> 1); }
template <typename M> static double looked(Rng& r, const M& m, uint64_t lo, uint64_t hi, bool in) {
  long l0 = g_looked;
  int n = 400;
  for (int k = 0; k < n; ++k) {
    uint64_t i = in ? lo + r.below((int64_t)(hi - lo)) : hi + 1 + r.below(1000000);
    bool f = m.found(m.search(key(i)));
    VF_CHECK(f == in, "lookup", "a key is %s", f ? "found that was not inserted" : "not found");
  }
  return (double)(g_looked - l0) / n;
}
template <typename M> static void probes(Rng& r, const M& m, uint64_t lo, uint64_t hi, const char* when) {
  if (hi - lo < 40) return;
  double a = looked(r, m, lo, hi, true), b = looked(r, m, lo, hi, false);
  VF_CHECK(a <= 40 && b <= 60, "slots", "%s, %lu elements: %.1f slots are looked at for a present key, %.1f for an absent one", when, (unsigned long)(hi - lo), a, b);
  vf::event("lookups-measured");
}
// the eight ways a pair can be set; a run uses the same one, or all of them
template <typename M> static void put(Rng& r, M& m, int way, long k, long v) {
  const long ck = k, cv = v;
  if (way > 7) way = (int)r.below(8);
  if (way < 4) {
    switch (way) {
      case 0: m.Set(ck, cv); break;
      case 1: m.Set(ck, std::move(v)); break;
      case 2: m.Set(std::move(k), cv); break;
      default: m.Set(std::move(k), std::move(v));
    }
    return;
  }
  il::spot_t i = m.search(ck);
  switch (way) {
    case 4: m.Set(ck, cv, il::io, i); break;
    case 5: m.Set(ck, std::move(v), il::io, i); break;
    case 6: m.Set(std::move(k), cv, il::io, i); break;
    default: m.Set(std::move(k), std::move(v), il::io, i);
  }
}
static void maps(Rng& r) {
  int way = (int)r.below(9);
  typedef il::Map<long, long, F> M;
  M m{};
  int64_t n = r.below(3) ? r.range(0, 500) : r.mark(15000);
  switch (r.below(3)) {
    case 0: {
      vf::op("map-insert", "%ld keys", (long)n);
      vf::sig((uint64_t)n);
      Meter t;
      long changes = 0; I nb = m.nbBuckets();
      for (int64_t i = 0; i < n; ++i) { put(r, m, way, key(i), i); if (m.nbBuckets() != nb) { ++changes; nb = m.nbBuckets(); } }
      long bytes = t.bytes();
      vf::Quiet q;
      VF_CHECK(changes <= 12 + 8 * std::log2((double)n + 1), "inserts-moved", "%ld insertions have changed the number of slots %ld times", (long)n, changes);
      VF_CHECK(bytes <= 32 * (n + 8) * (long)(2 * sizeof(long)) + 1024, "inserts-bytes", "%ld insertions have requested %ld bytes", (long)n, bytes);
      VF_CHECK(nb <= 16 * (n + 8), "slots-excess", "%ld slots for %ld elements", (long)nb, (long)n);
      probes(r, m, 0, (uint64_t)n, "after insertions");
      vf::event("map-inserts", n);
      break; }
    case 1: {
      uint64_t have = (uint64_t)r.size(40);
      for (uint64_t i = 0; i < have; ++i) m.Set(key(i), (long)i);
      n = std::max<int64_t>(n, (int64_t)have);
      vf::op("map-reserve", "%ld keys, room for %ld", (long)have, (long)n);
      vf::sig((uint64_t)n);
      m.Reserve(n);
      I nb = m.nbBuckets();
      const long* p = nullptr;
      if (have) p = &m.value(m.search(key(0)));
      Meter t;
      for (uint64_t i = have; i < (uint64_t)n; ++i) put(r, m, way, key(i), (long)i);
      long bytes = t.bytes();
      vf::Quiet q;
      VF_CHECK(m.nbBuckets() == nb && bytes == 0, "insert-within-reserve", "filling a map that has reserved %ld elements has requested %ld bytes (%ld slots, then %ld)", (long)n, bytes, (long)nb, (long)m.nbBuckets());
      if (have) VF_CHECK(p == &m.value(m.search(key(0))) && *p == 0, "insert-within-reserve", "a value has moved although the map had room");
      probes(r, m, 0, (uint64_t)n, "after a reservation");
      vf::event("map-reserved");
      break; }
    default: {  // a window of keys: the oldest leave, new ones come
      uint64_t top = (uint64_t)r.range(1, r.chance(20) ? 600 : 60), lo = 0, hi = 0;
      int64_t ops = r.range(200, 3000);
      vf::op("map-window", "%lu keys, %ld operations", (unsigned long)top, (long)ops);
      vf::sig((uint64_t)ops);
      Meter t;
      I most = 0;
      bool burst = r.chance(50);
      for (int64_t k = 0; k < ops; ++k) {
        bool full = hi - lo >= top;
        if (!full && (hi == lo || r.chance(burst ? 70 : 50))) { put(r, m, way, key(hi), (long)hi); ++hi; }
        else if (burst && r.chance(2)) { m.Clear(); lo = hi; }
        else { il::spot_t i = m.search(key(lo)); VF_CHECK(m.found(i) && m.value(i) == (long)lo, "lookup", "a key is lost"); m.erase(i); ++lo; }
        if (m.nbBuckets() > most) most = m.nbBuckets();
      }
      long bytes = t.bytes();
      vf::Quiet q;
      VF_CHECK(m.nbElements() == (I)(hi - lo), "count", "%ld elements instead of %lu", (long)m.nbElements(), (unsigned long)(hi - lo));
      VF_CHECK(most <= 16 * ((I)top + 8), "window-slots", "a map of at most %lu elements has got %ld slots", (unsigned long)top, (long)most);
      VF_CHECK(bytes <= 64 * (ops + (long)top + 16) * (long)(2 * sizeof(long)), "window-bytes", "%ld operations on at most %lu elements have requested %ld bytes", (long)ops, (unsigned long)top, bytes);
      probes(r, m, lo, hi, "after erasures");
      vf::event("map-window", ops); }
  }
  vf::nontrivial();
}
// text keys, set from C strings
template <typename M> static void putText(Rng& r, M& m, int way, uint64_t i) {
  char k[12];
  snprintf(k, sizeof k, "%011lx", (unsigned long)key(i) & 0xFFFFFFFFFFFul);
  long v = (long)i;
  const long cv = v;
  if (way > 4) way = (int)r.below(5);
  switch (way) {
    case 0: m.SetCString(k, cv); break;
    case 1: m.SetCString(k, std::move(v)); break;
    case 2: { il::spot_t s = m.searchCString(k); m.SetCString(k, cv, il::io, s); break; }
    case 3: { il::spot_t s = m.searchCString(k, 11); m.SetCString(k, (I)11, cv, il::io, s); break; }
    default: m.Set(il::String{il::StringType::Ascii, k, 11}, v);
  }
}
static void textMaps(Rng& r) {
  typedef il::Map<il::String, long> M;
  int64_t n = r.below(3) ? r.range(0, 300) : r.mark(3000);
  int way = (int)r.below(6);
  bool room = r.chance(50);
  vf::op("text-map", "%ld keys%s, %d", (long)n, room ? ", with room" : "", way);
  vf::sig((uint64_t)n * 16 + (uint64_t)way);
  M m{};
  if (room) m.Reserve(n);
  I nb = m.nbBuckets(), nb0 = nb;
  long changes = 0;
  Meter t;
  for (int64_t i = 0; i < n; ++i) { putText(r, m, way, (uint64_t)i); if (m.nbBuckets() != nb) { ++changes; nb = m.nbBuckets(); } }
  long bytes = t.bytes();
  vf::Quiet q;
  VF_CHECK(m.nbElements() == n, "count", "%ld elements instead of %ld", (long)m.nbElements(), (long)n);
  if (room && way != 4 && way != 5) VF_CHECK(bytes == 0, "insert-within-reserve", "filling a map of texts that has reserved %ld elements has requested %ld bytes", (long)n, bytes);
  if (room) VF_CHECK(nb == nb0, "insert-within-reserve", "a map that has reserved %ld elements went from %ld to %ld slots", (long)n, (long)nb0, (long)nb);
  VF_CHECK(changes <= 12 + 8 * std::log2((double)n + 1), "inserts-moved", "%ld insertions of texts have changed the number of slots %ld times", (long)n, changes);
  VF_CHECK(nb <= 16 * (n + 8), "slots-excess", "%ld slots for %ld elements", (long)nb, (long)n);
  vf::event("text-keys", n); vf::nontrivial();
}
static void setsAndOrdered(Rng& r) {
  if (r.chance(25)) { textMaps(r); return; }
  int64_t n = r.below(3) ? r.range(0, 500) : r.mark(12000);
  vf::sig((uint64_t)n);
  if (r.chance(50)) {
    il::Set<long, F> s{};
    vf::op("set-add", "%ld elements", (long)n);
    int way = (int)r.below(3);
    Meter t;
    for (int64_t i = 0; i < n; ++i) { if (way < 2 ? way : (int)r.below(2)) s.Add(key(i)); else { il::spot_t j = s.search(key(i)); s.Add(key(i), il::io, j); } }
    long bytes = t.bytes();
    { vf::Quiet q;
      VF_CHECK(bytes <= 32 * (n + 8) * (long)sizeof(long) + 1024, "inserts-bytes", "%ld additions to a set have requested %ld bytes", (long)n, bytes);
      probes(r, s, 0, (uint64_t)n, "set"); }
    int rounds = (int)r.range(1, 6);
    Meter u;
    for (int k = 0; k < rounds; ++k) { s.Clear(); for (int64_t i = 0; i < n; ++i) s.Add(key(i + 7)); }
    vf::Quiet q;
    VF_CHECK(u.bytes() <= 32 * (n + 8) * (long)sizeof(long) * rounds + 1024, "inserts-bytes", "filling a set again %d times has requested %ld bytes", rounds, u.bytes());
    vf::event("set-adds", n);
  } else {
    typedef il::MapArray<long, long, F> M;
    bool room = r.chance(50);
    M m{room ? n : 0};
    vf::op("ordered-insert", "%ld keys%s", (long)n, room ? ", with room" : "");
    int way = (int)r.below(9);
    Meter t;
    for (int64_t i = 0; i < n; ++i) put(r, m, way, key(i), i);
    long bytes = t.bytes();
    vf::Quiet q;
    if (room) VF_CHECK(bytes == 0, "insert-within-reserve", "filling an insertion-ordered map built for %ld elements has requested %ld bytes", (long)n, bytes);
    VF_CHECK(bytes <= 64 * (n + 8) * (long)(2 * sizeof(long)) + 1024, "inserts-bytes", "%ld insertions in an insertion-ordered map have requested %ld bytes", (long)n, bytes);
    probes(r, m, 0, (uint64_t)n, "insertion-ordered map");
    vf::event("ordered-inserts", n);
  }
  vf::nontrivial();
}
// elements that own memory: how many are made while the tables grow
static void trackedTable(Rng& r) {
  int64_t n = r.below(3) ? r.range(0, 200) : r.mark(1200);
  vf::op("map-of-objects", "%ld", (long)n);
  vf::sig((uint64_t)n);
  bool ordered = r.chance(50);
  Meter t;
  if (ordered) { il::MapArray<long, vf::Tracked, F> m{}; for (int64_t i = 0; i < n; ++i) m.Set(key(i), vf::Tracked{i}); vf::Quiet q; VF_CHECK(t.handled() <= 20 * (n + 8), "inserts-handled", "%ld insertions have made or assigned %ld elements", (long)n, t.handled()); }
  else { il::Map<long, vf::Tracked, F> m{}; for (int64_t i = 0; i < n; ++i) m.Set(key(i), vf::Tracked{i}); vf::Quiet q; VF_CHECK(t.handled() <= 20 * (n + 8), "inserts-handled", "%ld insertions have made or assigned %ld elements", (long)n, t.handled()); }
  vf::event("objects-in-tables"); vf::nontrivial();
}
// the memory held by objects that are used again and again stays within what they have held at once
static void reuse(Rng& r) {
  int kind = (int)r.below(6), rounds = (int)r.range(30, 150);
  vf::op("reuse", "%d, %d rounds", kind, rounds);
  vf::sig((uint64_t)(kind * 1000 + rounds));
  long h0 = g_held, early = 0;
  auto look = [&](int k, long slack) {
    long h = g_held - h0;
    if (k < 20) early = std::max(early, h);
    else { vf::Quiet q; VF_CHECK(h <= 4 * early + slack, "held", "%ld bytes are held in round %d, at most %ld in the first ones", h, k, early); }
  };
  if (kind == 0) {
    il::Info x{};
    for (int k = 0; k < rounds; ++k) {
      static const char* keys[] = {"a", "line", "column", "a much longer key than the others"};
      for (int j = 0; j < 4; ++j) switch (r.below(4)) {
        case 0: x.Set(keys[j], (int)k); break;
        case 1: x.Set(keys[j], 1.5 * k); break;
        case 2: x.Set(keys[j], "some text or other"); break;
        default: x.Set(keys[j], "a text that is a bit longer than the other one");
      }
      look(k, 2048);
    }
  } else if (kind == 1) {
    il::String s{}, u{};
    for (int k = 0; k < rounds; ++k) {
      switch (r.below(4)) { case 0: s.Clear(); break; case 1: s = "a text that does not fit in the object itself"; break; case 2: u = s; break; default: s.Append((I)r.range(0, 30), 'x'); if (s.size() > 200) s = u; }
      if (u.size() > 400) u = "";
      look(k, 8192);
    }
  } else if (kind == 2) {
    il::Dynamic d{};
    for (int k = 0; k < rounds; ++k) {
      switch (r.below(5)) { case 0: d = il::Dynamic{1.5}; break; case 1: d = il::Dynamic{il::String{"a text that does not fit in the object itself"}}; break; case 2: d = il::Dynamic{il::Array<double>{50, 1.0}}; break; case 3: d = il::Dynamic{il::Array<double>{5, 1.0}}; break; default: { il::Dynamic e{d}; d = e; } }
      look(k, 8192);
    }
  } else if (kind == 3) {
    il::Deque<long> q{40};
    for (int k = 0; k < rounds; ++k) { for (int j = 0; j < 30; ++j) { if (q.size() < 40 && r.chance(60)) { if (r.chance(50)) q.PushBack(j); else q.PushFront(j); } else if (q.size()) { if (r.chance(50)) q.PopBack(); else q.PopFront(); } } look(k, 1024); }
  } else if (kind == 4) {
    il::Array<vf::Tracked> a{}, b{};
    for (int k = 0; k < rounds; ++k) { switch (r.below(5)) { case 0: a.Resize((I)r.range(0, 50)); break; case 1: b = a; break; case 2: a = std::move(b); break; case 3: a.Append(vf::Tracked{k}); if (a.size() > 60) a.Resize(3); break; default: b.Resize(0); } look(k, 16384); }
  } else {
    il::MapArray<il::String, long> m{};
    il::Map<il::String, long> c{};
    for (int k = 0; k < rounds; ++k) {
      for (int j = 0; j < 10; ++j) { il::String s{il::StringType::Ascii, "key", 3}; s.Append((I)r.range(1, 30), 'y'); m.Set(s, k); c.Set(s, k); if (r.chance(40)) { il::spot_t i = c.search(s); c.erase(i); } }
      if (r.chance(10)) c.Clear();
      if (r.chance(10)) { il::MapArray<il::String, long> o{m}; m = o; }
      look(k, 65536);
    }
  }
  vf::event("reused"); vf::nontrivial();
}

void vf_case(Rng& r, uint64_t) {
  vf::lifeBegin();
  switch (r.below(16)) {
    case 0: arrays<char>(r); break;
    case 1: arrays<int>(r); break;
    case 2: case 3: arrays<double>(r); break;
    case 4: arrayCase<il::Array<vf::MoveOnly>, vf::MoveOnly>(r, "Array"); vf::event("move-only"); break;
    case 5: case 6: arrays<vf::Tracked>(r); break;
    case 7: alignedArrays(r); break;
    case 8: case 9: strings(r); break;
    case 10: case 11: case 12: maps(r); break;
    case 13: setsAndOrdered(r); break;
    case 14: trackedTable(r); break;
    default: reuse(r);
  }
  vf::lifeEnd();
  if (vf::wantSample()) vf::sample(vf::fmt("ended with %s", vf::st().last_op));
}
