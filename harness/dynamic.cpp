// D01: il::Dynamic of every payload type against a tree of plain C++ values, through random
// histories of construction, copy, move, reassignment to other types and nesting.
#include "vfil.h"
#include <il/Dynamic.h>
using vf::Rng;

enum K { kVoid, kBool, kUChar, kSChar, kUShort, kShort, kInteger, kFloat, kDouble, kString, kArray, kMap, kMapArray,
         kAUChar, kASChar, kAUShort, kAShort, kAUInt, kAInt, kAUInteger, kAInteger, kADouble, kA2Double, kA2UChar, kCount };
static const char* kName[] = {"void", "bool", "uchar", "schar", "ushort", "short", "integer", "float", "double", "string", "array", "map", "maparray",
  "uchar[]", "schar[]", "ushort[]", "short[]", "uint[]", "int[]", "uinteger[]", "integer[]", "double[]", "double[,]", "uchar[,]"};
static const il::Type kType[] = {il::Type::Void, il::Type::Bool, il::Type::UInt8, il::Type::Int8, il::Type::UInt16, il::Type::Int16, il::Type::Integer, il::Type::Float32, il::Type::Double,
  il::Type::UnicodeString, il::Type::ArrayOfDynamic, il::Type::MapStringToDynamic, il::Type::MapArrayStringToDynamic, il::Type::ArrayOfUInt8, il::Type::ArrayOfInt8, il::Type::ArrayOfUInt16, il::Type::ArrayOfInt16,
  il::Type::ArrayOfUInt32, il::Type::ArrayOfInt32, il::Type::ArrayOfUInt64, il::Type::ArrayOfInt64, il::Type::ArrayOfDouble, il::Type::Array2DOfDouble, il::Type::Array2DOfUInt8};
struct V {
  K k; int64_t i; double d; std::string s;
  std::vector<V> a;                                // array
  std::vector<std::pair<std::string, V>> m;        // maps (insertion order)
  std::vector<int64_t> n; std::vector<double> f;   // numeric arrays
  int64_t n0, n1;
  V() : k(kVoid), i(0), d(0), n0(0), n1(0) {}
};
static size_t weight(const V& v) {
  size_t w = 1;
  for (auto& x : v.a) w += weight(x);
  for (auto& x : v.m) w += weight(x.second);
  return w;
}
typedef il::Array<il::Dynamic> AD;
typedef il::Map<il::String, il::Dynamic> MD;
typedef il::MapArray<il::String, il::Dynamic> MA;
static il::String str(const std::string& s) { return il::String{il::StringType::Byte, s.data(), (il::int_t)s.size()}; }
static std::string back(const il::String& s) { return std::string(s.data(), (size_t)s.size()); }

template <typename T> static void nums(const il::Array<T>& a, const V& v, const char* who) {
  VF_CHECK(a.size() == (il::int_t)v.n.size(), "array-size", "%s: %ld elements, expected %zu", who, (long)a.size(), v.n.size());
  for (il::int_t i = 0; i < a.size(); ++i) VF_CHECK(a[i] == (T)v.n[(size_t)i], "array-element", "%s: element %ld differs", who, (long)i);
}
static void same(const il::Dynamic& x, const V& v, const char* who, bool deep = true) {
  VF_CHECK(x.type() == kType[v.k], "type", "%s: type() is %d, the value stored is %s (%d)", who, (int)x.type(), kName[v.k], (int)kType[v.k]);
  const bool is[] = {x.is<void>(), x.is<bool>(), x.is<unsigned char>(), x.is<signed char>(), x.is<unsigned short>(), x.is<short>(), x.is<il::int_t>(), x.is<float>(), x.is<double>(), x.is<il::String>(), x.is<AD>(), x.is<MD>(), x.is<MA>(),
    x.is<il::Array<unsigned char>>(), x.is<il::Array<signed char>>(), x.is<il::Array<unsigned short>>(), x.is<il::Array<short>>(), x.is<il::Array<unsigned int>>(), x.is<il::Array<int>>(),
    x.is<il::Array<std::size_t>>(), x.is<il::Array<il::int_t>>(), x.is<il::Array<double>>(), x.is<il::Array2D<double>>(), x.is<il::Array2D<unsigned char>>()};
  for (int k = 0; k < kCount; ++k) VF_CHECK(is[k] == (k == v.k), "is", "%s: holds %s, is<%s>() is %d", who, kName[v.k], kName[k], (int)is[k]);
  VF_CHECK(!x.is<int>(), "is", "%s: is<int>()", who);
  bool ok = true;
  switch (v.k) {
    case kVoid: break;
    case kBool: ok = x.to<bool>() == (v.i != 0); break;
    case kUChar: ok = x.to<unsigned char>() == v.i; break;
    case kSChar: ok = x.to<signed char>() == v.i; break;
    case kUShort: ok = x.to<unsigned short>() == v.i; break;
    case kShort: ok = x.to<short>() == v.i; break;
    case kInteger: ok = x.to<il::int_t>() == v.i; break;
    case kFloat: { float f = x.to<float>(), g = (float)v.d; ok = memcmp(&f, &g, sizeof f) == 0; break; }
    case kDouble: { double f = x.to<double>(); ok = memcmp(&f, &v.d, sizeof f) == 0; break; }
    case kString: { vf::Quiet q; ok = back(x.as<il::String>()) == v.s; break; }
    case kArray: {
      const AD& a = x.as<AD>();
      VF_CHECK(a.size() == (il::int_t)v.a.size(), "array-size", "%s: array of %ld values, expected %zu", who, (long)a.size(), v.a.size());
      if (deep) for (size_t i = 0; i < v.a.size(); ++i) same(a[(il::int_t)i], v.a[i], "array element");
      break; }
    case kMap: {
      const MD& m = x.as<MD>();
      VF_CHECK(m.nbElements() == (il::int_t)v.m.size(), "map-size", "%s: map of %ld values, expected %zu", who, (long)m.nbElements(), v.m.size());
      if (deep) for (auto& e : v.m) {
        il::spot_t i = m.search(str(e.first));
        VF_CHECK(m.found(i), "map-key", "%s: key \"%s\" is lost", who, e.first.c_str());
        same(m.value(i), e.second, "map value");
      }
      break; }
    case kMapArray: {
      const MA& m = x.as<MA>();
      VF_CHECK(m.nbElements() == (il::int_t)v.m.size(), "map-size", "%s: map of %ld values, expected %zu", who, (long)m.nbElements(), v.m.size());
      il::spot_t i = m.spotBegin();
      if (deep) for (auto& e : v.m) {
        { vf::Quiet q; VF_CHECK(back(m.key(i)) == e.first, "map-order", "%s: key \"%s\" where \"%s\" was inserted", who, m.key(i).asCString(), e.first.c_str()); }
        same(m.value(i), e.second, "map value");
        i = m.next(i);
      }
      break; }
    case kAUChar: nums(x.as<il::Array<unsigned char>>(), v, who); break;
    case kASChar: nums(x.as<il::Array<signed char>>(), v, who); break;
    case kAUShort: nums(x.as<il::Array<unsigned short>>(), v, who); break;
    case kAShort: nums(x.as<il::Array<short>>(), v, who); break;
    case kAUInt: nums(x.as<il::Array<unsigned int>>(), v, who); break;
    case kAInt: nums(x.as<il::Array<int>>(), v, who); break;
    case kAUInteger: nums(x.as<il::Array<std::size_t>>(), v, who); break;
    case kAInteger: nums(x.as<il::Array<il::int_t>>(), v, who); break;
    case kADouble: { const il::Array<double>& a = x.as<il::Array<double>>();
      ok = a.size() == (il::int_t)v.f.size() && (v.f.empty() || memcmp(a.data(), v.f.data(), v.f.size() * sizeof(double)) == 0); break; }
    case kA2Double: { const il::Array2D<double>& a = x.as<il::Array2D<double>>();
      ok = a.size(0) == v.n0 && a.size(1) == v.n1;
      for (int64_t i = 0; ok && i < v.n0; ++i) for (int64_t j = 0; j < v.n1; ++j) ok = ok && memcmp(&a(i, j), &v.f[(size_t)(i + j * v.n0)], sizeof(double)) == 0;
      break; }
    case kA2UChar: { const il::Array2D<unsigned char>& a = x.as<il::Array2D<unsigned char>>();
      ok = a.size(0) == v.n0 && a.size(1) == v.n1;
      for (int64_t i = 0; ok && i < v.n0; ++i) for (int64_t j = 0; j < v.n1; ++j) ok = ok && a(i, j) == v.n[(size_t)(i + j * v.n0)];
      break; }
    case kCount: break;
  }
  VF_CHECK(ok, "value", "%s: the %s held differs from the one stored", who, kName[v.k]);
}
static std::string text(Rng& r) {
  std::string s;
  int64_t n = r.chance(50) ? r.range(0, 8) : r.range(18, 40);
  if (r.below(300) == 0) n = r.range(200, 5000);
  for (int64_t i = 0; i < n; ++i) s += (char)r.range(32, 126);
  return s;
}
static std::string mapKey(Rng& r) {
  static const char* k[] = {"a", "b", "ab", "", "a long key which does not fit in the object", "name", "x", "y", "z", "name2"};
  return k[r.below(10)];
}
static double bits(Rng& r) { double d; uint64_t b = r.next(); if (r.chance(60)) return r.sym() * 1e6; memcpy(&d, &b, 8); return d; }
static int64_t edge(Rng& r) {
  static const int64_t e[] = {0, 1, -1, 127, -128, 255, 32767, -32768, 65535, 2147483647, -2147483647 - 1, 4294967295, INT64_MAX, INT64_MIN};
  return r.chance(50) ? e[r.below(14)] : (int64_t)r.next();
}
template <typename T> static il::Array<T> arr(Rng& r, V& v) {
  il::Array<T> a{r.range(0, 9)};
  for (il::int_t i = 0; i < a.size(); ++i) { T t = (T)r.next(); a[i] = t; vf::Quiet q; v.n.push_back((int64_t)t); }
  return a;
}
static il::Dynamic* make(Rng& r, V& v, int depth);
static V value(Rng& r, il::Dynamic*& d, int depth = 0) {
  V v;
  d = make(r, v, depth);
  return v;
}
// builds through each constructor (const& or &&)
template <typename T> static il::Dynamic* wrap(Rng& r, T& t) { return r.chance(50) ? new il::Dynamic(t) : new il::Dynamic(std::move(t)); }
static il::Dynamic* make(Rng& r, V& v, int depth) {
  int top = depth >= 2 ? kString + 1 : kCount;
  v.k = (K)r.below(top);
  if (depth >= 2 && r.chance(30)) v.k = (K)r.range(kAUChar, kCount - 1);
  switch (v.k) {
    case kVoid: return r.chance(50) ? new il::Dynamic() : new il::Dynamic(il::Type::Void);
    case kBool: v.i = r.below(2); return new il::Dynamic(v.i != 0);
    case kUChar: v.i = (unsigned char)edge(r); return new il::Dynamic((unsigned char)v.i);
    case kSChar: v.i = (signed char)edge(r); return new il::Dynamic((signed char)v.i);
    case kUShort: v.i = (unsigned short)edge(r); return new il::Dynamic((unsigned short)v.i);
    case kShort: v.i = (short)edge(r); return new il::Dynamic((short)v.i);
    case kInteger: if (r.chance(50)) { v.i = (int)edge(r); return new il::Dynamic((int)v.i); } v.i = edge(r); return new il::Dynamic((il::int_t)v.i);
    case kFloat: v.d = (double)(float)(r.sym() * 1e4); return new il::Dynamic((float)v.d);
    case kDouble: v.d = bits(r); return new il::Dynamic(v.d);
    case kString: { { vf::Quiet q; v.s = text(r); }
      if (r.chance(20)) { { vf::Quiet q; v.s = "a literal"; } return new il::Dynamic("a literal"); }
      if (r.chance(30)) return new il::Dynamic(il::StringType::Byte, v.s.data(), (il::int_t)v.s.size());
      il::String s = str(v.s); return wrap(r, s); }
    case kArray: { int64_t n = r.range(0, 4); AD a;
      for (int64_t i = 0; i < n; ++i) { il::Dynamic* e; V w = value(r, e, depth + 1); if (r.chance(50)) a.Append(*e); else a.Append(std::move(*e)); delete e; vf::Quiet q; v.a.push_back(w); }
      return wrap(r, a); }
    case kMap: { int64_t n = r.range(0, 4); MD m;
      for (int64_t i = 0; i < n; ++i) { std::string k; { vf::Quiet q; k = mapKey(r); bool in = false; for (auto& e : v.m) in = in || e.first == k; if (in) continue; }
        il::Dynamic* e; V w = value(r, e, depth + 1); if (r.chance(50)) m.Set(str(k), *e); else m.Set(str(k), std::move(*e)); delete e; vf::Quiet q; v.m.push_back({k, w}); }
      return wrap(r, m); }
    case kMapArray: { int64_t n = r.range(0, 4); MA m;
      for (int64_t i = 0; i < n; ++i) { std::string k; { vf::Quiet q; k = mapKey(r); bool in = false; for (auto& e : v.m) in = in || e.first == k; if (in) continue; }
        il::Dynamic* e; V w = value(r, e, depth + 1); il::String ks = str(k); if (r.chance(50)) m.Set(ks, *e); else m.Set(str(k), std::move(*e)); delete e; vf::Quiet q; v.m.push_back({k, w}); }
      return wrap(r, m); }
    case kAUChar: { auto a = arr<unsigned char>(r, v); return wrap(r, a); }
    case kASChar: { auto a = arr<signed char>(r, v); return wrap(r, a); }
    case kAUShort: { auto a = arr<unsigned short>(r, v); return wrap(r, a); }
    case kAShort: { auto a = arr<short>(r, v); return wrap(r, a); }
    case kAUInt: { auto a = arr<unsigned int>(r, v); return wrap(r, a); }
    case kAInt: { auto a = arr<int>(r, v); return wrap(r, a); }
    case kAUInteger: { auto a = arr<std::size_t>(r, v); return wrap(r, a); }
    case kAInteger: { auto a = arr<il::int_t>(r, v); return wrap(r, a); }
    case kADouble: { il::Array<double> a{r.range(0, 9)}; for (il::int_t i = 0; i < a.size(); ++i) { a[i] = bits(r); vf::Quiet q; v.f.push_back(a[i]); } return wrap(r, a); }
    case kA2Double: { v.n0 = r.range(0, 4); v.n1 = r.range(0, 4); il::Array2D<double> a{v.n0, v.n1};
      for (int64_t j = 0; j < v.n1; ++j) for (int64_t i = 0; i < v.n0; ++i) { a(i, j) = bits(r); vf::Quiet q; v.f.push_back(a(i, j)); } return wrap(r, a); }
    case kA2UChar: { v.n0 = r.range(0, 4); v.n1 = r.range(0, 4); il::Array2D<unsigned char> a{v.n0, v.n1};
      for (int64_t j = 0; j < v.n1; ++j) for (int64_t i = 0; i < v.n0; ++i) { a(i, j) = (unsigned char)r.next(); vf::Quiet q; v.n.push_back(a(i, j)); } return wrap(r, a); }
    case kCount: break;
  }
  return new il::Dynamic();
}
static void event(const char* a, const char* b) { vf::Quiet q; vf::st().events[std::string(a) + b]++; }

void vf_case(Rng& r, uint64_t) {
  const int N = 4;
  il::Dynamic* d[N];
  V m[N];
  struct G { il::Dynamic** d; ~G() { for (int i = 0; i < 4; ++i) delete d[i]; } } g{d};
  for (int i = 0; i < N; ++i) d[i] = nullptr;
  for (int i = 0; i < N; ++i) { V v = value(r, d[i]); vf::Quiet q; m[i] = v; }
  int steps = (int)r.range(3, 30);
  for (int t = 0; t < steps; ++t) {
    int a = (int)r.below(N), b = (int)r.below(N);
    il::Dynamic& x = *d[a];
    V& v = m[a];
    const char* from = kName[v.k];
    switch (r.below(16)) {
      case 0: { il::Dynamic* e; V w = value(r, e); vf::op("replace by construction", "%d: %s -> %s", a, from, kName[w.k]); delete d[a]; d[a] = e; { vf::Quiet q; v = w; } event("construct-", kName[w.k]); break; }
      case 1: case 2: { il::Dynamic* e; V w = value(r, e); bool mv = r.chance(50);
        struct D { il::Dynamic* e; ~D() { delete e; } } del{e};
        vf::op(mv ? "assign moved value" : "assign value", "%d: %s -> %s", a, from, kName[w.k]);
        if (mv) { x = std::move(*e); VF_CHECK(e->type() == il::Type::Void, "moved-from", "a moved-from value has type %d", (int)e->type()); } else { x = *e; same(*e, w, "source of an assignment"); }
        { vf::Quiet q; v = w; } event(mv ? "move-to-" : "assign-to-", kName[w.k]); event("assign-over-", from); break; }
      case 3: case 4: {  // typed assignment
        V w;
        switch (r.below(11)) {
          case 0: w.k = kBool; w.i = r.below(2); vf::op("= bool"); x = (w.i != 0); break;
          case 1: w.k = kUChar; w.i = (unsigned char)edge(r); vf::op("= uchar"); x = (unsigned char)w.i; break;
          case 2: w.k = kSChar; w.i = (signed char)edge(r); vf::op("= schar"); x = (signed char)w.i; break;
          case 3: w.k = kUShort; w.i = (unsigned short)edge(r); vf::op("= ushort"); x = (unsigned short)w.i; break;
          case 4: w.k = kShort; w.i = (short)edge(r); vf::op("= short"); x = (short)w.i; break;
          case 5: w.k = kInteger; w.i = (int)edge(r); vf::op("= int"); x = (int)w.i; break;
          case 6: w.k = kInteger; w.i = edge(r); vf::op("= integer"); x = (il::int_t)w.i; break;
          case 7: w.k = kFloat; w.d = (double)(float)r.sym(); vf::op("= float"); x = (float)w.d; break;
          case 8: w.k = kDouble; w.d = bits(r); vf::op("= double"); x = w.d; break;
          default: { w.k = kString;
            if (v.k == kString && r.chance(40)) { bool mv = r.chance(50); vf::op(mv ? "= own string moved" : "= own string"); { vf::Quiet q; w.s = v.s; } if (mv) x = std::move(x.As<il::String>()); else x = x.as<il::String>(); vf::event("own-string"); break; }
            { vf::Quiet q; w.s = text(r); } il::String s = str(w.s); bool mv = r.chance(50); vf::op(mv ? "= string moved" : "= string", "n=%zu", w.s.size()); if (mv) x = std::move(s); else x = s; break; }
        }
        { vf::Quiet q; v = w; } event("typed-assign-", kName[w.k]); event("assign-over-", from); break; }
      case 5: vf::op(a == b ? "self-assign" : "copy-assign", "%d=%d (%s = %s)", a, b, from, kName[m[b].k]); x = *d[b]; { vf::Quiet q; V w = m[b]; v = w; } vf::event(a == b ? "self-assign" : "copy-assign"); break;
      case 6: { vf::op("copy", "%d<-%d %s", a, b, kName[m[b].k]); il::Dynamic* e = new il::Dynamic(*d[b]); delete d[a]; d[a] = e; { vf::Quiet q; V w = m[b]; v = w; } event("copy-", kName[v.k]); break; }
      case 7: if (a == b) { vf::op("self-move-assign", "%d %s", a, from); il::Dynamic& y = x; x = std::move(y); vf::event("self-assign"); break; }
        vf::op("move-assign", "%d=%d %s", a, b, kName[m[b].k]); x = std::move(*d[b]); { vf::Quiet q; v = m[b]; m[b] = V(); } vf::event("move-assign"); break;
      case 8: { if (a == b) break; vf::op("move", "%d<-%d %s", a, b, kName[m[b].k]); il::Dynamic* e = new il::Dynamic(std::move(*d[b])); delete d[a]; d[a] = e; { vf::Quiet q; v = m[b]; m[b] = V(); } event("move-", kName[v.k]); break; }
      case 9: {  // assignment from an element it holds
        if (v.k == kArray && !v.a.empty()) { il::int_t i = (il::int_t)r.below((int64_t)v.a.size()); bool mv = r.chance(50); vf::op(mv ? "= own element moved" : "= own element", "%ld of %zu", (long)i, v.a.size());
          if (mv) x = std::move(x.As<AD>()[i]); else x = x.as<AD>()[i]; vf::Quiet q; V w = v.a[(size_t)i]; v = w; vf::event("own-element"); }
        else if ((v.k == kMap || v.k == kMapArray) && !v.m.empty()) { size_t i = (size_t)r.below((int64_t)v.m.size()); bool mv = r.chance(50); vf::op(mv ? "= own map value moved" : "= own map value", "\"%s\"", v.m[i].first.c_str());
          if (v.k == kMap) { il::spot_t s = x.as<MD>().search(str(v.m[i].first)); if (mv) x = std::move(x.As<MD>().Value(s)); else x = x.as<MD>().value(s); }
          else { il::spot_t s = x.as<MA>().search(str(v.m[i].first)); if (mv) x = std::move(x.As<MA>().Value(s)); else x = x.as<MA>().value(s); }
          vf::Quiet q; V w = v.m[i].second; v = w; vf::event("own-map-value"); }
        break; }
      case 10: case 11: {  // nest a value into a container held by x
        if (weight(v) + weight(m[b]) > 120) break;
        if (v.k == kArray) { vf::op("append", "%d <- %d", a, b); if (a == b) { x.As<AD>().Append(il::Dynamic(x)); } else x.As<AD>().Append(*d[b]); vf::Quiet q; V w = m[b]; v.a.push_back(w); vf::event("nested"); }
        else if (v.k == kMap || v.k == kMapArray) {
          std::string k; { vf::Quiet q; k = mapKey(r); }
          vf::op("set key", "%d[%s] <- %d", a, k.c_str(), b);
          il::Dynamic copy(*d[b]);
          if (v.k == kMap) x.As<MD>().Set(str(k), copy); else { il::String ks = str(k); x.As<MA>().Set(ks, copy); }
          vf::Quiet q; V w = m[b]; bool in = false; for (auto& e : v.m) if (e.first == k) { e.second = w; in = true; }
          if (!in) v.m.push_back({k, w}); vf::event("nested"); }
        break; }
      case 12: {  // write in place
        if (v.k == kInteger) { v.i = edge(r); vf::op("As integer"); x.As<il::int_t>() = v.i; }
        else if (v.k == kDouble) { v.d = bits(r); vf::op("As double"); x.As<double>() = v.d; }
        else if (v.k == kBool) { v.i = !v.i; vf::op("As bool"); x.As<bool>() = v.i != 0; }
        else if (v.k == kString) { vf::op("As string"); { vf::Quiet q; v.s += "!"; } x.As<il::String>().Append('!'); }
        else if (v.k == kArray && !v.a.empty()) { il::int_t i = (il::int_t)r.below((int64_t)v.a.size()); vf::op("change element", "%ld", (long)i); il::Dynamic* e; V w = value(r, e, 1); x.As<AD>()[i] = *e; delete e; vf::Quiet q; v.a[(size_t)i] = w; }
        else if (v.k == kADouble && !v.f.empty()) { vf::op("change number"); v.f[0] = bits(r); x.As<il::Array<double>>()[0] = v.f[0]; }
        else if (v.k == kA2Double && !v.f.empty()) { vf::op("change matrix entry"); v.f[0] = bits(r); x.As<il::Array2D<double>>()(0, 0) = v.f[0]; }
        vf::event("in-place");
        break; }
      case 13: if (v.k == kArray && !v.a.empty()) { il::int_t n = (il::int_t)r.below((int64_t)v.a.size()); vf::op("shrink", "%ld", (long)n); x.As<AD>().Resize(n); vf::Quiet q; v.a.resize((size_t)n); } break;
      case 14: if (v.k == kMap && !v.m.empty()) { size_t i = (size_t)r.below((int64_t)v.m.size()); vf::op("erase key", "%s", v.m[i].first.c_str()); il::spot_t s = x.as<MD>().search(str(v.m[i].first)); x.As<MD>().erase(s); vf::Quiet q; v.m.erase(v.m.begin() + (long)i); } break;
#ifdef VF_CONFIG_DBG
      case 15: {  // reading another type is reported and leaves the value
        bool rep = false;
        int w = (int)r.below(5);
        vf::op("read as another type", "%s as %d", from, w);
        try {
          if (w == 0 && v.k != kDouble) (void)x.to<double>();
          else if (w == 1 && v.k != kString) (void)x.as<il::String>();
          else if (w == 2 && v.k != kArray) (void)x.as<AD>();
          else if (w == 3 && v.k != kMapArray) (void)x.As<MA>();
          else if (w == 4 && v.k != kInteger) (void)x.to<il::int_t>();
          else rep = true;
        } catch (const il::AbortException&) { rep = true; }
        VF_CHECK(rep, "wrong-type-read", "a %s is read as another type (%d) without being reported", from, w);
        vf::event("wrong-type-reported");
        break; }
#endif
    }
    for (int i = 0; i < N; ++i) same(*d[i], m[i], i == a ? "the value" : "another value");
    vf::event("operations");
  }
  vf::event("values-compared", (uint64_t)steps * N);
  if (vf::wantSample()) vf::sample(vf::fmt("%d operations, final %s/%s/%s/%s", steps, kName[m[0].k], kName[m[1].k], kName[m[2].k], kName[m[3].k]));
  vf::nontrivial();
}
