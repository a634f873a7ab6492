// A model of what a binary pack holds, independent of the library.
#ifndef VF_PACKREF_H
#define VF_PACKREF_H
#include "vfil.h"
#include <il/data.h>
#include <il/File.h>
#include <il/io/ppm/ppm.h>
#include "npyref.h"
namespace pk {
using vf::Rng;
typedef il::MapArray<il::String, il::Dynamic> MA;
typedef il::Map<il::String, il::Dynamic> MP;
enum Kind { kBool, kInt, kFloat, kDouble, kString, kArr, kMatU8, kMatD, kMA, kMP, kStruct, kKinds };
struct V {
  Kind k = kBool;
  bool b = false;
  long i = 0;
  float f = 0;
  double d = 0;
  std::string s;
  std::vector<double> v;       // array, matrix by columns
  std::vector<unsigned char> u;
  il::int_t n0 = 0, n1 = 0;
  std::vector<std::pair<std::string, V>> m;   // maps, in order; fields of an array of structures
  bool ints = false;           // field: array of int
  const V* find(const std::string& key) const { for (auto& e : m) if (e.first == key) return &e.second; return nullptr; }
};
inline il::String S(const std::string& s) { return il::String{il::StringType::Byte, s.data(), (il::int_t)s.size()}; }
inline std::string T(const il::String& s) { return std::string(s.data(), (size_t)s.size()); }
inline double dbl(Rng& r) {
  switch (r.below(4)) {
    case 0: return (double)r.range(-5, 5);
    case 1: return r.sym();
    case 2: return r.chance(50) ? HUGE_VAL : -0.0;
    default: { uint64_t b = r.next(); double d; memcpy(&d, &b, 8); return d == d ? d : 1e-310; }
  }
}
inline std::string text(Rng& r, int max, bool any) {
  std::string s;
  int n = (int)r.size(max);
  for (int i = 0; i < n; ++i) s += any && r.chance(10) ? (char)r.below(256) : (char)('a' + r.below(26));
  return s;
}
inline V map(Rng& r, int depth, bool strukt);
inline V value(Rng& r, int depth) {
  V v;
  v.k = (Kind)r.below(depth > 0 ? kStruct : kMA);
  if (depth > 0 && r.chance(10)) v.k = kMA;
  switch (v.k) {
    case kBool: v.b = r.chance(50); break;
    case kInt: v.i = r.chance(50) ? r.range(-300, 300) : (long)r.next() >> r.below(64); if (r.chance(5)) v.i = r.chance(50) ? 9223372036854775807L : -9223372036854775807L - 1; break;
    case kFloat: v.f = r.chance(30) ? HUGE_VALF : (float)r.sym(); break;
    case kDouble: v.d = dbl(r); break;
    case kString: v.s = text(r, r.below(400) == 0 ? 40000 : r.chance(5) ? 3000 : 30, true); break;
    case kArr: { il::int_t n = r.size(r.below(400) == 0 ? 20000 : r.chance(5) ? 3000 : 12); for (il::int_t i = 0; i < n; ++i) v.v.push_back(dbl(r)); break; }
    case kMatU8: v.n0 = r.size(9); v.n1 = r.size(9); if (r.below(60) == 0) { v.n0 = r.range(1, 150); v.n1 = r.range(1, 150); } for (il::int_t i = 0; i < v.n0 * v.n1; ++i) v.u.push_back((unsigned char)r.below(256)); break;
    case kMatD: v.n0 = r.size(9); v.n1 = r.size(9); if (r.below(60) == 0) { v.n0 = r.range(1, 80); v.n1 = r.range(1, 80); } for (il::int_t i = 0; i < v.n0 * v.n1; ++i) v.v.push_back(dbl(r)); break;
    default: { Kind k = v.k; v = map(r, depth - 1, false); v.k = k; }
  }
  return v;
}
// fields of the same length
inline V fields(Rng& r) {
  V t;
  t.k = kMA;
  int nf = (int)r.range(0, 4), n = (int)r.size(20);
  if (r.below(40) == 0) { n = (int)r.mark(20000); vf::event("many-structures"); }
  if (r.below(100) == 0) { nf = (int)r.mark(300); n = (int)r.size(20); }
  if (nf == 0) n = 0;
  for (int f = 0; f < nf; ++f) {
    V a;
    a.k = kArr;
    a.ints = r.chance(50);
    for (int i = 0; i < n; ++i) a.v.push_back(a.ints ? (double)(int)r.next() : dbl(r));
    std::string key = "f" + std::to_string(f) + text(r, 6, false);
    t.m.push_back({key, a});
  }
  return t;
}
inline V map(Rng& r, int depth, bool root) {
  V t;
  t.k = kMA;
  int n = (int)r.range(0, root ? 10 : 4);
  if (root && r.chance(3)) n = 150;
  if (root && r.below(200) == 0) { n = (int)r.mark(2500); depth = 0; vf::event("many-keys"); }
  for (int i = 0; i < n; ++i) {
    std::string key = text(r, r.below(800) == 0 ? (int)r.mark(70000) : r.chance(5) ? 300 : 8, true);
    if (key.empty() || t.find(key)) continue;
    t.m.push_back({key, value(r, n > 200 ? 0 : depth)});
  }
  if (root && r.below(150) == 0) {
    V v = value(r, 0);
    int d = (int)r.mark(150);
    for (int i = 0; i < d; ++i) { V w; w.k = r.chance(50) ? kMA : kMP; w.m.push_back({text(r, 5, false) + "k", v}); if (r.chance(20)) { V e = value(r, 0); w.m.push_back({"e", e}); } v = w; }
    if (!t.find("deep")) { t.m.push_back({"deep", v}); vf::event("deep"); }
  }
  return t;
}
template <typename M> void fill(Rng& r, const V& v, M& m);
inline il::Dynamic dyn(Rng& r, const V& v) {
  switch (v.k) {
    case kBool: return il::Dynamic{v.b};
    case kInt: return il::Dynamic{(il::int_t)v.i};
    case kFloat: return il::Dynamic{v.f};
    case kDouble: return il::Dynamic{v.d};
    case kString: return il::Dynamic{S(v.s)};
    case kArr: {
      const il::int_t n = (il::int_t)v.v.size();
      if (v.ints) { il::Array<int> a{n}; for (il::int_t i = 0; i < n; ++i) a[i] = (int)v.v[(size_t)i]; return il::Dynamic{std::move(a)}; }
      il::Array<double> a{};
      if (r.chance(50)) a.Reserve(n + r.range(0, 5));
      a.Resize(n);
      for (il::int_t i = 0; i < n; ++i) a[i] = v.v[(size_t)i];
      return il::Dynamic{std::move(a)};
    }
    case kMatU8: {
      il::Array2D<unsigned char> a{};
      if (r.chance(50)) { a.Reserve(v.n0 + r.range(0, 3), v.n1 + r.range(0, 3)); vf::event("padded"); }
      a.Resize(v.n0, v.n1);
      for (il::int_t j = 0; j < v.n1; ++j) for (il::int_t i = 0; i < v.n0; ++i) a(i, j) = v.u[(size_t)(i + j * v.n0)];
      return il::Dynamic{std::move(a)};
    }
    case kMatD: {
      il::Array2D<double> a{};
      if (r.chance(50)) { a.Reserve(v.n0 + r.range(0, 3), v.n1 + r.range(0, 3)); vf::event("padded"); }
      a.Resize(v.n0, v.n1);
      for (il::int_t j = 0; j < v.n1; ++j) for (il::int_t i = 0; i < v.n0; ++i) a(i, j) = v.v[(size_t)(i + j * v.n0)];
      return il::Dynamic{std::move(a)};
    }
    case kMP: { MP m{}; fill(r, v, m); vf::event("nested-map"); return il::Dynamic{std::move(m)}; }
    default: { MA m{}; fill(r, v, m); vf::event("nested-maparray"); return il::Dynamic{std::move(m)}; }
  }
}
template <typename M> void fill(Rng& r, const V& v, M& m) { for (auto& e : v.m) m.Set(S(e.first), dyn(r, e.second)); }

// 0: equal, otherwise what differs
inline std::string differs(const il::Dynamic& x, const V& v);
template <typename M> std::string differsMap(const M& m, const V& v, bool ordered) {
  il::int_t n = 0;
  for (il::spot_t i = m.spotBegin(); i != m.spotEnd(); i = m.next(i)) {
    std::string key = T(m.key(i));
    if (!v.find(key)) return "a key that was not saved";
    if (ordered && v.m[(size_t)n].first != key) return "keys in another order";
    ++n;
  }
  if (n != (il::int_t)v.m.size() || m.nbElements() != n) return "another number of keys";
  for (auto& e : v.m) {
    il::spot_t i = m.search(S(e.first));
    if (!m.found(i)) return "a key that can not be found";
    std::string d = differs(m.value(i), e.second);
    if (!d.empty()) return d;
  }
  return "";
}
inline std::string differs(const il::Dynamic& x, const V& v) {
  switch (v.k) {
    case kBool: return x.is<bool>() && x.to<bool>() == v.b ? "" : "a boolean";
    case kInt: return x.type() == il::Type::Integer && x.to<il::int_t>() == v.i ? "" : "an integer";
    case kFloat: { if (!x.is<float>()) return "the type of a float"; float f = x.to<float>(); return memcmp(&f, &v.f, 4) ? "a float" : ""; }
    case kDouble: { if (!x.is<double>()) return "the type of a double"; double f = x.to<double>(); return memcmp(&f, &v.d, 8) ? "a double" : ""; }
    case kString: return x.is<il::String>() && T(x.as<il::String>()) == v.s ? "" : "a string";
    case kArr: {
      if (v.ints) {
        if (!x.is<il::Array<int>>()) return "the type of a field";
        const il::Array<int>& a = x.as<il::Array<int>>();
        if (a.size() != (il::int_t)v.v.size()) return "the size of a field";
        for (size_t i = 0; i < v.v.size(); ++i) if (a[(il::int_t)i] != (int)v.v[i]) return "an element of a field";
        return "";
      }
      if (!x.is<il::Array<double>>()) return "the type of an array";
      const il::Array<double>& a = x.as<il::Array<double>>();
      if (a.size() != (il::int_t)v.v.size()) return "the size of an array";
      for (size_t i = 0; i < v.v.size(); ++i) if (memcmp(&a[(il::int_t)i], &v.v[i], 8)) return "an element of an array";
      return "";
    }
    case kMatU8: {
      if (!x.is<il::Array2D<unsigned char>>()) return "the type of a byte matrix";
      const il::Array2D<unsigned char>& a = x.as<il::Array2D<unsigned char>>();
      if (a.size(0) != v.n0 || a.size(1) != v.n1) return "the size of a byte matrix";
      for (il::int_t j = 0; j < v.n1; ++j) for (il::int_t i = 0; i < v.n0; ++i) if (a(i, j) != v.u[(size_t)(i + j * v.n0)]) return "an element of a byte matrix";
      return "";
    }
    case kMatD: {
      if (!x.is<il::Array2D<double>>()) return "the type of a matrix";
      const il::Array2D<double>& a = x.as<il::Array2D<double>>();
      if (a.size(0) != v.n0 || a.size(1) != v.n1) return "the size of a matrix";
      for (il::int_t j = 0; j < v.n1; ++j) for (il::int_t i = 0; i < v.n0; ++i) if (memcmp(&a(i, j), &v.v[(size_t)(i + j * v.n0)], 8)) return "an element of a matrix";
      return "";
    }
    case kMP: return x.is<MP>() ? differsMap(x.as<MP>(), v, false) : "the type of a map";
    default: return x.is<MA>() ? differsMap(x.as<MA>(), v, true) : "the type of a map array";
  }
}
// a pixel image as other programs write it
inline std::string ppm(Rng& r, int w, int h, const std::string& px) {
  auto sep = [&](bool last) {
    if (last) return std::string(1, "\n \t\r"[r.chance(70) ? 0 : r.below(4)]);
    std::string s;
    int n = r.chance(60) ? 1 : (int)r.range(1, 4);
    for (int i = 0; i < n; ++i) {
      s += " \n\t\r\v\f"[r.chance(80) ? r.below(2) : r.below(6)];
      if (r.chance(25)) { s += "#" + text(r, r.chance(5) ? 200 : 12, false) + (r.chance(50) ? " 7 8 255 # P6" : "") + "\n"; }
    }
    return s;
  };
  std::string z = r.chance(5) ? "0" : "";
  std::string f = "P6" + sep(false) + z + std::to_string(w) + sep(false) + std::to_string(h) + sep(false) + "255" + sep(true);
  return f + px;
}
}  // namespace pk
#endif
