// A model of configuration data, independent of the library, with a renderer that varies layout.
#ifndef VF_TOMLREF_H
#define VF_TOMLREF_H
#include "vfil.h"
#include <il/toml.h>
#include <memory>
namespace cfg {
using vf::Rng;
enum Kind { kBool, kInt, kDouble, kString, kArray, kTable };
struct V {
  Kind k = kBool;
  bool b = false;
  long i = 0;
  double d = 0;
  std::string s;
  std::vector<V> a;                              // array
  std::vector<std::pair<std::string, V>> m;      // table
  bool inl = false;                              // table written inline
  bool aot = false;                              // array written with [[...]]
  const V* find(const std::string& key) const { for (auto& e : m) if (e.first == key) return &e.second; return nullptr; }
};
typedef il::MapArray<il::String, il::Dynamic> MA;
typedef il::Map<il::String, il::Dynamic> MP;
inline il::String S(const std::string& s) {
  bool ascii = true;
  for (char c : s) if ((unsigned char)c >= 128) ascii = false;
  return il::String{ascii ? il::StringType::Ascii : il::isUtf8(s.data(), (il::int_t)s.size()) ? il::StringType::Utf8 : il::StringType::Byte, s.data(), (il::int_t)s.size()};
}
inline std::string show(const std::string& s) { std::string o; for (char c : s.substr(0, 60)) { if ((unsigned char)c < 32) o += vf::fmt("\\%02x", c); else o += c; } return o; }

// ---- comparison with what the library holds --------------------------------
void same(const il::Dynamic& x, const V& v, const std::string& path);
template <typename M>
inline void sameTable(const M& m, const V& v, const std::string& path) {
  il::int_t n = 0;
  for (il::spot_t i = m.spotBegin(); i != m.spotEnd(); i = m.next(i)) {
    ++n;
    std::string key(m.key(i).data(), (size_t)m.key(i).size());
    const V* w = v.find(key);
    VF_CHECK(w, "key", "%s holds the key '%s' that the data does not have", path.c_str(), show(key).c_str());
  }
  VF_CHECK(n == (il::int_t)v.m.size(), "key", "%s holds %ld keys instead of %zu", path.c_str(), (long)n, v.m.size());
  VF_CHECK(m.nbElements() == n, "key-count", "%s says %ld keys, enumerates %ld", path.c_str(), (long)m.nbElements(), (long)n);
  for (auto& e : v.m) {
    il::spot_t i = m.search(S(e.first));
    VF_CHECK(m.found(i), "key", "%s has no key '%s'", path.c_str(), show(e.first).c_str());
    same(m.value(i), e.second, path + "/" + show(e.first));
  }
}
inline void same(const il::Dynamic& x, const V& v, const std::string& path) {
  const char* p = path.c_str();
  switch (v.k) {
    case kBool: VF_CHECK(x.is<bool>() && x.to<bool>() == v.b, "value", "%s is not the boolean %d", p, (int)v.b); break;
    case kInt:
      VF_CHECK(x.type() == il::Type::Integer, "type", "%s is not an integer (type %d)", p, (int)x.type());
      VF_CHECK(x.to<il::int_t>() == v.i, "value", "%s is %ld instead of %ld", p, (long)x.to<il::int_t>(), v.i);
      break;
    case kDouble: {
      VF_CHECK(x.is<double>(), "type", "%s is not a double (type %d)", p, (int)x.type());
      double d = x.to<double>();
      VF_CHECK(memcmp(&d, &v.d, 8) == 0, "value", "%s is %.17g instead of %.17g", p, d, v.d);
      break;
    }
    case kString: {
      VF_CHECK(x.is<il::String>(), "type", "%s is not a string (type %d)", p, (int)x.type());
      const il::String& s = x.as<il::String>();
      VF_CHECK(std::string(s.data(), (size_t)s.size()) == v.s, "value", "%s is the string '%s' instead of '%s'", p, show(std::string(s.data(), (size_t)s.size())).c_str(), show(v.s).c_str());
      break;
    }
    case kArray: {
      VF_CHECK(x.is<il::Array<il::Dynamic>>(), "type", "%s is not an array (type %d)", p, (int)x.type());
      const il::Array<il::Dynamic>& a = x.as<il::Array<il::Dynamic>>();
      VF_CHECK(a.size() == (il::int_t)v.a.size(), "array-size", "%s has %ld elements instead of %zu", p, (long)a.size(), v.a.size());
      for (size_t k = 0; k < v.a.size(); ++k) same(a[(il::int_t)k], v.a[k], path + "[" + std::to_string(k) + "]");
      break;
    }
    case kTable:
      if (x.is<MA>()) sameTable(x.as<MA>(), v, path);
      else VF_CHECK(false, "type", "%s is not a table (type %d)", p, (int)x.type());
      break;
  }
}

// ---- random data -----------------------------------------------------------
inline std::string text(Rng& r, int max, bool line) {
  static const char* bits[] = {"\"", "\\", "#", "[", "]", "{", "}", "=", ",", ".", "'", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", " ", "  ", "\\n", "\\u0041", "//", "%s", "%"};
  std::string s;
  int n = (int)r.size(max);
  for (int i = 0; i < n; ++i) {
    if (r.chance(12)) s += bits[r.below(21)];
    else if (r.chance(2)) s += line ? "\t" : r.chance(50) ? "\t" : r.chance(50) ? "\n" : r.chance(50) ? "\r" : r.chance(50) ? "\b" : "\f";
    else s += (char)(r.chance(80) ? 'a' + r.below(26) : 33 + r.below(94));
  }
  return s;
}
inline std::string bare(Rng& r) {
  std::string s;
  int n = r.below(2000) == 0 ? (int)std::max<int64_t>(1, r.mark(5000)) : (int)r.range(1, r.chance(10) ? 40 : 6);
  for (int i = 0; i < n; ++i) s += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-"[r.below(r.chance(60) ? 4 : 64)];
  return s;
}
inline V scalar(Rng& r, Kind k) {
  V v;
  v.k = k;
  if (k == kBool) v.b = r.chance(50);
  else if (k == kInt) { v.i = r.chance(50) ? r.range(-20, 20) : (long)r.next() >> r.below(64); if (r.chance(5)) v.i = r.chance(50) ? 9223372036854775807L : -9223372036854775807L - 1; }
  else if (k == kDouble) {
    switch (r.below(5)) {
      case 0: v.d = (double)r.range(-100, 100); break;
      case 1: v.d = r.sym(); break;
      case 2: v.d = std::ldexp(r.sym(), (int)r.range(-1070, 1020)); break;
      case 3: v.d = (double)r.range(-1000, 1000) / 10; break;
      default: { uint64_t b = r.next(); memcpy(&v.d, &b, 8); if (!std::isfinite(v.d)) v.d = -0.0; }
    }
  } else v.s = text(r, r.below(250) == 0 ? (int)r.mark(70000) : r.chance(10) ? 600 : 20, false);
  return v;
}
inline V table(Rng& r, int depth, bool root, bool headers);
// deep nesting: 0 arrays, 1 inline tables, 2 both, 3 tables with headers, 4 arrays of tables
inline V chain(Rng& r, int depth, int how) {
  if (depth <= 0) return scalar(r, (Kind)r.below(4));
  V v;
  int h = how == 2 ? (int)r.below(2) : how;
  if (h == 0) { v.k = kArray; v.a.push_back(chain(r, depth - 1, how)); return v; }
  V t;
  t.k = kTable; t.inl = h < 3;
  t.m.emplace_back(bare(r), chain(r, depth - 1, how));
  if (r.chance(20)) { std::string key = bare(r); if (!t.find(key)) t.m.emplace_back(key, scalar(r, (Kind)r.below(4))); }
  if (h < 4) return t;
  v.k = kArray; v.aot = true; v.a.push_back(t);
  return v;
}
inline V value(Rng& r, int depth) {
  int c = (int)r.below(depth > 0 ? 8 : 5);
  if (c < 5) { static const Kind ks[] = {kBool, kInt, kInt, kDouble, kString}; return scalar(r, ks[c]); }
  if (c == 7) { V t = table(r, depth - 1, false, false); t.inl = true; return t; }
  V v;
  v.k = kArray;
  int n = (int)r.size(r.chance(5) ? 120 : 6);
  if (r.below(1200) == 0) { n = (int)r.mark(6000); vf::event("long-array"); }
  if (n > 12 && depth > 1) depth = 1;
  int ek = (int)r.below(depth > 1 ? 6 : 4);
  for (int i = 0; i < n; ++i) {
    if (ek < 4) v.a.push_back(scalar(r, (Kind)ek));
    else if (ek == 4) { V w; do w = value(r, depth - 1); while (w.k != kArray); v.a.push_back(w); }
    else { V t = table(r, depth - 2, false, false); t.inl = true; v.a.push_back(t); }
  }
  return v;
}
inline V table(Rng& r, int depth, bool root, bool headers) {
  V t;
  t.k = kTable;
  int n = (int)r.range(0, root ? 10 : 4);
  if (root && r.below(120) == 0) n = (int)r.range(40, 300);
  if (root && headers && r.below(400) == 0) { n = (int)r.mark(2500); depth = std::min(depth, 1); vf::event("many-keys"); }
  for (int i = 0; i < n; ++i) {
    std::string key = r.chance(80) ? bare(r) : text(r, 12, true);
    if (t.find(key)) continue;
    V v;
    if (headers && depth > 0 && r.chance(35)) {
      if (r.chance(70)) v = table(r, depth - 1, false, true);
      else { v.k = kArray; v.aot = true; int m = (int)r.range(1, 3); if (root && n < 12 && r.below(150) == 0) { m = (int)std::max<int64_t>(1, r.mark(1200)); vf::event("many-tables"); } for (int j = 0; j < m; ++j) v.a.push_back(table(r, m > 10 ? 0 : depth - 1, false, true)); }
    } else if (root && r.below(400) == 0) {
      int how = (int)r.below(headers ? 5 : 3);
      v = chain(r, (int)r.mark(how == 4 ? 80 : 150), how);
      vf::event("deep");
    } else v = value(r, n > 300 ? 1 : 3);
    t.m.emplace_back(key, v);
  }
  return t;
}
inline size_t count(const V& v) { size_t n = 1; for (auto& e : v.a) n += count(e); for (auto& e : v.m) n += count(e.second); return n; }

// ---- rendering with varied layout ------------------------------------------
struct Render {
  Rng& r;
  std::string out;
  std::string eol;
  bool mixed;
  explicit Render(Rng& rr) : r(rr) { eol = r.chance(30) ? "\r\n" : "\n"; mixed = r.chance(10); }
  std::string ws() { if (r.chance(70)) return r.chance(50) ? " " : ""; std::string s; int n = (int)r.range(0, r.chance(5) ? 220 : 4); for (int i = 0; i < n; ++i) s += r.chance(70) ? ' ' : '\t'; return s; }
  std::string comment() {
    std::string s = "#" + text(r, r.below(500) == 0 ? (int)r.mark(70000) : r.chance(15) ? 500 : 20, true);
    if (r.chance(10)) s += " [x] = \"";
    return s;
  }
  std::string nl() { return mixed ? (r.chance(50) ? "\n" : "\r\n") : eol; }
  void endLine() { out += ws(); if (r.chance(15)) out += comment(); out += nl(); while (r.chance(15)) { out += ws(); if (r.chance(50)) out += comment(); out += nl(); } }
  // inside an array
  void gap() { if (r.chance(12)) { do { out += ws(); if (r.chance(30)) out += comment(); out += nl(); } while (r.chance(30)); } out += ws(); }
  void basic(const std::string& s) {
    out += '"';
    for (char c : s) {
      switch (c) {
        case '"': out += "\\\""; break;
        case '\\': out += "\\\\"; break;
        case '\n': out += "\\n"; break;
        case '\r': out += "\\r"; break;
        case '\b': out += "\\b"; break;
        case '\f': out += "\\f"; break;
        case '\t': if (r.chance(50)) out += "\\t"; else out += c; break;
        default: out += c;
      }
    }
    out += '"';
  }
  static bool plain(const std::string& s) { for (char c : s) if (c == '\'' || c == '\n' || c == '\r' || c == '\b' || c == '\f') return false; return true; }
  void quoted(const std::string& s) { if (plain(s) && r.chance(40)) { out += '\''; out += s; out += '\''; vf::event("literal-string"); } else basic(s); }
  static bool isBare(const std::string& s) { if (s.empty()) return false; for (char c : s) if (!(isalnum((unsigned char)c) || c == '_' || c == '-')) return false; return true; }
  void key(const std::string& s) { if (isBare(s) && r.chance(85)) out += s; else { quoted(s); vf::event("quoted-key"); } }
  void digits(std::string s) {
    for (size_t i = 0; i < s.size(); ++i) { out += s[i]; if (i + 1 < s.size() && isdigit((unsigned char)s[i]) && isdigit((unsigned char)s[i + 1]) && r.chance(10)) { out += '_'; vf::event("underscore"); } }
  }
  void number(double& d) {
    std::string s;
    for (;;) {
      switch (r.below(4)) {
        case 0: s = vf::fmt("%.17g", d); break;
        case 1: s = vf::fmt("%.16e", d); break;
        case 2: s = std::fabs(d) < 1e15 ? vf::fmt("%.*f", (int)r.range(1, 20), d) : vf::fmt("%.17g", d); break;
        default: s = vf::fmt(r.chance(50) ? "%.3e" : "%.3E", d);
      }
      if (s.find_first_of(".eE") == std::string::npos) s += ".0";
      double x = strtod(s.c_str(), nullptr);
      if (std::isfinite(x)) { d = x; break; }
    }
    if (s[0] != '-' && r.chance(10)) s = "+" + s;
    size_t p = s.find_first_of(".eE");
    digits(s.substr(0, p));
    out += s.substr(p);
  }
  void val(V& v) {
    switch (v.k) {
      case kBool: out += v.b ? "true" : "false"; break;
      case kInt: { std::string s = std::to_string(v.i); if (v.i >= 0 && r.chance(10)) s = "+" + s; digits(s); break; }
      case kDouble: number(v.d); break;
      case kString: quoted(v.s); break;
      case kArray:
        out += '['; gap();
        for (size_t i = 0; i < v.a.size(); ++i) { val(v.a[i]); gap(); if (i + 1 < v.a.size() || r.chance(20)) { out += ','; gap(); } }
        out += ']';
        vf::event("array");
        break;
      case kTable:
        out += '{'; out += ws();
        for (size_t i = 0; i < v.m.size(); ++i) { key(v.m[i].first); out += ws(); out += '='; out += ws(); val(v.m[i].second); out += ws(); if (i + 1 < v.m.size()) { out += ','; out += ws(); } }
        out += '}';
        vf::event("inline-table");
        break;
    }
  }
  void header(const std::vector<std::string>& path, bool array) {
    out += ws(); out += array ? "[[" : "[";
    for (size_t i = 0; i < path.size(); ++i) { if (i) { out += ws(); out += '.'; } out += ws(); key(path[i]); }
    out += ws(); out += array ? "]]" : "]";
    endLine();
    vf::event(array ? "table-of-array" : "table-header");
  }
  static bool isSub(const V& v) { return (v.k == kTable && !v.inl) || (v.k == kArray && v.aot); }
  void body(V& t) {
    for (auto& e : t.m) if (!isSub(e.second)) { out += ws(); key(e.first); out += ws(); out += '='; out += ws(); val(e.second); endLine(); vf::event("key-value"); }
  }
  bool onlySubs(const V& t) { if (t.m.empty()) return false; bool table = false; for (auto& e : t.m) { if (!isSub(e.second)) return false; table = true; } return table; }
  void subs(V& t, std::vector<std::string>& path) {
    std::vector<size_t> order;
    for (size_t i = 0; i < t.m.size(); ++i) if (isSub(t.m[i].second)) order.push_back(i);
    for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[(size_t)r.below((int64_t)i)]);
    for (size_t i : order) {
      V& v = t.m[i].second;
      path.push_back(t.m[i].first);
      if (v.k == kTable) {
        bool after = false;
        if (onlySubs(v) && r.chance(60)) { vf::event("implicit-table"); after = false; }
        else {
          // a table may come after its children
          bool kids = false;
          for (auto& e : v.m) if (e.second.k == kTable && !e.second.inl) kids = true;
          after = kids && r.chance(25);
          if (!after) { header(path, false); body(v); }
        }
        subs(v, path);
        if (after) { header(path, false); body(v); vf::event("table-after-children"); }
      } else {
        for (auto& w : v.a) { header(path, true); body(w); subs(w, path); }
      }
      path.pop_back();
    }
  }
  std::string doc(V& root) {
    if (r.chance(20)) endLine();
    body(root);
    std::vector<std::string> path;
    subs(root, path);
    if (r.chance(20)) { while (!out.empty() && (out.back() == '\n' || out.back() == '\r')) out.pop_back(); vf::event("no-final-newline"); }
    return out;
  }
};
}  // namespace cfg
#endif
