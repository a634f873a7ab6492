// S03: comparison, search, slicing, joining, conversion on strings and views against std::string;
// every view lives in a buffer of exactly its size, so reading outside is a sanitizer report.
#include "vfil.h"
#include <il/String.h>
#include <il/container/string/algorithmString.h>
#include <sstream>
using vf::Rng;
typedef il::StringType ST;

struct Buf {  // exact-size buffer
  char* p; size_t n;
  explicit Buf(const std::string& s) : p(new char[s.size()]), n(s.size()) { memcpy(p, s.data(), n); }
  ~Buf() { delete[] p; }
  il::StringView view() const { return il::StringView{ST::Byte, p, (il::int_t)n}; }
  Buf(const Buf&) = delete;
};
struct CStr { char* p; explicit CStr(const std::string& s) : p(new char[s.size() + 1]) { memcpy(p, s.c_str(), s.size() + 1); } ~CStr() { delete[] p; } CStr(const CStr&) = delete; };
static std::string text(Rng& r, int64_t max) {
  int64_t n = r.chance(25) ? r.range(19, 26) : r.size(max);
  if (n > max) n = max;
  if (max >= 40 && r.below(400) == 0) n = r.range(1000, 20000);
  std::string s;
  int style = (int)r.below(5);
  for (int64_t i = 0; i < n; ++i)
    s += style == 0 ? (char)('a' + r.below(2)) : style == 1 ? (char)r.below(256) : style == 2 ? " \t\r\n0a9fFgG"[r.below(11)] : style == 3 ? (char)(r.chance(30) ? 0 : 'a' + r.below(3)) : (char)r.range(32, 126);
  return s;
}
static std::string related(Rng& r, const std::string& s) {
  switch (r.below(7)) {
    case 0: return s;
    case 1: return s.substr(0, (size_t)r.below((int64_t)s.size() + 1));
    case 2: { size_t i = (size_t)r.below((int64_t)s.size() + 1); return s.substr(i); }
    case 3: { size_t i = (size_t)r.below((int64_t)s.size() + 1); return s.substr(i, (size_t)r.below(5)); }
    case 4: return s + text(r, 3);
    case 5: { std::string t = s; if (!t.empty()) t[(size_t)r.below((int64_t)t.size())] ^= (char)(1 << r.below(8)); return t; }
    default: return text(r, 40);
  }
}
static il::String S(const std::string& s) { return il::String{ST::Byte, s.data(), (il::int_t)s.size()}; }
static il::int_t pos(size_t p) { return p == std::string::npos ? -1 : (il::int_t)p; }
static std::string noz(std::string s) { std::string t; for (char c : s) if (c) t += c; return t; }

static void compare(Rng& r) {
  std::string a = text(r, 60), b = related(r, a), bz = noz(b);
  il::String x = S(a), y = S(b);
  if (r.chance(30)) x.Reserve(40);
  CStr c(bz);
  vf::op("equal", "%zu %zu", a.size(), b.size());
  VF_CHECK((x == y) == (a == b) && (y == x) == (a == b), "string-equality", "operator== of strings of %zu and %zu bytes", a.size(), b.size());
  VF_CHECK((x == c.p) == (a == bz) && (c.p == x) == (a == bz), "cstring-equality", "operator== with a C string");
  VF_CHECK((x != c.p) == (a != bz) && (c.p != x) == (a != bz), "cstring-inequality", "operator!= with a C string");
  vf::op("isEqual", "%zu %zu", a.size(), b.size());
  VF_CHECK(x.isEqual(c.p) == (a == bz), "isEqual", "isEqual(C string): text of %zu bytes, argument of %zu", a.size(), bz.size());
  { Buf bb(b); VF_CHECK(x.isEqual(bb.p, (il::int_t)b.size()) == (a == b), "isEqual-n", "isEqual(data, n)"); }
  vf::op("view==", "%zu %zu", a.size(), bz.size());
  { Buf ba(a); VF_CHECK((ba.view() == c.p) == (a == bz), "view-equality", "view of %zu bytes == C string of %zu", a.size(), bz.size()); }
  vf::op("less", "%zu %zu", a.size(), b.size());
  VF_CHECK((x < y) == (a < b) && (y < x) == (b < a), "string-order", "operator< of strings");
  VF_CHECK((c.p < x) == (bz < a), "cstring-order", "operator< with a C string");
  vf::op("startsWith", "%zu %zu", a.size(), b.size());
  { Buf bb(b);
    VF_CHECK(x.startsWith(bb.view()) == (b.size() <= a.size() && a.compare(0, b.size(), b) == 0), "startsWith", "prefix test");
    VF_CHECK(x.endsWith(bb.view()) == (b.size() <= a.size() && a.compare(a.size() - b.size(), b.size(), b) == 0), "endsWith", "suffix test"); }
  char ch = !a.empty() && r.chance(50) ? a[r.chance(50) ? a.size() - 1 : 0] : r.chance(30) ? 'c' : (char)r.below(256);
  vf::op("endsWith(char)", "%d", ch);
  VF_CHECK(x.endsWith(ch) == (!a.empty() && a.back() == ch), "endsWith-char", "endsWith(%d)", ch);
  vf::event(a == b ? "equal-pair" : "different-pair");
}
static void searching(Rng& r) {
  std::string a = text(r, 60), b = related(r, a);
  if (r.chance(30) && !a.empty()) b = a.substr((size_t)r.below((int64_t)a.size()), (size_t)r.range(1, 4));
  il::String x = S(a), y = S(b);
  Buf ba(a), bb(b);
  il::int_t e = pos(a.find(b));
  vf::op("search", "%zu in %zu", b.size(), a.size());
  VF_CHECK(x.search(bb.view()) == e, "search-member", "search gives %ld, expected %ld", (long)x.search(bb.view()), (long)e);
  VF_CHECK(il::search(bb.view(), ba.view()) == e, "search-views", "search gives %ld, expected %ld", (long)il::search(bb.view(), ba.view()), (long)e);
  VF_CHECK(il::search(y, x) == e, "search-strings", "search");
  std::string bz = noz(b); CStr c(bz); const char* cz = c.p;
  VF_CHECK(il::search(cz, ba.view()) == pos(a.find(bz)), "search-cstring", "search");
  VF_CHECK(il::search("ab", x) == pos(a.find("ab")), "search-literal", "search");
  VF_CHECK(x.found(e) == (e >= 0), "found", "found");
  char ch = !a.empty() && r.chance(70) ? a[(size_t)r.below((int64_t)a.size())] : (char)r.below(256);
  vf::op("count", "%d", ch);
  VF_CHECK(x.count(ch) == (il::int_t)std::count(a.begin(), a.end(), ch), "count", "count(%d)", ch);
  if ((unsigned char)ch < 128) VF_CHECK(il::count(ch, ba.view()) == (il::int_t)std::count(a.begin(), a.end(), ch), "count-view", "count(%d)", ch);
  vf::event(e >= 0 ? "found" : "not-found");
}
static bool dig(char c) { return c >= '0' && c <= '9'; }
static void views(Rng& r) {
  std::string a = text(r, 40);
  Buf b(a);
  il::StringView v = b.view();
  size_t lo = 0, hi = a.size();
  for (int k = 0; k < 5; ++k) {
    int64_t n = (int64_t)(hi - lo);
    std::string m = a.substr(lo, hi - lo);
    VF_CHECK(v.data() == b.p + lo && v.size() == n && v.isEmpty() == (n == 0) && v.type() == ST::Byte, "view-extent", "view [%zu,%zu) of %zu", lo, hi, a.size());
    vf::op("view-predicates", "%ld", (long)n);
    for (int64_t i = 0; i < n; ++i) {
      char c = m[i];
      VF_CHECK(v[i] == c && &v[i] == b.p + lo + i, "view-element", "[%ld]", (long)i);
      VF_CHECK(&v.back(i) == b.p + hi - 1 - i, "view-back", "back(%ld)", (long)i);
      VF_CHECK(v.hasSpace(i) == (c == ' ' || (c >= 9 && c <= 13)), "hasSpace", "%d", c);
      VF_CHECK(v.hasDigit(i) == dig(c), "hasDigit", "%d", c);
      VF_CHECK(v.hasHexaDecimal(i) == (dig(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')), "hasHexaDecimal", "%d", c);
      VF_CHECK(v.hasNewLine(i) == (c == '\n' || (c == '\r' && i + 1 < n && m[i + 1] == '\n')), "hasNewLine", "%ld", (long)i);
      int64_t j = i + 1; while (j < n && ((unsigned char)m[j] & 0xC0) == 0x80) ++j;
      VF_CHECK(v.nextRune(i) == j, "nextRune", "nextRune(%ld) is %ld, expected %ld", (long)i, (long)v.nextRune(i), (long)j);
    }
    vf::op("view-search", "%ld", (long)n);
    int64_t from = r.below(n + 1);
    char c = n && r.chance(60) ? m[r.below(n)] : (char)r.below(256);
    VF_CHECK(v.nextChar(from, c) == pos(m.find(c, from)), "nextChar", "nextChar(%ld,%d)", (long)from, c);
    VF_CHECK(v.nextDigit(from) == pos(m.find_first_of("0123456789", from)), "nextDigit", "nextDigit(%ld)", (long)from);
    if (n) VF_CHECK(v.startsWithDigit() == dig(m[0]), "startsWithDigit", "");
    VF_CHECK(v.startsWithNewLine() == ((n > 0 && m[0] == '\n') || (n > 1 && m[0] == '\r' && m[1] == '\n')), "startsWithNewLine", "");
    { il::StringView t = il::removeWhitespaceLeft(v); size_t w = 0; while ((int64_t)w < n && (m[w] == ' ' || m[w] == '\t')) ++w;
      VF_CHECK(t.data() == v.data() + w && t.size() == n - (int64_t)w, "removeWhitespaceLeft", "");
      il::StringView u = v; u.trimPrefix(); VF_CHECK(u.data() == v.data() + w && u.size() == n - (int64_t)w, "trimPrefix", ""); }
    { std::ostringstream o; o << v; VF_CHECK(o.str() == m, "view-stream", "streaming a view of %ld bytes wrote %zu", (long)n, o.str().size()); }
    { il::String s{v}; VF_CHECK(s.size() == n && memcmp(s.data(), m.data(), n) == 0, "string-from-view", ""); std::ostringstream o; o << s; VF_CHECK(o.str() == m, "string-stream", "streaming a string of %ld bytes wrote %zu", (long)n, o.str().size()); }
    VF_CHECK(il::isAscii(b.p + lo, n) == std::all_of(m.begin(), m.end(), [](char q) { return (unsigned char)q < 128; }), "isAscii", "");
    int64_t i0 = r.below(n + 1), i1 = r.range(i0, n);
    vf::op("slice", "%ld %ld of %ld", (long)i0, (long)i1, (long)n);
    switch (r.below(3)) {
      case 0: v = v.subview(i0, i1); hi = lo + i1; lo += i0; break;
      case 1: v.removePrefix(i0); lo += i0; break;
      default: v.removeSuffix(i1); hi = lo + i1;
    }
  }
  vf::event("views");
}
static void joins(Rng& r) {
  std::string t[6]; ST ty[6]; il::String* s[6];
  static const ST all[] = {ST::Ascii, ST::Utf8, ST::Wtf8, ST::Byte};
  for (int i = 0; i < 6; ++i) { t[i] = text(r, r.chance(50) ? 6 : 40); ty[i] = r.pick(all); s[i] = new il::String(ty[i], t[i].data(), (il::int_t)t[i].size()); }
  int n = (int)r.range(2, 6);
  std::string e; unsigned char w = 0;
  for (int i = 0; i < n; ++i) { e += t[i]; w = std::max(w, (unsigned char)ty[i]); }
  vf::op("join", "%d: %zu bytes", n, e.size());
  il::String j = n == 2 ? il::join(*s[0], *s[1]) : n == 3 ? il::join(*s[0], *s[1], *s[2]) : n == 4 ? il::join(*s[0], *s[1], *s[2], *s[3])
               : n == 5 ? il::join(*s[0], *s[1], *s[2], *s[3], *s[4]) : il::join(*s[0], *s[1], *s[2], *s[3], *s[4], *s[5]);
  VF_CHECK(j.size() == (il::int_t)e.size() && memcmp(j.data(), e.data(), e.size()) == 0 && j.data()[j.size()] == 0, "join", "join of %d strings, %zu bytes", n, e.size());
  VF_CHECK((unsigned char)j.type() == w, "join-type", "type of a join of %d strings", n);
  for (int i = 0; i < 6; ++i) delete s[i];
  vf::event("joins");
}
static void conversions(Rng& r) {
  int64_t v = 0;
  switch (r.below(6)) {
    case 0: v = (int64_t)r.next(); break;
    case 1: v = INT64_MAX - r.below(3); break;
    case 2: v = INT64_MIN + r.below(3); break;
    case 3: v = r.range(-1000, 1000); break;
    default: v = 1; for (int64_t k = r.below(19); k > 0; --k) v *= 10; v += r.range(-1, 1); if (r.chance(50)) v = -v;
  }
  vf::op("toString(int)", "%ld", (long)v);
  il::String s = il::toString((il::int_t)v);
  std::string e = std::to_string((long long)v);
  VF_CHECK(s.size() == (il::int_t)e.size() && memcmp(s.data(), e.data(), e.size()) == 0 && s.data()[s.size()] == 0, "integer-to-text", "toString(%ld) has %ld characters: \"%.40s\"", (long)v, (long)s.size(), s.data());
  VF_CHECK(strtoll(s.asCString(), nullptr, 10) == v, "integer-read-back", "%ld", (long)v);
  std::string t = text(r, 40), tz = noz(t);
  vf::op("toString(std)", "%zu", t.size());
  il::String a = il::toString(t);
  VF_CHECK(a.size() == (il::int_t)t.size() && memcmp(a.data(), t.data(), t.size()) == 0, "std-string", "");
  CStr c(tz);
  il::String b = il::toString((const char*)c.p);
  VF_CHECK(b.size() == (il::int_t)tz.size() && memcmp(b.data(), tz.data(), tz.size()) == 0, "c-string", "");
  il::StringView w = il::view(c.p);
  VF_CHECK(w.data() == c.p && w.size() == (il::int_t)tz.size() && il::size(c.p) == w.size(), "view-of-c-string", "");
  bool asc = false; il::int_t q = il::cstringSizeType(c.p, il::io, asc);
  bool ea = std::all_of(tz.begin(), tz.end(), [](char x) { return (unsigned char)x < 128; });
  VF_CHECK(q == w.size() && asc == ea && il::isAscii((const char*)c.p) == ea, "cstringSizeType", "");
  vf::event("conversions");
}
void vf_case(Rng& r, uint64_t) {
  for (int k = 0; k < 4; ++k)
    switch (r.below(6)) {
      case 0: case 1: compare(r); break;
      case 2: searching(r); break;
      case 3: views(r); break;
      case 4: joins(r); break;
      default: conversions(r);
    }
  vf::nontrivial();
  if (vf::wantSample()) vf::sample(vf::fmt("last: %s", vf::st().last_op));
}
