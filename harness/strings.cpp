// S01: il::String / il::UTF16String against std::string / std::u16string under random
// histories; size, bytes, terminator, type, capacity, storage mode after every operation.
#include "vfil.h"
#include <il/String.h>
#include <il/container/string/UTF16String.h>
#include <il/container/string/unicode.h>
#include <il/container/string/algorithmString.h>
#include <sstream>
using vf::Rng;
typedef il::StringType ST;

struct Model { std::string b; ST t = ST::Ascii; };
static ST join(ST a, ST b) { return (unsigned char)a > (unsigned char)b ? a : b; }
static int64_t edgeSize(Rng& r) {
  static const int64_t e[] = {0, 1, 7, 8, 10, 11, 12, 15, 16, 20, 21, 22, 23, 24, 25, 30, 31, 32, 33, 38, 39, 40, 41, 63, 64, 65, 100, 255, 256, 257};
  if (r.below(300) == 0) return r.mark(r.chance(15) ? 150000 : 12000);
  return r.chance(70) ? r.pick(e) : r.range(0, 200);
}
static std::string ascii(Rng& r, int64_t n) { std::string s; for (int64_t i = 0; i < n; ++i) s += (char)r.range(32, 126); return s; }
static std::string bytes(Rng& r, int64_t n) { std::string s; for (int64_t i = 0; i < n; ++i) s += (char)(r.chance(20) ? 0 : r.below(256)); return s; }
static int anyRune(Rng& r) {
  static const int e[] = {0, 1, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 'a', 0xE9, 0x2603, 0x1F600};
  if (r.chance(60)) return r.pick(e);
  int c = (int)r.below(0x110000 - 0x800);
  return c >= 0xD800 ? c + 0x800 : c;
}
static std::string enc(int c) {
  std::string s;
  if (c < 0x80) s += (char)c;
  else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); }
  else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | ((c >> 12) & 63)); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); }
  return s;
}
static std::string utf8(Rng& r, int64_t n) { std::string s; while ((int64_t)s.size() < n) { std::string e = r.chance(50) ? std::string(1, (char)r.range(32, 126)) : enc(anyRune(r)); if ((int64_t)(s.size() + e.size()) <= n) s += e; else s += 'x'; } return s; }
static std::string content(Rng& r, ST t, int64_t n) { return t == ST::Ascii ? ascii(r, n) : t == ST::Utf8 ? utf8(r, n) : bytes(r, n); }
static ST anyType(Rng& r) { static const ST a[] = {ST::Ascii, ST::Utf8, ST::Byte, ST::Wtf8}; return r.pick(a); }
static bool texty(ST t) { return t == ST::Ascii || t == ST::Utf8; }
static size_t boundary(Rng& r, const Model& m) {
  size_t i = (size_t)r.below((int64_t)m.b.size() + 1);
  if (r.chance(15)) i = 0; else if (r.chance(15)) i = m.b.size();
  if (texty(m.t)) while (i < m.b.size() && ((unsigned char)m.b[i] & 0xC0) == 0x80) --i;
  return i;
}
static void check(const il::String& s, const Model& m, const char* op) {
  VF_CHECK(s.size() == (il::int_t)m.b.size(), (std::string("size@") + op).c_str(), "size %ld, expected %zu", (long)s.size(), m.b.size());
  VF_CHECK(s.size() == 0 || memcmp(s.data(), m.b.data(), m.b.size()) == 0, (std::string("bytes@") + op).c_str(), "contents differ (size %zu)", m.b.size());
  VF_CHECK(s.data()[s.size()] == '\0' && s.asCString() == s.data(), (std::string("terminator@") + op).c_str(), "no zero byte after the %ld bytes", (long)s.size());
  VF_CHECK(s.isEmpty() == m.b.empty(), (std::string("isEmpty@") + op).c_str(), "isEmpty()");
  VF_CHECK(s.type() == m.t, (std::string("type@") + op).c_str(), "type %d, expected %d", (int)s.type(), (int)m.t);
  VF_CHECK(s.isUtf8() == texty(m.t) && s.isAscii() == (m.t == ST::Ascii), (std::string("type-test@") + op).c_str(), "type predicates");
  VF_CHECK(s.capacity() >= s.size(), (std::string("capacity@") + op).c_str(), "capacity %ld below the size %ld", (long)s.capacity(), (long)s.size());
  bool inside = (const char*)&s <= s.data() && s.data() < (const char*)(&s + 1);
  VF_CHECK(s.isSmall() == inside, (std::string("mode@") + op).c_str(), "isSmall() disagrees with where the bytes are");
  vf::event(inside ? "inline-state" : "heap-state");
  if (!inside && s.size() <= 22) vf::event("heap-with-small-size");
  vf::nontrivial();
}
template <il::int_t m> struct Lit { char c[m + 1]; };
template <il::int_t m>
static void literal(Rng& r, il::String*& s, Model& M, int how) {
  typedef char Arr[m + 1];
  std::string x = utf8(r, m);
  Arr buf;
  memcpy(buf, x.data(), m);
  buf[m] = 0;
  const Arr& cb = buf;
  switch (how) {
    case 0: vf::op("construct-literal", "%d", (int)m); delete s; s = new il::String(cb); M.b = x; M.t = ST::Utf8; break;
    case 1: vf::op("construct-typed-literal", "%d", (int)m); delete s; s = new il::String(ST::Utf8, cb); M.b = x; M.t = ST::Utf8; break;
    case 2: vf::op("assign-literal", "%d", (int)m); *s = cb; M.b = x; M.t = ST::Utf8; break;
    case 3: vf::op("append-literal", "%d", (int)m); s->Append(cb); M.b += x; M.t = join(M.t, ST::Utf8); break;
    case 4: { ST t = anyType(r); vf::op("append-typed-literal", "%d", (int)m); s->Append(t, cb); M.b += x; M.t = join(M.t, t); 
      break; }
    default: { size_t i = boundary(r, M); vf::op("insert-literal", "%d at %zu of %zu", (int)m, i, M.b.size()); s->Insert((il::int_t)i, cb); M.b.insert(i, x); M.t = join(M.t, ST::Utf8); }
  }
}
static void stringCase(Rng& r) {
  il::String* s[3];
  Model m[3];
  for (int k = 0; k < 3; ++k) s[k] = new il::String;
  int n = (int)r.range(4, 30);
  for (int it = 0; it < n; ++it) {
    int k = (int)r.below(3), k2 = (int)r.below(3);
    il::String& a = *s[k];
    Model& M = m[k];
    const char* p0 = a.data();
    il::int_t cap0 = a.capacity();
    size_t n0 = M.b.size();
    if (M.b.size() > 400000) { a = il::String{}; M = Model(); continue; }
    const char* name = "op";
    bool append = false;
    switch (r.below(26)) {
      case 0: { ST t = anyType(r); int64_t z = edgeSize(r); std::string x = content(r, t, z); name = "construct-bytes"; vf::op(name, "[%d] %ld", k, (long)z);
        char* raw = new char[z ? z : 1]; memcpy(raw, x.data(), z); delete s[k]; s[k] = new il::String(t, raw, z); delete[] raw; M.b = x; M.t = t; break; }
      case 1: { char c = (char)r.below(128); name = "construct-char"; vf::op(name, "[%d]", k); delete s[k]; s[k] = new il::String(c); M.b = std::string(1, c); M.t = ST::Ascii; break; }
      case 2: { name = "copy-construct"; vf::op(name, "[%d] from [%d] size %zu", k, k2, m[k2].b.size()); il::String* q = new il::String(*s[k2]); delete s[k]; s[k] = q; m[k] = Model(m[k2]); if (k == k2) {} break; }
      case 3: { name = "move-construct"; vf::op(name, "[%d] from [%d] size %zu cap %ld", k, k2, m[k2].b.size(), (long)s[k2]->capacity());
        il::String* q = new il::String(std::move(*s[k2])); Model keep = m[k2];
        VF_CHECK(s[k2]->size() == 0 && s[k2]->data()[0] == 0, "moved-from-string", "a moved-from string has size %ld", (long)s[k2]->size());
        m[k2] = Model();
        delete s[k]; s[k] = q; m[k] = keep; vf::event("moved"); break; }
      case 4: case 5: name = "copy-assign"; vf::op(name, "[%d] size %zu = [%d] size %zu", k, n0, k2, m[k2].b.size()); a = *s[k2]; { Model t = m[k2]; m[k] = t; } if (k == k2) vf::event("self-assignment"); break;
      case 6: case 7: { name = "move-assign"; vf::op(name, "[%d] size %zu = [%d] size %zu", k, n0, k2, m[k2].b.size());
        a = std::move(*s[k2]);
        if (k != k2) { m[k] = m[k2]; il::String& f = *s[k2];
          // the source must be a valid string: read it, then overwrite it
          VF_CHECK(f.data()[f.size()] == '\0' && f.size() <= f.capacity(), "moved-from-string", "a moved-from string is not a valid string");
          if (r.chance(50)) { f.Append('z'); f.Clear(); } else f = il::String();
          m[k2] = Model();
          if (f.size() != 0) vf::fail("moved-from-string", "cannot be reset");
        }
        vf::event("moved"); break; }
      case 8: { int64_t z = r.chance(60) ? edgeSize(r) : (int64_t)n0 + r.range(-2, 12); if (z < 0) z = 0; name = "reserve"; vf::op(name, "[%d] size %zu cap %ld to %ld", k, n0, (long)cap0, (long)z);
        a.Reserve(z); VF_CHECK(a.capacity() >= z, "reserve-capacity", "capacity %ld after Reserve(%ld)", (long)a.capacity(), (long)z); vf::event("reserve"); break; }
      case 9: name = "clear"; vf::op(name, "[%d]", k); a.Clear(); M = Model(); break;
      case 10: case 11: { int64_t c = r.range(1, 30); name = "append-char"; for (int64_t i = 0; i < c; ++i) { char ch = (char)r.below(128); vf::op(name, "[%d] size %zu", k, M.b.size()); a.Append(ch); M.b += ch; } append = true; break; }
      case 12: { int c = anyRune(r); name = "append-rune"; vf::op(name, "[%d] size %zu U+%x", k, n0, c); a.Append(c); M.b += enc(c); if (c >= 0x80) M.t = join(M.t, ST::Utf8); append = true; break; }
      case 13: { int64_t z = edgeSize(r); char c = (char)r.below(128); name = "append-n-chars"; vf::op(name, "[%d] size %zu n %ld", k, n0, (long)z); a.Append((il::int_t)z, c); M.b.append(z, c); append = true; break; }
      case 14: { int64_t z = r.chance(70) ? r.range(0, 12) : edgeSize(r); int c = anyRune(r); name = "append-n-runes"; vf::op(name, "[%d] size %zu n %ld U+%x", k, n0, (long)z, c); a.Append((il::int_t)z, c); std::string e = enc(c); for (int64_t i = 0; i < z; ++i) M.b += e; if (c >= 0x80) M.t = join(M.t, ST::Utf8); append = true; break; }
      case 15: case 16: { ST t = anyType(r); int64_t z = edgeSize(r); std::string x = content(r, t, z); char* raw = new char[z ? z : 1]; memcpy(raw, x.data(), z); name = "append-bytes"; vf::op(name, "[%d] size %zu n %ld", k, n0, (long)z);
        a.Append(t, raw, z); delete[] raw; M.b += x; M.t = join(M.t, t); append = true; break; }
      case 17: { int c = (int)r.range(1, 3); std::string x[3]; ST t[3]; il::String* v[3]; for (int i = 0; i < 3; ++i) { t[i] = anyType(r); x[i] = content(r, t[i], r.chance(50) ? edgeSize(r) : r.range(0, 9)); v[i] = new il::String(t[i], x[i].data(), (il::int_t)x[i].size()); }
        name = "append-views"; vf::op(name, "[%d] size %zu n %d: %zu %zu %zu", k, n0, c, x[0].size(), x[1].size(), x[2].size());
        if (c == 1) a.Append(v[0]->view()); else if (c == 2) a.Append(v[0]->view(), v[1]->view()); else a.Append(v[0]->view(), v[1]->view(), v[2]->view());
        for (int i = 0; i < c; ++i) { M.b += x[i]; M.t = join(M.t, t[i]); }
        for (int i = 0; i < 3; ++i) delete v[i]; append = true; break; }
      case 18: { size_t i = boundary(r, M); char c = (char)r.below(128); name = "insert-char"; vf::op(name, "[%d] size %zu cap %ld at %zu", k, n0, (long)cap0, i); a.Insert((il::int_t)i, c); M.b.insert(i, 1, c); vf::event("insert"); append = true; break; }
      case 19: { size_t i = boundary(r, M); int64_t z = r.chance(50) ? r.range(0, 9) : edgeSize(r); char c = (char)r.below(128); name = "insert-n-chars"; vf::op(name, "[%d] size %zu cap %ld at %zu n %ld", k, n0, (long)cap0, i, (long)z); a.Insert((il::int_t)i, z, c); M.b.insert(i, z, c); vf::event("insert"); append = true; break; }
      case 20: case 21: { size_t i = boundary(r, M); ST t = anyType(r); std::string x = content(r, t, r.chance(50) ? r.range(0, 9) : edgeSize(r)); il::String v(t, x.data(), (il::int_t)x.size()); name = "insert-view"; vf::op(name, "[%d] size %zu cap %ld at %zu n %zu", k, n0, (long)cap0, i, x.size());
        if (r.chance(50)) a.Insert((il::int_t)i, v.view()); else a.Insert((il::int_t)i, t, v.data(), v.size()); M.b.insert(i, x); M.t = join(M.t, t); vf::event("insert"); append = true; break; }
      case 22: { size_t i = boundary(r, M), j = boundary(r, M); if (i > j) std::swap(i, j); name = "substring"; vf::op(name, "[%d] size %zu %zu..%zu", k, n0, i, j);
        il::String t = a.substring((il::int_t)i, (il::int_t)j); Model e; e.b = M.b.substr(i, j - i); e.t = M.t; check(t, e, name);
        il::StringView v = a.subview((il::int_t)i, (il::int_t)j);
        VF_CHECK(v.data() == a.data() + i && v.size() == (il::int_t)(j - i) && v.type() == M.t, "subview", "subview(%zu,%zu)", i, j);
        il::StringView w = a.view(); VF_CHECK(w.data() == a.data() && w.size() == a.size() && w.type() == M.t, "view", "view()"); vf::event("substring"); break; }
      case 23: case 24: { int how = (int)r.below(6);
        name = how == 0 || how == 1 ? "construct-literal" : how == 2 ? "assign-literal" : how == 5 ? "insert-literal" : "append-literal";
        // a typed literal must be text of that type
        switch (r.below(11)) { case 0: literal<0>(r, s[k], M, how); break; case 1: literal<1>(r, s[k], M, how); break; case 2: literal<5>(r, s[k], M, how); break; case 3: literal<21>(r, s[k], M, how); break;
          case 4: literal<22>(r, s[k], M, how); break; case 5: literal<23>(r, s[k], M, how); break; case 6: literal<24>(r, s[k], M, how); break; case 7: literal<25>(r, s[k], M, how); break;
          case 8: literal<31>(r, s[k], M, how); break; case 9: literal<32>(r, s[k], M, how); break; default: literal<64>(r, s[k], M, how); }
        append = how >= 3; vf::event("literal"); break; }
      default: { // write through Data()
        if (M.b.empty()) continue;
        size_t i = (size_t)r.below((int64_t)M.b.size()); name = "write"; vf::op(name, "[%d] %zu", k, i);
        if (((unsigned char)M.b[i]) >= 0x80) continue;
        char c = (char)r.range(32, 126); a.Data()[i] = c; M.b[i] = c; }
    }
    if (append && M.b.size() <= (size_t)cap0 && cap0 > 22) { VF_CHECK(s[k]->data() == p0 && s[k]->capacity() == cap0, (std::string("reserved-storage@") + name).c_str(), "the storage was replaced although %ld characters were reserved and %zu are needed", (long)cap0, M.b.size()); vf::event("append-within-reserve"); }
    if (append && n0 <= 22 && M.b.size() > 22) vf::event("inline-to-heap");
    for (int q = 0; q < 3; ++q) check(*s[q], m[q], name);
  }
  for (int k = 0; k < 3; ++k) delete s[k];
  vf::event("byte-string-histories");
}

// ---- 16-bit ------------------------------------------------------------------
static std::u16string enc16(int c) { std::u16string s; if (c < 0x10000) s += (char16_t)c; else { c -= 0x10000; s += (char16_t)(0xD800 + (c >> 10)); s += (char16_t)(0xDC00 + (c & 0x3FF)); } return s; }
static void check16(const il::UTF16String& s, const std::u16string& m, const char* op) {
  VF_CHECK(s.size() == (il::int_t)m.size(), (std::string("size16@") + op).c_str(), "size %ld, expected %zu", (long)s.size(), m.size());
  VF_CHECK(m.empty() || memcmp(s.data(), m.data(), 2 * m.size()) == 0, (std::string("units16@") + op).c_str(), "contents differ (size %zu)", m.size());
  VF_CHECK(s.data()[s.size()] == 0 && (const void*)s.asWString() == (const void*)s.data(), (std::string("terminator16@") + op).c_str(), "no terminating zero unit");
  VF_CHECK(s.isEmpty() == m.empty() && s.capacity() >= s.size(), (std::string("capacity16@") + op).c_str(), "isEmpty/capacity");
  bool inside = (const void*)&s <= (const void*)s.data() && (const void*)s.data() < (const void*)(&s + 1);
  VF_CHECK(s.isSmall() == inside, (std::string("mode16@") + op).c_str(), "isSmall() disagrees with where the units are");
  vf::event(inside ? "inline16-state" : "heap16-state");
  vf::nontrivial();
}
static int64_t edgeSize16(Rng& r) {
  static const int64_t e[] = {0, 1, 5, 9, 10, 11, 12, 13, 20, 22, 23, 24, 50};
  return r.below(300) == 0 ? r.mark(r.chance(15) ? 80000 : 8000) : r.pick(e);
}
static void utf16Case(Rng& r) {
  il::UTF16String* s[3];
  std::u16string m[3];
  for (int k = 0; k < 3; ++k) s[k] = new il::UTF16String;
  int n = (int)r.range(4, 30);
  for (int it = 0; it < n; ++it) {
    int k = (int)r.below(3), k2 = (int)r.below(3);
    il::UTF16String& a = *s[k];
    std::u16string& M = m[k];
    const char* name = "op";
    switch (r.below(13)) {
      case 0: { int64_t z = edgeSize16(r); std::u16string x; for (int64_t i = 0; i < z; ++i) x += (char16_t)r.range(1, 0xD7FF); name = "construct16"; vf::op(name, "[%d] %ld", k, (long)z); delete s[k]; s[k] = new il::UTF16String(x.c_str()); M = x; break; }
      case 1: { name = "copy-construct16"; vf::op(name, "[%d] from [%d] size %zu", k, k2, m[k2].size()); il::UTF16String* q = new il::UTF16String(*s[k2]); std::u16string t = m[k2]; delete s[k]; s[k] = q; m[k] = t; break; }
      case 2: { name = "move-construct16"; vf::op(name, "[%d] from [%d] size %zu cap %ld", k, k2, m[k2].size(), (long)s[k2]->capacity()); il::UTF16String* q = new il::UTF16String(std::move(*s[k2])); std::u16string t = m[k2];
        if (k != k2) { VF_CHECK(s[k2]->data()[s[k2]->size()] == 0, "moved-from-string16", "not a valid string"); *s[k2] = il::UTF16String(); m[k2].clear(); }
        delete s[k]; s[k] = q; m[k] = t; break; }
      case 3: case 4: { name = "copy-assign16"; vf::op(name, "[%d] size %zu = [%d] size %zu", k, M.size(), k2, m[k2].size()); a = *s[k2]; std::u16string t = m[k2]; m[k] = t; if (k == k2) vf::event("self-assignment16"); break; }
      case 5: { name = "move-assign16"; vf::op(name, "[%d] size %zu = [%d] size %zu", k, M.size(), k2, m[k2].size()); a = std::move(*s[k2]); if (k != k2) { m[k] = m[k2]; VF_CHECK(s[k2]->data()[s[k2]->size()] == 0, "moved-from-string16", "not a valid string"); *s[k2] = il::UTF16String(); m[k2].clear(); } break; }
      case 6: { int64_t z = edgeSize16(r); name = "reserve16"; vf::op(name, "[%d] size %zu to %ld", k, M.size(), (long)z); a.Reserve(z); VF_CHECK(a.capacity() >= z, "reserve-capacity16", "capacity %ld after Reserve(%ld)", (long)a.capacity(), (long)z); break; }
      case 7: { int64_t c = r.range(1, 14); name = "append-char16"; for (int64_t i = 0; i < c; ++i) { char ch = (char)r.below(128); vf::op(name, "[%d] size %zu", k, M.size()); a.Append(ch); M += (char16_t)ch; } break; }
      case 8: { int c = anyRune(r); name = "append-rune16"; vf::op(name, "[%d] size %zu U+%x", k, M.size(), c); a.Append(c); M += enc16(c); break; }
      case 9: { int64_t z = edgeSize16(r); char c = (char)r.below(128); name = "append-n-chars16"; vf::op(name, "[%d] size %zu n %ld", k, M.size(), (long)z); a.Append((il::int_t)z, c); M.append(z, (char16_t)c); break; }
      case 10: { int64_t z = edgeSize16(r); int c = anyRune(r); name = "append-n-runes16"; vf::op(name, "[%d] size %zu n %ld U+%x", k, M.size(), (long)z, c); a.Append((il::int_t)z, c); for (int64_t i = 0; i < z; ++i) M += enc16(c); break; }
      case 11: { if (k == k2) continue; name = "append-string16"; vf::op(name, "[%d] size %zu += [%d] size %zu", k, M.size(), k2, m[k2].size()); a.Append(*s[k2]); M += m[k2]; break; }
      default: { int64_t z = edgeSize16(r); std::u16string x; for (int64_t i = 0; i < z; ++i) x += (char16_t)r.range(1, 0xD7FF); name = "append-cstring16"; vf::op(name, "[%d] size %zu n %ld", k, M.size(), (long)z); a.Append(x.c_str()); M += x; }
    }
    if (M.size() > 300000) { *s[k] = il::UTF16String(); M.clear(); }
    for (int q = 0; q < 3; ++q) {
      check16(*s[q], m[q], name);
      VF_CHECK((*s[q] == *s[(q + 1) % 3]) == (m[q] == m[(q + 1) % 3]), "equality16", "operator== is wrong");
    }
  }
  for (int k = 0; k < 3; ++k) delete s[k];
  vf::event("utf16-histories");
}
void vf_case(Rng& r, uint64_t) {
  if (r.chance(70)) stringCase(r); else utf16Case(r);
  if (vf::wantSample()) vf::sample(vf::fmt("history ending with %s", vf::st().last_op));
}
