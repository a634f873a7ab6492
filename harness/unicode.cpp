// S02: UTF-8 / UTF-16 encoding of every code point, decoding, iteration, validity test and
// conversions, against an independent reference.
#include "vfil.h"
#include <il/String.h>
#include <il/container/string/UTF16String.h>
#include <il/container/string/unicode.h>
using vf::Rng;

static std::string enc(int c) {
  std::string s;
  if (c < 0x80) s += (char)c;
  else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); }
  else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | ((c >> 12) & 63)); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); }
  return s;
}
static std::u16string enc16(int c) { std::u16string s; if (c < 0x10000) s += (char16_t)c; else { c -= 0x10000; s += (char16_t)(0xD800 + (c >> 10)); s += (char16_t)(0xDC00 + (c & 0x3FF)); } return s; }
static bool scalar(int64_t c) { return c >= 0 && c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF); }
// reference validity: decode, then demand that re-encoding gives the same bytes
static bool valid(const std::string& s) {
  size_t i = 0;
  while (i < s.size()) {
    unsigned char b = (unsigned char)s[i];
    int n = b < 0x80 ? 1 : (b >> 5) == 6 ? 2 : (b >> 4) == 14 ? 3 : (b >> 3) == 30 ? 4 : 0;
    if (n == 0 || i + n > s.size()) return false;
    int64_t c = n == 1 ? b : n == 2 ? b & 31 : n == 3 ? b & 15 : b & 7;
    for (int k = 1; k < n; ++k) { unsigned char d = (unsigned char)s[i + k]; if ((d & 0xC0) != 0x80) return false; c = c << 6 | (d & 63); }
    if (!scalar(c) || enc((int)c) != s.substr(i, n)) return false;
    i += n;
  }
  return true;
}
static bool il_valid(const std::string& s) {
  char* p = new char[s.size() + 1];  // exact size: over-reads are caught
  memcpy(p, s.c_str(), s.size() + 1);
  bool a = il::isUtf8(p);
  delete[] p;
  return a;
}
static bool il_valid_n(const std::string& s) {
  char* p = new char[s.size()];  // no terminating zero
  memcpy(p, s.data(), s.size());
  bool a = il::isUtf8(p, (il::int_t)s.size());
  delete[] p;
  return a;
}
static void validity(const std::string& s, const char* how) {
  bool e = valid(s), g = il_valid(s);
  if (s.size() < 64) {
    // the same text with zeros in it, given by its length
    std::string t = s;
    if (s.size() % 3 == 1) t.insert(s.size() / 2, 1, '\0');
    bool en = valid(t), gn = il_valid_n(t);
    if (en != gn) {
      std::string h; for (unsigned char c : t) h += vf::fmt("%02x ", c);
      vf::fail(en ? "well-formed-rejected" : "ill-formed-accepted", "isUtf8 of %d bytes says %d for %s(%s)", (int)t.size(), gn, h.c_str(), how);
    }
    vf::event("by-length");
  }
  if (e != g) {
    std::string h; for (unsigned char c : s) h += vf::fmt("%02x ", c);
    vf::fail(e ? "well-formed-rejected" : "ill-formed-accepted", "isUtf8 says %d for %s(%s)", g, h.c_str(), how);
  }
  vf::event(e ? "well-formed" : "ill-formed");
}
static int anyRune(Rng& r) {
  static const int e[] = {0, 1, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 'a', 0xE9, 0x2603, 0x1F600};
  if (r.chance(50)) return r.pick(e);
  int c = r.chance(50) ? (int)r.below(0x110000 - 0x800) : (int)r.below(0x900);
  return c >= 0xD800 ? c + 0x800 : c;
}
static void codePoint(int c) {
  VF_CHECK(il::isRune(c) == scalar(c), scalar(c) ? "scalar-rejected" : "non-scalar-accepted", "isRune(U+%x) is %d", c, il::isRune(c));
#ifdef IL_UNIT_TEST
  if (!scalar(c)) {
    il::String s; il::UTF16String w;
    bool t0 = false, t1 = false;
    try { s.Append(c); } catch (const il::AbortException&) { t0 = true; }
    try { w.Append(c); } catch (const il::AbortException&) { t1 = true; }
    VF_CHECK(t0 && t1, "non-scalar-appended", "appending U+%x was accepted (8-bit %d, 16-bit %d)", c, !t0, !t1);
  }
#endif
  if (!scalar(c)) { vf::event("non-scalar"); return; }
  il::String s;
  s.Append(c);
  std::string e = enc(c);
  VF_CHECK(s.size() == (il::int_t)e.size() && memcmp(s.data(), e.data(), e.size()) == 0, "utf8-encoding", "U+%x is not encoded as UTF-8", c);
  il::StringView v = s;
  VF_CHECK(v.rune(0) == c, "utf8-decoding", "U+%x decodes as U+%x", c, v.rune(0));
  VF_CHECK(v.nextRune(0) == s.size(), "utf8-next", "the rune after U+%x is at %ld", c, (long)v.nextRune(0));
  for (size_t i = 0; i <= e.size(); ++i) VF_CHECK(s.isRuneBoundary((il::int_t)i) == (i == 0 || i == e.size()), "rune-boundary", "isRuneBoundary(%zu) of U+%x", i, c);
  il::UTF16String w;
  w.Append(c);
  std::u16string e16 = enc16(c);
  VF_CHECK(w.size() == (il::int_t)e16.size() && memcmp(w.data(), e16.data(), 2 * e16.size()) == 0, "utf16-encoding", "U+%x is not encoded as UTF-16", c);
  VF_CHECK(w.rune(0) == c && w.nextRune(0) == w.size(), "utf16-decoding", "U+%x decodes as U+%x", c, w.rune(0));
  VF_CHECK(il::toUtf16(s) == w, "utf8-to-utf16", "U+%x", c);
  VF_CHECK(il::toUtf8(w) == s, "utf16-to-utf8", "U+%x", c);
  if (c) VF_CHECK(il_valid(e), "well-formed-rejected", "isUtf8 rejects U+%x", c);
  VF_CHECK((c < 0x80) == il::isAscii(s.data(), s.size()) && (c < 0x80) == s.isAscii(), "ascii", "isAscii for U+%x", c);
  vf::event("scalar");
}
// runs once over everything in the exhaustive part
static const int kBlock = 1024, kBlocks = (0x110000 + kBlock - 1) / kBlock;  // 1088
void vf_case(Rng& r, uint64_t idx) {
  if (idx < (uint64_t)kBlocks) {
    vf::op("code-point-block", "%d", (int)idx);
    for (int c = (int)idx * kBlock; c < (int)(idx + 1) * kBlock; ++c) codePoint(c);
    vf::event("exhaustive-block");
    vf::nontrivial();
    return;
  }
  idx -= kBlocks;
  if (idx < 256) {  // every first and second byte, boundary third and fourth bytes
    static const int t[] = {-1, 0x01, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xE0, 0xED, 0xF0, 0xF4, 0xF5, 0xFF};
    vf::op("byte-pairs", "%d", (int)idx);
    if (idx) for (int b = 1; b < 256; ++b)
      for (int x : t) for (int y : t) {
        if (x < 0 && y >= 0) continue;
        std::string s; s += (char)idx; s += (char)b; if (x >= 0) s += (char)x; if (y >= 0) s += (char)y;
        validity(s, "pair sweep");
      }
    vf::nontrivial();
    return;
  }
  // random values outside the code space
  vf::op("out-of-range", "");
  for (int k = 0; k < 8; ++k) { int c = r.chance(50) ? -(int)r.range(1, 0x7fffffff) : (int)r.range(0x110000, 0x7fffffff); codePoint(c); }
  // random text
  int n = (int)r.size(60);
  std::vector<int> c;
  std::string e; std::u16string e16;
  il::String s; il::UTF16String w;
  for (int i = 0; i < n; ++i) {
    int x = anyRune(r), rep = r.chance(20) ? (int)r.range(0, 9) : 1;
    vf::op("append", "U+%x * %d", x, rep);
    if (rep == 1) { s.Append(x); w.Append(x); } else { s.Append((il::int_t)rep, x); w.Append((il::int_t)rep, x); }
    for (int k = 0; k < rep; ++k) { c.push_back(x); e += enc(x); e16 += enc16(x); }
  }
  vf::op("text", "%d runes %zu bytes", (int)c.size(), e.size());
  VF_CHECK(s.size() == (il::int_t)e.size() && memcmp(s.data(), e.data(), e.size()) == 0, "utf8-text", "appended runes give other bytes");
  VF_CHECK(w.size() == (il::int_t)e16.size() && memcmp(w.data(), e16.data(), 2 * e16.size()) == 0, "utf16-text", "appended runes give other units");
  vf::op("iterate", "");
  il::StringView v = s;
  size_t k = 0;
  for (il::int_t i = 0; i < v.size(); i = v.nextRune(i)) { VF_CHECK(k < c.size() && v.rune(i) == c[k], "utf8-iteration", "rune %zu of the text", k); ++k; }
  VF_CHECK(k == c.size(), "utf8-iteration", "%zu runes visited, %zu appended", k, c.size());
  k = 0;
  for (il::int_t i = 0; i < w.size(); i = w.nextRune(i)) { VF_CHECK(k < c.size() && w.rune(i) == c[k], "utf16-iteration", "rune %zu of the text", k); ++k; }
  VF_CHECK(k == c.size(), "utf16-iteration", "%zu runes visited, %zu appended", k, c.size());
  vf::op("convert", "");
  il::UTF16String w2 = il::toUtf16(s);
  VF_CHECK(w2 == w, "utf8-to-utf16", "conversion of a text of %zu runes", c.size());
  il::String s2 = il::toUtf8(w);
  VF_CHECK(s2 == s, "utf16-to-utf8", "conversion of a text of %zu runes", c.size());
  VF_CHECK(il::toUtf8(w2) == s && il::toUtf16(s2) == w, "conversion-round-trip", "text of %zu runes", c.size());
  vf::event("text-round-trip");
  // validity of the text and of damaged texts (no zero byte inside a C string)
  std::string z; for (char ch : e) if (ch) z += ch;
  vf::op("validity", "");
  validity(z, "text");
  for (int q = 0; q < 6 && !z.empty(); ++q) {
    std::string d = z; size_t p = (size_t)r.below((int64_t)d.size());
    switch (r.below(5)) {
      case 0: d.erase(p, 1); break;
      case 1: d.insert(p, 1, (char)r.range(1, 255)); break;
      case 2: d[p] = (char)r.range(1, 255); break;
      case 3: d.resize(p); break;
      default: { static const char* bad[] = {"\xC0\x80", "\xC1\xBF", "\xE0\x80\x80", "\xE0\x9F\xBF", "\xED\xA0\x80", "\xED\xBF\xBF", "\xF0\x8F\xBF\xBF", "\xF4\x90\x80\x80", "\xF8\x88\x80\x80\x80", "\x80", "\xBF", "\xFE", "\xFF", "\xC3", "\xE2\x82", "\xF0\x9F\x98"};
        d.insert(p, r.pick(bad)); }
    }
    validity(d, "damaged text");
  }
  vf::nontrivial();
  if (vf::wantSample()) vf::sample(vf::fmt("text of %zu runes, %zu bytes", c.size(), e.size()));
}
