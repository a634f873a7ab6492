// F01: formatted text is the one the format denotes; invalid formats are reported.
#include "vfil.h"
#include <il/print.h>
#include <cinttypes>
#include <functional>
#include <iostream>
#include <sstream>
#include <fcntl.h>
#include <unistd.h>
#include <clocale>
using vf::Rng;
typedef il::int_t I;

// The thousands separator of the locale, which 'n' shows: no installed locale is needed.
static const char* g_sep = "";
extern "C" struct lconv* localeconv() noexcept {
  static struct lconv c;
  static char point[] = ".", none[] = "";
  c.decimal_point = point; c.thousands_sep = const_cast<char*>(g_sep); c.grouping = none;
  c.int_curr_symbol = c.currency_symbol = c.mon_decimal_point = c.mon_thousands_sep = c.mon_grouping = c.positive_sign = c.negative_sign = none;
  return &c;
}

// The system's messages: real ones are short; those of the codes from 5000 have code - 5000 characters.
extern "C" char* strerror_r(int code, char* buffer, size_t n) noexcept {
  std::string m = code >= 5000 && code <= 8000 ? std::string((size_t)(code - 5000), 'm') : "message " + std::to_string(code);
  if (n == 0) return buffer;
  size_t k = m.size() < n - 1 ? m.size() : n - 1;
  memcpy(buffer, m.data(), k); buffer[k] = 0;
  return buffer;
}
static std::string message(int code) { return code >= 5000 && code <= 8000 ? std::string((size_t)(code - 5000), 'm') : "message " + std::to_string(code); }

struct Spec { bool has_fill = false; char fill = ' '; char align = 0; char sign = 0; bool hash = false, zero = false; int width = -1, prec = -1; char type = 0; int wform = 0, pform = 0; };
// an enumeration is written as its number
enum Shade { kDark = -7, kNone = 0, kBright = 1000000 };
struct Bad {};  // the format must be reported

static std::string padded(const std::string& pre, const std::string& body, const Spec& s, bool number) {
  char fill = s.zero ? '0' : s.has_fill ? s.fill : ' ';
  char align = s.zero ? '=' : s.align ? s.align : number ? '>' : '<';
  size_t n = pre.size() + body.size(), w = s.width > 0 ? (size_t)s.width : 0;
  if (w <= n) return pre + body;
  size_t k = w - n;
  switch (align) {
    case '<': return pre + body + std::string(k, fill);
    case '>': return std::string(k, fill) + pre + body;
    case '=': return pre + std::string(k, fill) + body;
    default: return std::string(k / 2, fill) + pre + body + std::string(k - k / 2, fill);
  }
}
static std::string base(unsigned long long v, unsigned b, bool up) {
  const char* digits = up ? "0123456789ABCDEF" : "0123456789abcdef";
  std::string t;
  for (; ; v /= b) { size_t k = (size_t)(v % b); t.insert(t.begin(), digits[k]); if (v < b) return t; }
}
static std::string refInt(__int128 v, const Spec& s) {
  if (s.prec >= 0) throw Bad();
  std::string pre; unsigned long long a = (unsigned long long)v;
  if (v < 0) { pre = "-"; a = (unsigned long long)(-v); } else if (s.sign == '+') pre = "+"; else if (s.sign == ' ') pre = " ";
  std::string body;
  switch (s.type) {
    case 0: case 'd': body = base(a, 10, false); break;
    case 'n': body = base(a, 10, false); for (size_t k = body.size(); k > 3; k -= 3) body.insert(k - 3, g_sep); break;
    case 'x': body = base(a, 16, false); if (s.hash) pre += "0x"; break;
    case 'X': body = base(a, 16, true); if (s.hash) pre += "0X"; break;
    case 'b': body = base(a, 2, false); if (s.hash) pre += "0b"; break;
    case 'B': body = base(a, 2, false); if (s.hash) pre += "0B"; break;
    case 'o': body = base(a, 8, false); if (s.hash) pre += "0"; break;
    default: throw Bad();
  }
  return padded(pre, body, s, true);
}
template <typename T> static std::string refFloat(T v, const Spec& s, const char* len) {
  if (s.type && !strchr("eEfFgGaA", s.type)) throw Bad();
  std::string pre = std::signbit(v) ? "-" : s.sign == '+' ? "+" : s.sign == ' ' ? " " : "";
  T a = std::signbit(v) ? -v : v;
  if (std::isnan(v) || std::isinf(v)) { bool up = s.type && strchr("EFGA", s.type); return padded(pre, std::isnan(v) ? (up ? "NAN" : "nan") : (up ? "INF" : "inf"), s, false); }
  std::string f = "%"; if (s.hash) f += '#'; if (s.prec >= 0) f += ".*"; f += len; f += s.type ? s.type : 'g';
  int n = s.prec >= 0 ? snprintf(nullptr, 0, f.c_str(), s.prec, a) : snprintf(nullptr, 0, f.c_str(), a);
  std::vector<char> b((size_t)n + 1); if (s.prec >= 0) snprintf(b.data(), b.size(), f.c_str(), s.prec, a); else snprintf(b.data(), b.size(), f.c_str(), a);
  return padded(pre, std::string(b.data(), (size_t)n), s, true);
}
static std::string refStr(std::string t, const Spec& s) {
  if (s.sign || s.hash || s.zero || s.align == '=') throw Bad();
  if (s.type && s.type != 's') throw Bad();
  if (s.prec >= 0 && (size_t)s.prec < t.size()) t.resize((size_t)s.prec);
  return padded("", t, s, false);
}
static std::string refPtr(const void* p, const Spec& s) {
  if (s.sign || s.hash || s.zero || s.align == '=' || s.prec >= 0 || (s.type && s.type != 'p')) throw Bad();
  Spec t = s; t.type = 'x'; t.hash = true; return refInt((__int128)(uintptr_t)p, t);
}
template <typename T> static void noSign(const Spec& s) { if (std::is_unsigned<T>::value && s.sign) throw Bad(); }
template <typename T> struct Ref { static std::string f(T v, const Spec& s) { noSign<T>(s); return refInt((__int128)v, s); } };
template <> struct Ref<float> { static std::string f(float v, const Spec& s) { return refFloat((double)v, s, ""); } };
template <> struct Ref<double> { static std::string f(double v, const Spec& s) { return refFloat(v, s, ""); } };
template <> struct Ref<long double> { static std::string f(long double v, const Spec& s) { return refFloat(v, s, "L"); } };
template <> struct Ref<char> { static std::string f(char v, const Spec& s) { if (s.prec >= 0) throw Bad(); if (s.type && s.type != 'c') return refInt(v, s); if (s.sign || s.hash || s.zero || s.align == '=') throw Bad(); return padded("", std::string(1, v), s, false); } };
template <> struct Ref<bool> { static std::string f(bool v, const Spec& s) { if (s.prec >= 0) throw Bad(); if (s.type) return refInt(v, s); return padded("", v ? "true" : "false", s, false); } };
template <> struct Ref<std::string> { static std::string f(const std::string& v, const Spec& s) { return refStr(v, s); } };
template <> struct Ref<il::String> { static std::string f(const il::String& v, const Spec& s) { return refStr(std::string(v.data(), (size_t)v.size()), s); } };
template <> struct Ref<fmt::StringRef> { static std::string f(const fmt::StringRef& v, const Spec& s) { return refStr(std::string(v.data(), v.size()), s); } };
template <> struct Ref<const char*> { static std::string f(const char* v, const Spec& s) { if (s.type == 'p') { if (s.sign || s.hash || s.zero || s.align == '=') throw Bad(); Spec t = s; t.type = 0; t.prec = -1; return refPtr(v, t); } return refStr(v, s); } };
template <> struct Ref<const void*> { static std::string f(const void* v, const Spec& s) { return refPtr(v, s); } };
// a user's type, printed through its stream operator
struct Mine { int x; };
static std::ostream& operator<<(std::ostream& o, const Mine& m) { for (int k = 0; k < m.x; ++k) o << (char)('a' + k % 26); return o; }
template <> struct Ref<Mine> { static std::string f(const Mine& v, const Spec& s) { std::string t; for (int k = 0; k < v.x; ++k) t += (char)('a' + k % 26); return refStr(t, s); } };

static Spec spec(Rng& r, const char* types, bool odd) {
  Spec s;
  if (r.chance(60)) { s.align = "<>=^"[r.below(4)]; if (!odd && s.align == '=') s.align = '>'; if (r.chance(60)) { s.has_fill = true; s.fill = "*_ 0x<>=^+#.:-9\x7f"[r.below(16)]; } }
  if (r.chance(25)) s.sign = "+- "[r.below(3)];
  if (r.chance(20)) s.hash = true;
  if (r.chance(20)) s.zero = true;
  if (r.chance(60)) { s.width = r.chance(80) ? (int)r.range(1, 30) : (int)r.range(31, 1200); s.wform = (int)r.below(4); }
  if (r.chance(35)) { s.prec = r.chance(85) ? (int)r.range(0, 20) : (int)r.range(21, 600); s.pform = (int)r.below(4); }
  if (r.chance(70)) s.type = r.chance(97) ? types[r.below((int64_t)strlen(types))] : "kyzq!%"[r.below(6)];
  return s;
}
// the text of a field; the width and the precision may be arguments 1 and 2
static std::string render(const Spec& s, int arg, bool manual) {
  std::string t = "{"; if (manual) t += std::to_string(arg);
  std::string b;
  if (s.align) { if (s.has_fill) b += s.fill; b += s.align; }
  if (s.sign) b += s.sign;
  if (s.hash) b += '#';
  if (s.zero) b += '0';
  if (s.width >= 0) { if (manual && s.wform == 1) b += "{1}"; else if (s.wform == 2 && manual) b += "{wide}"; else if (!manual && s.wform == 1) b += "{}"; else b += std::to_string(s.width); }
  if (s.prec >= 0) { b += '.'; if (manual && s.pform == 1) b += "{2}"; else if (!manual && s.pform == 1 && s.width >= 0 && s.wform == 1) b += "{}"; else b += std::to_string(s.prec); }
  if (s.type) b += s.type;
  if (!b.empty()) t += ":" + b;
  return t + "}";
}
static std::string literal(Rng& r) { std::string t; for (I k = 0, n = r.chance(5) ? r.range(400, 1500) : r.range(0, 6); k < n; ++k) t += "ab {}\n%\xc3\xa9"[r.below(9)]; return t; }
static std::string escaped(const std::string& t) { std::string u; for (char c : t) { u += c; if (c == '{' || c == '}') u += c; } return u; }

static std::string printed(const std::function<void()>& f, int to = 1) {
  fflush(to == 1 ? stdout : stderr);
  int keep = dup(to), fd = open("out.txt", O_RDWR | O_CREAT | O_TRUNC, 0600);
  if (keep < 0 || fd < 0) abort();
  dup2(fd, to); bool thrown = false;
  try { f(); } catch (...) { thrown = true; }
  fflush(to == 1 ? stdout : stderr); dup2(keep, to); close(keep);
  off_t n = lseek(fd, 0, SEEK_END); std::string t((size_t)n, 0); if (n && pread(fd, &t[0], (size_t)n, 0) != n) abort();
  close(fd);
  if (thrown) throw Bad();
  return t;
}
// every way of formatting gives the expected text (or reports the format)
template <typename... A> static void agree(Rng& r, const std::string& f, bool bad, const std::string& want, const A&... a) {
  std::string got; bool threw = false; const char* how = "";
  int k = (int)r.below(8);
  vf::op("format", "way %d: %s", k, f.substr(0, 120).c_str());
  try {
    switch (k) {
      case 0: how = "fmt::format"; got = fmt::format(f, a...); break;
      case 1: { how = "il::format"; il::String s = il::format(f, a...); got.assign(s.data(), (size_t)s.size()); break; }
      case 2: { how = "MemoryWriter"; fmt::MemoryWriter w; std::string before; if (r.chance(50)) { before.assign((size_t)(r.chance(50) ? r.range(0, 30) : r.range(470, 510)), '.'); w << before; } w.write(f, a...); got.assign(w.data(), w.size()); VF_CHECK(strlen(w.c_str()) <= w.size() && w.c_str()[w.size()] == 0 && w.str() == got, "writer", "the writer's views differ"); VF_CHECK(got.compare(0, before.size(), before) == 0, "text-before", "the text written before has changed"); got.erase(0, before.size()); break; }
      case 3: { how = "il::print"; vf::Quiet q; got = printed([&] { il::print(f, a...); }); break; }
      case 4: { how = "fmt::print(FILE*)"; vf::Quiet q; got = printed([&] { fmt::print(stdout, f, a...); }); break; }
      case 5: { how = "fmt::print(ostream)"; std::ostringstream o; { vf::Quiet q; fmt::print(o, f, a...); got = o.str(); } break; }
      case 6: { how = "fmt::print_colored"; int c = (int)r.below(8); std::string e = "\x1b[3" + std::to_string(c) + "m"; vf::Quiet q; got = printed([&] { fmt::print_colored((fmt::Color)c, f, a...); });
        VF_CHECK(got.size() >= 9 && got.compare(0, 5, e) == 0 && got.compare(got.size() - 4, 4, "\x1b[0m") == 0, "colour", "colour %d: '%s'", c, got.substr(0, 60).c_str()); got = got.substr(5, got.size() - 9); break; }
      default: { how = "ArrayWriter"; std::vector<char> b(bad ? 4096 : want.size() + 2 + (size_t)r.range(0, 3)); fmt::ArrayWriter w(b.data(), b.size()); w.write(f, a...); got.assign(w.data(), w.size()); break; }
    }
  } catch (const fmt::FormatError&) { threw = true; } catch (const Bad&) { threw = true; }
  if (bad) VF_CHECK(threw, "not-reported", "%s: the invalid format '%s' gave '%s'", how, f.substr(0, 200).c_str(), got.substr(0, 100).c_str());
  else {
    VF_CHECK(!threw, "refused", "%s: the valid format '%s' is reported as invalid", how, f.substr(0, 200).c_str());
    size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
    VF_CHECK(got == want, "text", "%s: '%s' gave %zu characters for %zu, different from position %zu: '%s' for '%s'", how, f.substr(0, 200).c_str(), got.size(), want.size(), i, got.substr(i > 20 ? i - 20 : 0, 60).c_str(), want.substr(i > 20 ? i - 20 : 0, 60).c_str());
  }
  vf::event(bad ? "reported" : how);
}
template <typename T> static void one(Rng& r, const char* name, const T& v, const char* types, bool number, bool odd_value = false) {
  for (I turn = 0; turn < 4; ++turn) {
    Spec s = spec(r, types, number);
    if (!number && r.chance(85)) { s.sign = 0; s.hash = s.zero = false; }
    if (odd_value) { if (s.align == '=' || !s.align) s.align = '>'; s.zero = false; }  // signs of what is not a number: explicit alignments
    bool ints = std::is_integral<T>::value;
    if (std::is_same<T, bool>::value && !s.type) { if (s.align == '=') s.align = '<'; s.zero = s.hash = false; s.sign = 0; }
    if (ints && s.prec >= 0 && r.chance(90)) s.prec = -1;
    if (std::is_same<T, const char*>::value && s.type == 'p') s.prec = -1;
    bool manual = r.chance(50), bad = false;
    if (s.width == 0) s.width = -1;
    std::string a, b, c, mid;
    { vf::Quiet q; a = literal(r); b = literal(r); }
    std::string want, f;
    {
      vf::Quiet q;
      try { mid = Ref<T>::f(v, s); } catch (const Bad&) { bad = true; }
      want = a + mid + b; f = escaped(a) + render(s, 0, manual) + escaped(b);
      if (manual && r.chance(30)) { f += "{0}{1:>5}"; Spec none, five; five.align = '>'; five.width = 5; std::string w; try { w = Ref<T>::f(v, none); } catch (const Bad&) { bad = true; } want += w + refInt(s.width < 0 ? 0 : s.width, five); }
    }
    int width = s.width < 0 ? 0 : s.width, prec = s.prec < 0 ? 0 : s.prec;
    if (r.chance(50)) agree(r, f, bad, want, v, width, prec, fmt::arg("wide", width));
    else agree(r, f, bad, want, v, (unsigned long)width, (long long)prec, fmt::arg("wide", (unsigned)width));
    vf::event(name); vf::sig((uint64_t)(s.align * 7 + s.type * 3 + s.sign)); vf::sig((uint64_t)(s.width * 1000 + s.prec));
  }
}
template <typename T> static T anyInt(Rng& r) {
  switch (r.below(6)) {
    case 0: return std::numeric_limits<T>::min();
    case 1: return std::numeric_limits<T>::max();
    case 2: return (T)r.range(-20, 20);
    case 3: { T v = 1; for (I k = 0, n = r.range(0, 18); k < n; ++k) v = (T)((unsigned long long)v * 10); return (T)(v - (T)r.range(0, 1)); }
    default: return (T)(r.next() >> r.below(64));
  }
}
static double anyDouble(Rng& r) {
  switch (r.below(8)) {
    case 0: return r.chance(50) ? 0.0 : -0.0;
    case 1: return std::numeric_limits<double>::max() * (r.chance(50) ? 1 : -1);
    case 2: return std::numeric_limits<double>::denorm_min();
    case 3: { uint64_t b = r.next(); double d; memcpy(&d, &b, 8); return std::isfinite(d) ? d : 1.5; }
    case 4: return (double)r.range(-1000, 1000);
    case 5: return (double)r.range(-1000, 1000) / 16;
    default: return r.sym() * std::pow(10.0, (double)r.range(-20, 20));
  }
}
static const char* const kIntTypes = "dxXbBon";
static void single(Rng& r) {
  switch (r.below(17)) {
    case 0: one<int>(r, "int", anyInt<int>(r), kIntTypes, true); break;
    case 1: if (r.chance(30)) { one<Shade>(r, "enumeration", r.chance(50) ? kDark : kBright, kIntTypes, true); break; }
      if (r.chance(30)) { one<unsigned short>(r, "unsigned short", anyInt<unsigned short>(r), kIntTypes, true); break; }
      if (r.chance(30)) { one<signed char>(r, "signed char", anyInt<signed char>(r), kIntTypes, true); break; }
      if (r.chance(30)) { one<long long>(r, "long long", anyInt<long long>(r), kIntTypes, true); break; }
      one<unsigned>(r, "unsigned", anyInt<unsigned>(r), kIntTypes, true); break;
    case 2: one<long>(r, "long", anyInt<long>(r), kIntTypes, true); break;
    case 3: one<unsigned long long>(r, "unsigned long long", anyInt<unsigned long long>(r), kIntTypes, true); break;
    case 4: one<short>(r, "short", anyInt<short>(r), kIntTypes, true); break;
    case 5: one<unsigned char>(r, "unsigned char", anyInt<unsigned char>(r), kIntTypes, true); break;
    case 6: one<char>(r, "char", (char)r.range(32, 126), "cdxXbBo", false); break;
    case 7: one<bool>(r, "bool", r.chance(50), kIntTypes, true); break;
    case 8: case 9: one<double>(r, "double", anyDouble(r), "eEfFgGaA", true); break;
    case 10: { bool nan = r.chance(50); double d = nan ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity(); one<double>(r, "not-a-number", r.chance(50) ? d : -d, "eEfFgG", true, true); break; }
    case 11: one<float>(r, "float", (float)r.sym(), "eEfFgGaA", true); break;
    case 12: one<long double>(r, "long double", (long double)r.sym() * 1e300L * (r.chance(50) ? 1e3000L : 1), "eEfFgG", true); break;
    case 13: { std::string t; { vf::Quiet q; for (I k = 0, n = r.size(700); k < n; ++k) t += (char)(r.chance(2) ? 0 : r.range(1, 255)); } one<std::string>(r, "std::string", t, "s", false); break; }
    case 14: { std::string t; { vf::Quiet q; for (I k = 0, n = r.size(60); k < n; ++k) t += (char)r.range(1, 255); } if (r.chance(50)) one<const char*>(r, "const char*", t.c_str(), "sp", false); else one<fmt::StringRef>(r, "fmt::StringRef", fmt::StringRef(t), "s", false); break; }
    case 15: { il::String t{}; for (I k = 0, n = r.size(200); k < n; ++k) t.Append((char)r.range(1, 127)); one<il::String>(r, "il::String", t, "s", false); if (r.chance(40)) one<Mine>(r, "user's type", Mine{(int)r.size(900)}, "s", false); break; }
    default: one<const void*>(r, "pointer", (const void*)(uintptr_t)(r.chance(20) ? 0 : r.next() >> r.below(64)), "p", false);
  }
}
// wide characters: the same text, wider
static std::wstring widened(const std::string& t) { return std::wstring(t.begin(), t.end()); }
template <typename T, typename W> static void wide(Rng& r, const T& v, const W& w, const char* types, bool number) {
  for (I turn = 0; turn < 3; ++turn) {
    Spec s = spec(r, types, number);
    if (s.has_fill && (unsigned char)s.fill > 126) s.fill = '*';
    if (!number && r.chance(85)) { s.sign = 0; s.hash = s.zero = false; }
    if (std::is_integral<T>::value && s.prec >= 0 && r.chance(90)) s.prec = -1;
    if (std::is_same<T, bool>::value && !s.type) { if (s.align == '=') s.align = '<'; s.zero = s.hash = false; s.sign = 0; }
    if (s.type == 'n' && !number) s.type = 0;
    s.wform = s.pform = 0; if (s.width == 0) s.width = -1;
    bool bad = false, threw = false; std::string want; std::wstring f, got;
    { vf::Quiet q; std::string before((size_t)r.below(r.chance(10) ? 600 : 5), 'x'); try { want = before + Ref<T>::f(v, s) + "}"; } catch (const Bad&) { bad = true; } f = widened(before + render(s, 0, r.chance(50)) + "}}"); }
    int k = (int)r.below(3);
    vf::op("wide", "way %d: %ls", k, f.substr(0, 120).c_str());
    try {
      if (k == 0) got = fmt::format(f, w);
      else if (k == 1) { fmt::WMemoryWriter o; o.write(f, w); got = o.str(); VF_CHECK(o.c_str()[o.size()] == 0 && o.size() == got.size(), "writer", "the writer's views differ"); }
      else { std::vector<wchar_t> b(bad ? 4096 : want.size() + 2); fmt::WArrayWriter o(b.data(), b.size()); o.write(f, w); got.assign(o.data(), o.size()); }
    } catch (const fmt::FormatError&) { threw = true; }
    VF_CHECK(threw == bad, bad ? "not-reported" : "refused", "wide format '%ls': %s", f.substr(0, 200).c_str(), threw ? "reported" : "accepted");
    if (!bad) VF_CHECK(got == widened(want), "text", "wide format '%ls' gave %zu characters for %zu: '%ls' for '%s'", f.substr(0, 100).c_str(), got.size(), want.size(), got.substr(0, 100).c_str(), want.substr(0, 100).c_str());
    vf::event(bad ? "wide-reported" : "wide");
  }
}
static void wideAny(Rng& r) {
  switch (r.below(8)) {
    case 0: { int v = anyInt<int>(r); wide<int>(r, v, v, kIntTypes, true); break; }
    case 1: { unsigned long v = anyInt<unsigned long>(r); wide<unsigned long>(r, v, v, kIntTypes, true); break; }
    case 2: { bool v = r.chance(50); wide<bool>(r, v, v, "dxXbBo", true); break; }
    case 3: { char c = (char)r.range(32, 126); wide<char>(r, c, (wchar_t)c, "c", false); break; }
    case 4: { std::string t; { vf::Quiet q; for (I k = 0, n = r.size(600); k < n; ++k) t += (char)r.range(1, 126); } if (r.chance(50)) wide<std::string>(r, t, widened(t), "s", false); else { std::wstring w = widened(t); wide<const char*>(r, t.c_str(), w.c_str(), "s", false); } break; }
    case 5: { long double v = (long double)r.sym() * (r.chance(20) ? 1e1000L : 1); wide<long double>(r, v, v, "eEfFgG", true); break; }
    default: { double v = anyDouble(r); wide<double>(r, v, v, "eEfFgGaA", true); }
  }
}
// many arguments of many kinds, by position, in order or by name
static void many(Rng& r) {
  int i = anyInt<int>(r); double d = anyDouble(r); bool b = r.chance(50); char c = (char)r.range(33, 122); unsigned u = anyInt<unsigned>(r); long l = anyInt<long>(r);
  std::string s = "text", want, f; const char* z = "zero"; const void* p = &i; Mine m{5}; il::String q{"il"};
  Spec none; bool manual = r.chance(60), bad = false;
  std::vector<std::string> e;
  {
    vf::Quiet quiet;
    e = {Ref<int>::f(i, none), Ref<double>::f(d, none), Ref<bool>::f(b, none), Ref<char>::f(c, none), Ref<unsigned>::f(u, none), Ref<long>::f(l, none), s, z, Ref<const void*>::f(p, none), Ref<Mine>::f(m, none), "il",
         Ref<int>::f(i, none), Ref<double>::f(d, none), Ref<bool>::f(b, none), Ref<char>::f(c, none), Ref<unsigned>::f(u, none), Ref<long>::f(l, none), s, "named value"};
    I n = manual ? r.range(0, 30) : r.range(0, 19);
    for (I k = 0; k < n; ++k) {
      std::string t = r.chance(30) ? literal(r) : std::string(" "); f += escaped(t); want += t;
      size_t j = manual ? (size_t)r.below(19) : (size_t)k;
      if (manual && j == 18) { f += "{last_1}"; want += e[18]; } else { f += manual ? "{" + std::to_string(j) + "}" : "{}"; want += e[j]; }
    }
    switch (r.below(12)) {
      case 0: f += manual ? "{19}" : n < 19 ? "{" : std::string("{}"); bad = true; break;
      case 1: f += "{nothing}"; bad = true; break;
      case 2: if (n > 0) { f += manual ? "{}" : "{0}"; bad = true; } break;
      default: break;
    }
  }
  agree(r, f, bad, want, i, d, b, c, u, l, s, z, p, m, q, i, d, b, c, u, l, s, fmt::arg("last_1", "named value"));
  vf::event("many-arguments");
}
static void invalid(Rng& r) {
  static const char* const kBad[] = {"{", "}", "{0", "{0:", "{:", "{:5", "a}b", "{{}", "{}}", "{99}", "{a b}", "{!}", "{:{}", "{:{", "{:.}", "{:.x}", "{0:.}", "{:5.}", "{:{<5}", "{0}{}", "{}{0}", "{ }", "{-1}", "{0!r}", "{:99999999999}", "{:.99999999999}",
    "{99999999999}", "{:{9}}", "{0:{x}}", "{:5d5}", "{:dd}", "{x", "{:.{9}}", "{:.{}", "{:2147483648}", "{:.2147483648}", "{:>>>5}"};
  std::string f = r.pick(kBad);
  { vf::Quiet q; f = escaped(literal(r)) + f; if (r.chance(50) && f.back() == '}') f += escaped(literal(r)); }
  if (f.find("{:>>>5}") != std::string::npos && r.chance(0)) return;
  bool num = r.chance(50);
  // an unmatched brace may pair with the literal that follows: the text ends there
  std::string g = f;
  if (num) agree(r, g, true, "", 42); else agree(r, g, true, "", 2.5);
  vf::event("invalid");
}
// width and precision arguments that are no sizes
static void sizes(Rng& r) {
  std::string f = r.chance(50) ? "{0:{1}}" : "{0:.{1}f}";
  switch (r.below(5)) {
    case 0: agree(r, f, true, "", 1.5, -1); break;
    case 1: agree(r, f, true, "", 1.5, 2.0); break;
    case 2: agree(r, f, true, "", 1.5, "3"); break;
    case 3: agree(r, f, true, "", 1.5, 1ull << r.range(31, 63)); break;
    default: agree(r, f, true, "", 1.5, (long long)-1 - (long long)r.below(1000000)); break;
  }
  vf::event("bad-sizes");
}
// any text as a format: reported or formatted, never a fault
static void garbage(Rng& r) {
  std::string f; int digits = 0;
  { vf::Quiet q; for (I k = 0, n = r.range(1, 24); k < n; ++k) { char c = "{}{}{}:<>=^+-# .,dxebfgascpn_0123a\xff"[r.below(36)]; if (c >= '0' && c <= '9' && ++digits > 3) c = ':'; f += c; } }
  vf::op("garbage", "%s", f.c_str());
  bool ok = true; std::string a, b;
  try { a = fmt::format(f, 42, 2.5, "text"); } catch (const fmt::FormatError& e) { ok = false; VF_CHECK(strlen(e.what()) > 0, "message", "an error without a message"); }
  bool ok2 = true;
  try { fmt::MemoryWriter w; w.write(f, 42, 2.5, "text"); b = w.str(); } catch (const fmt::FormatError&) { ok2 = false; }
  VF_CHECK(ok == ok2 && a == b, "repeatable", "the same format gives two results");
  vf::event(ok ? "garbage-formatted" : "garbage-reported");
}
// writers without a format string
static void writers(Rng& r) {
  fmt::MemoryWriter w; std::string want;
  for (I k = 0, n = r.range(1, 60); k < n; ++k) {
    int i = anyInt<int>(r); unsigned u = anyInt<unsigned>(r); long l = anyInt<long>(r); unsigned long long q = anyInt<unsigned long long>(r); double d = anyDouble(r);
    unsigned width = (unsigned)r.range(0, 40); char fill = "*0 "[r.below(3)];
    Spec none, s; s.has_fill = true; s.fill = fill; s.width = (int)width;
    vf::op("writer", "piece %ld", (long)k);
    int kind = (int)r.below(15);
    std::string e;
    {
      vf::Quiet quiet;
      switch (kind) {
        case 0: e = Ref<int>::f(i, none); break; case 1: e = Ref<unsigned>::f(u, none); break; case 2: e = Ref<long>::f(l, none); break; case 3: e = Ref<unsigned long long>::f(q, none); break;
        case 4: e = Ref<double>::f(d, none); break; case 5: e = "x"; break; case 6: e = "some text"; break;
        case 7: { Spec t; t.type = 'x'; e = refInt(u, t); break; } case 8: { Spec t; t.type = 'X'; e = refInt((__int128)q, t); break; } case 9: { Spec t; t.type = 'o'; e = refInt(u, t); break; } case 10: { Spec t; t.type = 'b'; e = refInt(u, t); break; }
        case 11: { Spec t = s; t.align = '>'; e = refInt(i, t); break; }
        case 12: { Spec t = s; t.align = '<'; e = refStr("abc", t); break; }
        case 13: { Spec t; e = refInt(i, t); break; }
        default: { e = refInt(l, none); break; }
      }
      want += e;
    }
    switch (kind) {
      case 0: w << i; break; case 1: w << u; break; case 2: w << l; break; case 3: w << q; break; case 4: w << d; break; case 5: w << 'x'; break; case 6: w << "some text"; break;
      case 7: w << fmt::hex(u); break; case 8: w << fmt::hexu(q); break; case 9: w << fmt::oct(u); break; case 10: w << fmt::bin(u); break;
      case 11: w << fmt::pad(i, width, fill); break; case 12: w << fmt::pad("abc", width, fill); break;
      case 13: { fmt::FormatInt t(i); VF_CHECK(t.str() == e && t.size() == e.size() && std::string(t.c_str()) == e, "format-int", "%s for %s", t.c_str(), e.c_str()); w << t.c_str(); break; }
      default: { char b[32]; char* p = b; fmt::format_decimal(p, l); VF_CHECK(std::string(b, p) == e, "format-decimal", "%s for %s", std::string(b, p).c_str(), e.c_str()); w << fmt::StringRef(b, (size_t)(p - b)); }
    }
    VF_CHECK(w.size() == want.size() && memcmp(w.data(), want.data(), want.size()) == 0, "writer", "piece %ld, kind %d: '%s' instead of '%s'", (long)k, kind, std::string(w.data(), w.size()).substr(want.size() - e.size() < w.size() ? want.size() - e.size() : 0).c_str(), e.c_str());
  }
  if (r.chance(30)) {
    vf::op("moved writer", "%zu characters", want.size());
    fmt::MemoryWriter x(std::move(w)); VF_CHECK(x.str() == want, "moved-writer", "the text is lost");
    fmt::MemoryWriter y; std::string old((size_t)(r.chance(50) ? 3 : r.range(490, 1200)), 'o'); y << old; y = std::move(x); VF_CHECK(y.str() == want, "moved-writer", "the text is lost");
    y.clear(); VF_CHECK(y.size() == 0, "clear", "text left");
    // writers whose text was taken away can be used again
    std::string more((size_t)(r.chance(50) ? r.range(0, 40) : r.range(490, 2000)), 'm');
    x.clear(); x << more << 7; VF_CHECK(x.str() == more + "7", "moved-writer", "a writer is not usable after its text was moved away");
    w.clear(); w << "{" << more; VF_CHECK(w.str() == "{" + more, "moved-writer", "a writer is not usable after its text was moved away");
    y << more; VF_CHECK(y.str() == more && x.str() == more + "7", "moved-writer", "writers share their text");
    vf::event("moved-writer");
  }
  // a fixed buffer is never left
  std::vector<char> b((size_t)r.range(0, 12) + 1); fmt::ArrayWriter a(b.data(), b.size()); bool full = false; std::string t((size_t)r.range(0, 20), 'y');
  try { a.write("{}", t); } catch (const std::runtime_error&) { full = true; }
  VF_CHECK(full == (t.size() > b.size()), "fixed-buffer", "%zu characters in a buffer of %zu: %s", t.size(), b.size(), full ? "reported" : "accepted");
  vf::event(full ? "buffer-full" : "buffer-fits");
}
static void errors(Rng& r) {
  int code = r.chance(50) ? (int)r.range(1, 40) : r.chance(40) ? (r.chance(50) ? -5 : 99999) : 5000 + (int)(r.chance(50) ? r.range(490, 510) : r.range(0, 3000));
  std::string who; { vf::Quiet q; who.assign((size_t)r.size(700), 'w'); }
  vf::op("system error", "%d", code);
  std::string got; int c = 0;
  try { throw fmt::SystemError(code, "cannot do {} with {}", 1, who); } catch (const fmt::SystemError& e) { got = e.what(); c = e.error_code(); }
  std::string want = "cannot do 1 with " + who + ": ", sys = message(code);
  VF_CHECK(c == code, "error-code", "%d for %d", c, code);
  VF_CHECK(got == want + sys, "error-text", "'%s'", got.substr(0, 200).c_str());
  vf::event(code >= 5500 ? "long-system-error" : "system-error");
  // the report on the error stream, and the text built into a writer that held another
  std::string out; { vf::Quiet q; out = printed([&] { fmt::report_system_error(code, who); }, 2); }
  VF_CHECK(out == who + ": " + sys + "\n", "reported-text", "'%s'", out.substr(0, 200).c_str());
  fmt::MemoryWriter w; fmt::format_system_error(w, code, who);
  VF_CHECK(w.str() + "\n" == out, "reported-text", "'%s' for '%s'", w.str().substr(0, 200).c_str(), out.substr(0, 200).c_str());
  vf::event("system-error-report");
}
void vf_case(Rng& r, uint64_t) {
  static const char* const kSep[] = {"", "", ",", "'", "..", "\xe2\x80\xaf"};
  g_sep = kSep[r.below(6)];
  switch (r.below(14)) {
    case 12: case 13: g_sep = ""; wideAny(r); break;
    case 0: many(r); break;
    case 1: invalid(r); break;
    case 2: sizes(r); break;
    case 3: garbage(r); break;
    case 4: writers(r); break;
    case 5: errors(r); break;
    default: single(r);
  }
  if (vf::wantSample()) vf::sample(vf::st().last_op);
  vf::nontrivial();
}
