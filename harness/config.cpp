// I03 (VF_PART 0): documents rendered from a model with varied layout must parse to the model;
// documents with one construct outside the grammar must be reported.
// I04 (VF_PART 1): maps built from a model are saved and loaded back; the file is also read by
// an independent TOML implementation (Python's tomllib).
#include "tomlref.h"
#include "npyref.h"
#include <sys/wait.h>
using vf::Rng;
using namespace cfg;

static MA load(const std::string& name, bool& good, int& err) {
  il::Status s{}; vf::used(s);
  MA m = il::load<MA>(S(name), il::io, s);
  good = s.Ok();
  err = good ? 0 : (int)s.error();
  return m;
}
#if VF_PART == 0
// one line (or a few) that no document may contain; %s is a key that is not used elsewhere
static const char* kBad[] = {
  "K =", "K", "= 1", "K = 1 2", "K = \"abc", "K = 'abc", "K = \"abc\\", "K = \"abc\\\"", "K = [1, 2", "K = [1 2]", "K = [1,, 2]", "K = [,1]", "K = [", "K = ]", "K = [1]]", "K = [[1 ;]]", "K = [[1, 2]",
  "K = {a = 1", "K = {a = 1 b = 2}", "K = {a = 1, a = 2}", "K = {a}", "K = {a = }", "K = {= 1}", "K = {", "K = {,}", "K = {a = 1, }",
  "K = 01", "K = -01", "K = 00", "K = 1__0", "K = _1", "K = 1_", "K = 1.", "K = .5", "K = 1.e5", "K = 1e", "K = 1e+", "K = +", "K = -", "K = +-1", "K = 1.5.2", "K = 1_.5", "K = 1a", "K = 0_1", "K = 5-3",
  "K = tru", "K = True", "K = truex", "K = false false", "K = fals", "K = yes", "K = abc",
  "K = [1, \"a\"]", "K = [1, 2.0]", "K = [true, 1]", "K = [[1], 2]", "K = [\"a\", ['b']]", "K = [{a = 1}, 2]",
  "K = \"\\q\"", "K = \"a\" \"b\"", "K = \"a\"b", "K = 'a'b", "\"K\" x = 1", "\"K = 1", "'K = 1", "K x = 1", "K[ = 1", "K] = 1", "K# = 1",
  "[K", "[K]]", "[K] x", "[K] = 1", "[]", "[ ]", "[[]]", "[[K]", "[[K] ]", "[K..b]", "[K.]", "[.K]", "[K.b", "[\"K\"b]", "[K b]", "[\"K]", "['K]", "[[K]] x", "[K]y", "[", "[[", "[[K", "[K.\"b\"c]",
  "K = 9223372036854775808", "K = -9223372036854775809", "K = 99999999999999999999999", "K = [1, 9223372036854775808]",
  "K = 1\nK = 2", "K = 1\n\"K\" = 2", "K = 1\n'K' = 1", "[K]\n[K]", "[K]\na = 1\n[K]\nb = 2", "[K]\n[K.b]\n[K]", "[K.b]\n[K]\n[K]", "[K.b]\n[K.c]\n[K.b]", "[[K]]\n[K]", "[K]\n[[K]]", "[K.b]\n[[K]]", "[K]\nb = 1\n[K.b]", "[K]\nb = 1\n[[K.b]]",
  "K = 1\n[K]", "K = 1\n[K.b]", "K = 1\n[[K]]", "K = {a = 1}\n[K]", "K = {a = 1}\n[K.b]", "K = [{a = 1}]\n[[K]]", "K = [{a = 1}]\n[K]", "K = [1]\n[[K]]", "[[K]]\n[K.b]\n[K.b]", "[[K]]\n[[K.b]]\n[K.b]", "[K]\nb = 1\nb = 2", "[[K]]\nb = 1\nb = 2", "[K.b]\n[K]\nb = 1",
  "K = \"\xff\"", "K = \"\xc3\"", "K = '\xe2\x82'", "K = \"\xed\xa0\x80\"", "K = \"\xc0\xaf\"", "\"K\xff\" = 1", "K = 1 \x01", "K = 1\x7f",
  "K = 1 = 2", "K = 1,", "K = \"a\",", "K = true,", "K == 1", "K = 1 ]", "K = 1 }", "K = [1] 2", "K = {a = 1} 2",
  "K! = 1", "K+a = 1", "K$ = 1", "K@b = 1", "K/b = 1", "K, = 1", "(K) = 1", "K: 1", "K* = 1", "[K!]", "[K$.b]", "[[K@]]", "K; = 1", "K& = 1", "K?=1", "{K} = 1", "K\\ = 1", "K`=1",
};
static void rejects(Rng& r) {
  std::string doc, name = "bad.toml", bad;
  bool good; int err;
  {
    vf::Quiet q;
    V root = table(r, 2, true, true);
    size_t k = (size_t)r.below((int64_t)(sizeof kBad / sizeof kBad[0]) + 2);
    const size_t n = sizeof kBad / sizeof kBad[0];
    if (k < n) bad = kBad[k];
    else if (k == n) bad = std::string("K = 1\0x", 7);
    else bad = "K = " + std::string((size_t)r.range(300, 20000), '[');
    vf::op("parse outside grammar", "%s", show(bad).c_str());
    // the key must not be in use at the root: rename it
    std::string key = "zz" + std::to_string(r.below(1000000));
    while (root.find(key)) key += "z";
    std::string b2;
    for (char c : bad) { if (c == 'K') b2 += key; else b2 += c; }
    bad = b2;
    Render R(r);
    const bool first = r.chance(50);
    std::string eol = r.chance(20) ? "\r\n" : "\n", b3;
    for (char c : bad) { if (c == '\n') { if (r.chance(20)) b3 += " # comment"; b3 += eol; if (r.chance(20)) b3 += eol; } else b3 += c; }
    bad = b3;
    // before the document (then the rest must still not be swallowed) or after it
    if (b2[0] != '[' && (b2.find("\n[") != std::string::npos || (first && b2.find('\n') == std::string::npos))) doc = bad + eol + R.doc(root);
    else { doc = R.doc(root); if (!doc.empty() && doc.back() != '\n') doc += eol; if (b2[0] != '[' && b2.find("\n[") == std::string::npos && b2.find("= ") != std::string::npos && r.chance(50)) doc += "[yy" + key + "]" + eol; doc += bad; if (r.chance(70)) { doc += eol; if (r.chance(30)) doc += "after" + key + " = 1" + eol; } }
    npy::spit(name, doc);
  }
  MA m = load(name, good, err);
  if (good) {
    vf::Quiet q;
    vf::fail("accepted", "a document that holds '%s' is accepted: %s", show(bad).c_str(), show(doc.size() > 60 ? doc.substr(doc.size() - 60) : doc).c_str());
  }
  vf::event("rejected");
  unlink(name.c_str());
  vf::Quiet q; std::string().swap(doc); std::string().swap(bad);
}
// documents outside the supported subset of TOML: an error, or the right data, never other data
static void unsupported(Rng& r) {
  static const struct { const char* text; const char* want; } k[] = {
    {"k = \"\\u0041\"", "A"}, {"k = \"\\U0001F600\"", "\xf0\x9f\x98\x80"}, {"k = \"\"\"abc\"\"\"", "abc"}, {"k = '''abc'''", "abc"}, {"k = \"\"\"a\nb\"\"\"", "a\nb"}, {"k = \"\"\"\"\"\"", ""}, {"k = ''''''", ""},
    {"k = 1979-05-27", nullptr}, {"k = 1979-05-27T07:32:00Z", nullptr}, {"k = 07:32:00", nullptr}, {"k = 0x1F", nullptr}, {"k = 0b11", nullptr}, {"k = 0o17", nullptr}, {"k = inf", nullptr}, {"k = nan", nullptr}, {"k = -inf", nullptr},
    {"k = [1979-05-27]", nullptr}, {"k = [\"\"\"a\"\"\"]", nullptr}, {"k = {\na = 1\n}", nullptr}, {"k = [0x1F]", nullptr}, {"k = 1.5_0", nullptr}, {"k = 1e1_0", nullptr},
  };
  size_t i = (size_t)r.below((int64_t)(sizeof k / sizeof k[0]));
  vf::op("parse unsupported", "%s", k[i].text);
  bool good; int err;
  { vf::Quiet q; npy::spit("uns.toml", std::string(k[i].text) + (r.chance(50) ? "\n" : "")); }
  MA m = load("uns.toml", good, err);
  if (good) {
    VF_CHECK(k[i].want, "accepted-unsupported", "'%s' is accepted", k[i].text);
    il::spot_t s = m.search("k");
    VF_CHECK(m.nbElements() == 1 && m.found(s) && m.value(s).is<il::String>() && m.value(s).as<il::String>() == k[i].want, "unsupported-value", "'%s' gives other data", k[i].text);
  }
  vf::event("unsupported");
}
// one value written as a random token, decided by a grammar written here: 0 not a value, 1 a value, 2 a value of TOML the library may report
static bool digits(const std::string& t, size_t& i, bool& us) {
  if (i >= t.size() || !isdigit((unsigned char)t[i])) return false;
  while (i < t.size() && (isdigit((unsigned char)t[i]) || (t[i] == '_' && i + 1 < t.size() && isdigit((unsigned char)t[i + 1])))) { if (t[i] == '_') us = true; ++i; }
  return true;
}
static int numberRef(const std::string& t, V& v) {
  size_t i = 0; bool us = false, us_tail = false, fl = false;
  if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
  const size_t first = i;
  if (!digits(t, i, us)) return 0;
  if (t[first] == '0' && i > first + 1) return 0;
  if (i < t.size() && t[i] == '.') { fl = true; ++i; if (!digits(t, i, us_tail)) return 0; }
  if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) { fl = true; ++i; if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i; if (!digits(t, i, us_tail)) return 0; }
  if (i != t.size()) return 0;
  std::string c; for (char x : t) if (x != '_') c += x;
  if (fl) { v.k = kDouble; v.d = strtod(c.c_str(), nullptr); if (!std::isfinite(v.d)) return 2; return us_tail ? 2 : 1; }
  errno = 0; v.k = kInt; v.i = strtol(c.c_str(), nullptr, 10);
  return errno == ERANGE ? 0 : 1;
}
static int stringRef(const std::string& t, V& v) {
  v.k = kString; v.s.clear();
  const char q = t[0];
  bool unicode = false;
  size_t i = 1;
  for (;; ++i) {
    if (i >= t.size()) return 0;
    if (t[i] == q) break;
    if (q == '"' && t[i] == '\\') {
      if (++i >= t.size()) return 0;
      const char* f = "btnfr\"\\"; const char* to = "\b\t\n\f\r\"\\";
      const char* at = strchr(f, t[i]);
      if (at && t[i]) v.s += to[at - f];
      else if (t[i] == 'u') { long c = 0; for (int k = 0; k < 4; ++k) { if (++i >= t.size() || !isxdigit((unsigned char)t[i])) return 0; c = c * 16 + (isdigit((unsigned char)t[i]) ? t[i] - '0' : (t[i] | 32) - 'a' + 10); } if (c > 126 || c < 32) return -1; v.s += (char)c; unicode = true; }
      else return 0;
    } else v.s += t[i];
  }
  ++i;
  while (i < t.size() && t[i] == ' ') ++i;
  if (i < t.size() && t[i] != '#') return 0;
  return unicode ? 2 : 1;
}
static void tokens(Rng& r) {
  std::string t, doc; V root, v; root.k = kTable; int want; bool good; int err;
  {
    vf::Quiet q;
    const bool text = r.chance(40);
    if (text) {
      static const char* abc[] = {"a", "\\", "\\", "\"", "'", "n", "u0041", " ", "#", "q", "\\n", "\\\\", "\\\"", "t", "=", "]", "\\u00", "b", "\xc3\xa9"};
      const char q1 = r.chance(70) ? '"' : '\''; t = q1; for (int64_t k = 0, n = r.range(0, 7); k < n; ++k) t += abc[r.below(19)]; if (r.chance(80)) t += q1; if (r.chance(10)) t += " # c";
      if (t.size() >= 3 && t[1] == t[0] && t[2] == t[0]) t = std::string(1, q1) + "x" + std::string(1, q1);
      want = stringRef(t, v);
    } else {
      if (r.chance(50)) { static const char* abc[] = {"1", "0", "23", "_", ".", "e", "E", "+", "-", "9", "7_7", "0.5", "1e1"}; for (int64_t k = 0, n = r.range(1, 7); k < n; ++k) t += abc[r.below(13)]; }
      else {
        // a number with at most one thing wrong
        if (r.chance(40)) t += r.chance(50) ? "+" : "-";
        t += r.chance(20) ? "0" : std::to_string(r.range(1, 1000000)); if (r.chance(10)) t += "_5";
        if (r.chance(60)) { t += "."; for (int64_t k = 0, n = r.range(1, 12); k < n; ++k) t += (char)('0' + r.below(10)); }
        if (r.chance(60)) { t += r.chance(50) ? "e" : "E"; if (r.chance(60)) t += r.chance(50) ? "+" : "-"; t += r.chance(20) ? "0" : ""; t += std::to_string(r.range(0, 300)); }
        if (r.chance(40)) { size_t at = (size_t)r.below((int64_t)t.size()); if (r.chance(60)) t.erase(at, (size_t)r.range(1, 3)); else t.insert(at, 1, "0_.eE+-9"[r.below(8)]); }
        if (t.empty()) t = "-";
      }
      want = numberRef(t, v);
    }
    int place = text && t.find('#') != std::string::npos ? 0 : (int)r.below(4);
    V n; n.k = kInt; n.i = 3;
    V in; in.k = place == 1 ? kArray : kTable; if (place == 1) in.a.push_back(v); else in.m.push_back({"a", v});
    root.m.push_back({"k", place == 0 ? v : in});
    doc = place == 0 ? "k = " + t + "\n" : place == 1 ? "k = [" + t + "]\n" : place == 2 ? "k = {a = " + t + "}\n" : "[k]\na = " + t + "\n";
    if (place < 3 && r.chance(70)) { doc += "after = 3\n"; root.m.push_back({"after", n}); } else if (r.chance(40)) doc.pop_back();
    // a bracket or a comma in the text could end the array: only look at tokens that stand alone
    if (want == 0 && text && (place == 1 || place == 2)) { doc = "k = " + t + "\n"; }
    npy::spit("token.toml", doc);
    vf::op("parse token", "%s", show(doc).c_str());
  }
  MA m = load("token.toml", good, err);
  vf::Quiet q;
  if (want == 0) VF_CHECK(!good, "accepted", "%s is accepted", show(doc).c_str());
  if (want == 1) VF_CHECK(good, "rejected", "%s is rejected with error %d", show(doc).c_str(), err);
  if (good && want >= 1) sameTable(m, root, "");
  vf::event(want == 0 ? "token-reported" : want == 1 ? "token-parsed" : "token-unsupported");
  unlink("token.toml");
  std::string().swap(doc); std::string().swap(t);
}
// one part of a key at t[i]: 0 not a key, 1 a key, 2 a key the library may report
static int keyPart(const std::string& t, size_t& i, std::string& out) {
  out.clear();
  if (i < t.size() && (t[i] == '"' || t[i] == '\'')) {
    size_t e = i + 1;
    while (e < t.size() && t[e] != t[i]) e += t[i] == '"' && t[e] == '\\' ? 2 : 1;
    if (e >= t.size()) return 0;
    V v; int w = stringRef(t.substr(i, e + 1 - i), v);
    i = e + 1; out = v.s;
    return w;
  }
  while (i < t.size() && (isalnum((unsigned char)t[i]) || t[i] == '_' || t[i] == '-')) out += t[i++];
  return out.empty() ? 0 : 1;
}
static void keyTokens(Rng& r) {
  std::string t, doc; V root; root.k = kTable; int want = 1; bool good; int err;
  {
    vf::Quiet q;
    static const char* abc[] = {"a", "b", "-", "_", "1", "\"", "'", "\"k\"", "'l'", "\"\\\"\"", ".", ".", " ", "#", "\\", "]", "[", "=", "c", "\"\\\\\"", "\"a.b\""};
    const bool header = r.chance(50), arrays = header && r.chance(30);
    for (int64_t k = 0, n = r.range(1, 7); k < n; ++k) t += abc[r.below(r.chance(70) ? 13 : 21)];
    std::vector<std::string> path; size_t i = 0;
    auto ws = [&] { while (i < t.size() && t[i] == ' ') ++i; };
    ws();
    for (;;) {
      std::string part; int w = keyPart(t, i, part);
      path.push_back(part);
      if (w <= 0) { want = w; break; }
      if (w == 2) want = 2;
      ws();
      if (i == t.size()) break;
      if (t[i] != '.') { want = 0; break; }
      ++i; ws();
    }
    if (t.find('=') != std::string::npos || t.find('#') != std::string::npos || t.find(']') != std::string::npos || t.find('[') != std::string::npos) { if (want == 0) want = -1; }
    if (!header && path.size() > 1 && want == 1) want = 2;
    V v; v.k = kInt; v.i = 5;
    V in; in.k = kTable; if (header) in.m.push_back({"x", v}); else in = v;
    if (arrays) { V a; a.k = kArray; a.a.push_back(in); in = a; }
    while (path.size() > 1) { V up; up.k = kTable; up.m.push_back({path.back(), in}); path.pop_back(); in = up; }
    root.m.push_back({path[0], in});
    doc = !header ? t + " = 5" : arrays ? "[[" + t + "]]\nx = 5" : "[" + t + "]\nx = 5";
    if (r.chance(70)) doc += "\n";
    npy::spit("token.toml", doc);
    vf::op("parse key", "%s", show(doc).c_str());
  }
  MA m = load("token.toml", good, err);
  vf::Quiet q;
  if (want == 0) VF_CHECK(!good, "accepted", "%s is accepted", show(doc).c_str());
  if (want == 1) VF_CHECK(good, "rejected", "%s is rejected with error %d", show(doc).c_str(), err);
  if (good && want >= 1) sameTable(m, root, "");
  vf::event(want == 0 ? "key-reported" : want == 1 ? "key-parsed" : "key-unsupported");
  unlink("token.toml");
  std::string().swap(doc); std::string().swap(t);
}
static void parses(Rng& r) {
  std::string doc, name = "doc.toml";
  V* root;
  bool good; int err;
  {
    vf::Quiet q;
    root = new V(table(r, (int)r.range(1, 4), true, true));
    Render R(r);
    doc = R.doc(*root);
    npy::spit(name, doc);
    size_t h = std::hash<std::string>()(doc), longest = 0, cur = 0;
    for (char c : doc) { if (c == '\n') cur = 0; else longest = std::max(longest, ++cur); }
    if (longest >= 200) vf::event("long-line");
    if (doc.find("\r\n") != std::string::npos) vf::event("crlf");
    vf::op("parse", "%zu values %zu bytes hash %zx", count(*root), doc.size(), h);
    vf::event("values", count(*root));
    if (r.chance(20)) chmod(name.c_str(), 0444);
  }
  struct D { V* v; ~D() { vf::Quiet q; delete v; } } d{root};
  {
    MA m = load(name, good, err);
    vf::Quiet q;
    VF_CHECK(good, "rejected", "a well-formed document is rejected with error %d: %s", err, show(doc.size() > 60 ? doc.substr(doc.size() - 60) : doc).c_str());
    sameTable(m, *root, "");
  }
  vf::event("parsed");
  unlink(name.c_str());
  vf::Quiet q; std::string().swap(doc);
}
void vf_case(Rng& r, uint64_t) {
  int n = (int)r.range(1, 3);
  for (int i = 0; i < n; ++i) {
    int c = (int)r.below(10);
    if (c < 6) parses(r); else if (c < 9) rejects(r); else unsupported(r);
    for (int k = 0; k < 3; ++k) { tokens(r); keyTokens(r); }
    vf::nontrivial();
    vf::event("operations");
  }
  if (vf::wantSample()) vf::sample(vf::fmt("%d documents", n));
}
#else
static il::Dynamic dyn(Rng& r, const V& v, bool maps);
template <typename M> static void fill(Rng& r, const V& v, M& m, bool maps) { for (auto& e : v.m) m.Set(S(e.first), dyn(r, e.second, maps)); }
static il::Dynamic dyn(Rng& r, const V& v, bool maps) {
  switch (v.k) {
    case kBool: return il::Dynamic{v.b};
    case kInt: return il::Dynamic{(il::int_t)v.i};
    case kDouble: return il::Dynamic{v.d};
    case kString: return il::Dynamic{S(v.s)};
    case kArray: {
      // arrays of numbers have their own types
      bool num = !v.a.empty(), mat = !v.a.empty();
      size_t n1 = v.a.empty() ? 0 : v.a[0].a.size();
      for (auto& e : v.a) { num = num && e.k == kDouble; mat = mat && e.k == kArray && e.a.size() == n1; if (mat) for (auto& f : e.a) mat = mat && f.k == kDouble; }
      if (num && r.chance(50)) { il::Array<double> a{(il::int_t)v.a.size()}; for (size_t i = 0; i < v.a.size(); ++i) a[(il::int_t)i] = v.a[i].d; vf::event("array-of-double"); return il::Dynamic{std::move(a)}; }
      if (mat && n1 > 0 && r.chance(50)) {
        il::Array2D<double> a{(il::int_t)v.a.size(), (il::int_t)n1};
        for (size_t i = 0; i < v.a.size(); ++i) for (size_t j = 0; j < n1; ++j) a((il::int_t)i, (il::int_t)j) = v.a[i].a[j].d;
        vf::event("matrix-of-double");
        return il::Dynamic{std::move(a)};
      }
      il::Array<il::Dynamic> a{};
      for (auto& e : v.a) a.Append(dyn(r, e, maps));
      return il::Dynamic{std::move(a)};
    }
    case kTable:
      if (maps && r.chance(50)) { MP m{}; fill(r, v, m, maps); vf::event("nested-map"); return il::Dynamic{std::move(m)}; }
      MA m{}; fill(r, v, m, maps);
      vf::event("nested-maparray");
      return il::Dynamic{std::move(m)};
  }
  return il::Dynamic{};
}
static bool save(Rng& r, const V& v, const std::string& name) {
  il::Status s{}; vf::used(s);
  if (r.chance(30)) { MP m{}; fill(r, v, m, true); il::save(m, S(name), il::io, s); vf::event("root-map"); }
  else { MA m{}; fill(r, v, m, r.chance(50)); il::save(m, S(name), il::io, s); }
  bool good = s.Ok();
  return good;
}
static std::string pyRepr(const V& v) {
  switch (v.k) {
    case kBool: return v.b ? "T" : "F";
    case kInt: return "i" + std::to_string(v.i);
    case kDouble: { uint64_t b; memcpy(&b, &v.d, 8); return vf::fmt("d%016llx", (unsigned long long)b); }
    case kString: { std::string o = "s"; for (unsigned char c : v.s) o += vf::fmt("%02x", c); return o; }
    case kArray: { std::string o = "["; for (auto& e : v.a) o += pyRepr(e) + ","; return o + "]"; }
    case kTable: {
      std::map<std::string, std::string> m;
      for (auto& e : v.m) { std::string o; for (unsigned char c : e.first) o += vf::fmt("%02x", c); m[o] = pyRepr(e.second); }
      std::string o = "{";
      for (auto& e : m) o += e.first + ":" + e.second + ",";
      return o + "}";
    }
  }
  return "?";
}
static const char* kReader =
"import tomllib, struct\n"
"def rep(v):\n"
"    if v is True: return 'T'\n"
"    if v is False: return 'F'\n"
"    if isinstance(v, int): return 'i%d' % v\n"
"    if isinstance(v, float): return 'd%016x' % struct.unpack('<Q', struct.pack('<d', v))[0]\n"
"    if isinstance(v, str): return 's' + v.encode().hex()\n"
"    if isinstance(v, list): return '[' + ''.join(rep(e) + ',' for e in v) + ']'\n"
"    return '{' + ''.join('%s:%s,' % e for e in sorted((k.encode().hex(), rep(x)) for k, x in v.items())) + '}'\n"
"for line in open('list.txt'):\n"
"    name, want = line.split()\n"
"    got = rep(tomllib.load(open(name, 'rb')))\n"
"    assert got == want, (name, got, want)\n";
static V* gen(Rng& r) { vf::Quiet q; V* v = new V(table(r, (int)r.range(1, 4), true, true)); return v; }
struct D { V* v; ~D() { vf::Quiet q; delete v; } };
// tomllib reads numbers, strings and structure on its own: strings without control characters it rejects
static void foreign(Rng& r) {
  FILE* f = fopen("list.txt", "w");
  struct C { FILE* f; ~C() { if (f) fclose(f); } } c{f};
  vf::op("save for tomllib");
  for (int k = 0; k < 40; ++k) {
    D d{gen(r)};
    std::string name = "p" + std::to_string(k) + ".toml";
    VF_CHECK(save(r, *d.v, name), "save", "saving fails");
    vf::Quiet q;
    fprintf(f, "%s %s\n", name.c_str(), pyRepr(*d.v).c_str());
  }
  fclose(f); c.f = nullptr;
  { vf::Quiet q; npy::spit("reader.py", kReader); }
  vf::op("tomllib loads");
  int st = system("/usr/bin/python3 reader.py >/dev/null 2>py.err");
  int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 255;
  vf::Quiet q;
  std::string err = npy::slurp("py.err");
  if (rc == 127 || err.find("ModuleNotFoundError") != std::string::npos) { vf::event("tomllib-unavailable"); return; }
  VF_CHECK(rc == 0, "not-toml", "tomllib does not read back what was saved: %s", err.substr(err.size() > 1500 ? err.size() - 1500 : 0).c_str());
  vf::event("files-read-by-tomllib", 40);
}
static void roundTrip(Rng& r) {
  D d{gen(r)};
  std::string name = r.chance(50) ? "c.toml" : "a-rather-long-file-name-for-a-configuration.toml";
  vf::op("save", "%zu values", count(*d.v));
  { vf::Quiet q; vf::sig(std::hash<std::string>()(pyRepr(*d.v))); }
  VF_CHECK(save(r, *d.v, name), "save", "saving fails");
  vf::event("values", count(*d.v));
  vf::op("load");
  {
    bool good; int err;
    MA m = load(name, good, err);
    vf::Quiet q;
    VF_CHECK(good, "load", "loading what was saved fails with error %d: %s", err, show(npy::slurp(name)).c_str());
    sameTable(m, *d.v, "");
  }
  // once more from what was loaded
  if (r.chance(30)) {
    bool good; int err;
    MA m = load(name, good, err);
    il::Status s{}; vf::used(s);
    vf::op("save what was loaded");
    il::save(m, S("c2.toml"), il::io, s);
    VF_CHECK(s.Ok(), "save", "saving fails");
    MA m2 = load("c2.toml", good, err);
    VF_CHECK(good, "load", "loading what was saved fails");
    vf::Quiet q;
    sameTable(m2, *d.v, "");
    vf::event("second-round-trip");
  }
  vf::event("round-trip");
}
// success only if the file holds the data
static void failures(Rng& r) {
  D d{gen(r)};
  int how = (int)r.below(4);
  vf::op("save to a bad place", "%d", how);
  std::string name;
  if (how == 0) { unlink("full.toml"); if (symlink("/dev/full", "full.toml")) {} name = "full.toml"; }
  else if (how == 1) name = "no/such/directory/c.toml";
  else if (how == 2) { mkdir("dir.toml", 0700); name = "dir.toml"; }
  if (how < 3) {
    bool empty = d.v->m.empty();
    bool good = save(r, *d.v, name);
    VF_CHECK(!good || (empty && how == 0), "silent-failure", "saving to %s reports success", name.c_str());
    vf::event("unwritable");
    return;
  }
  // values the format can not hold
  MA m{};
  m.Set(S("a"), il::Dynamic{1.0});
  il::Dynamic bad;
  int w = (int)r.below(7);
  vf::op("save what can not be saved", "%d", w);
  switch (w) {
    case 0: bad = il::Dynamic{std::nan("")}; break;
    case 1: bad = il::Dynamic{HUGE_VAL}; break;
    case 2: bad = il::Dynamic{il::Array<short>{3, (short)1}}; break;
    case 3: bad = il::Dynamic{}; break;
    case 4: bad = il::Dynamic{S("a\xff")}; break;
    case 5: { il::Array<double> a{2, -HUGE_VAL}; bad = il::Dynamic{std::move(a)}; break; }
    default: bad = il::Dynamic{il::Array2D<unsigned char>{2, 2}}; break;
  }
  int where = (int)r.below(3);
  if (where == 0) m.Set(S("b"), bad);
  else if (where == 1) { il::Array<il::Dynamic> a{}; a.Append(bad); m.Set(S("b"), il::Dynamic{std::move(a)}); }
  else { MA t{}; t.Set(S("c"), bad); m.Set(S("b"), il::Dynamic{std::move(t)}); }
  il::Status s{}; vf::used(s);
  il::save(m, S("bad.toml"), il::io, s);
  if (s.Ok()) {
    bool good; int err;
    MA m2 = load("bad.toml", good, err);
    VF_CHECK(good, "silent-failure", "saving a value the format can not hold reports success, loading it fails with error %d", err);
    il::spot_t i = m2.search("b");
    VF_CHECK(m2.found(i) && (where == 0 ? m2.value(i).type() == bad.type() : true), "silent-failure", "saving a value the format can not hold reports success, loading gives something else");
  }
  vf::event("unrepresentable");
}
void vf_case(Rng& r, uint64_t) {
  if (r.chance(1) && r.chance(40)) { foreign(r); vf::nontrivial(); return; }
  int n = (int)r.range(1, 3);
  for (int i = 0; i < n; ++i) {
    if (r.chance(85)) roundTrip(r); else failures(r);
    vf::nontrivial();
    vf::event("operations");
  }
  if (vf::wantSample()) vf::sample(vf::fmt("%d maps", n));
}
#endif
