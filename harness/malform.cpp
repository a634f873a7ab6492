// I02: files that are truncated, corrupted, of another kind or missing, and targets that can not
// be written. VF_PART 0: numpy, 1: packs, images and raw files, 2: configuration files (with
// Python's tomllib as a second reader), 3: faults while writing.
#include "packref.h"
#include "tomlref.h"
#include <il/numpy.h>
#include <sys/resource.h>
#include <sys/wait.h>
using vf::Rng;
using npy::slurp;
using npy::spit;
static il::String N(const std::string& s) { return il::String{il::StringType::Byte, s.data(), (il::int_t)s.size()}; }

// largest request made while a file is read
static void watch() { vf::g_peak_req = 0; }
static void bounded(size_t file, long extra = 0) {
#ifdef VF_ASAN
  long limit = (1 << 20) + 256 * (long)file + extra;
  long p = vf::g_peak_req;
  VF_CHECK(p <= limit, "unbounded-allocation", "reading a file of %zu bytes allocates %ld bytes at once", file, p);
#else
  (void)file; (void)extra;
#endif
}
static std::string junk(Rng& r, int max) {
  std::string s;
  int n = (int)r.size(max);
  for (int i = 0; i < n; ++i) s += (char)r.below(256);
  return s;
}
// what happens to files: lost tails, damaged bytes, lost or repeated blocks, other line endings
static bool g_cut;  // the file was only truncated
static std::string damage(Rng& r, const std::string& f, const char* alphabet, size_t focus) {
  g_cut = false;
  std::string s = f;
  if (focus > s.size()) focus = s.size();
  int how = (int)r.below(12);
  if (how < 3) { s.resize((size_t)r.below((int64_t)(r.chance(50) ? focus : s.size()) + 1)); g_cut = s.size() < f.size(); return s; }
  if (how == 3) return junk(r, 300);
  int n = r.chance(60) ? 1 : (int)r.range(2, 6);
  const size_t na = strlen(alphabet);
  for (int i = 0; i < n && !s.empty(); ++i) {
    size_t lim = r.chance(75) && focus ? std::min(focus, s.size()) : s.size();
    size_t at = (size_t)r.below((int64_t)lim);
    switch (r.below(9)) {
      case 0: s[at] = (char)(s[at] ^ (1 << r.below(8))); break;
      case 1: s[at] = (char)r.below(256); break;
      case 2: s[at] = alphabet[r.below((int64_t)na)]; break;
      case 3: s.insert(at, 1, alphabet[r.below((int64_t)na)]); break;
      case 4: s.erase(at, (size_t)(r.chance(70) ? 1 : r.range(1, 12))); break;
      case 5: { size_t m = (size_t)r.range(1, 20); std::string b = s.substr(at, m); s.insert((size_t)r.below((int64_t)s.size() + 1), b); break; }
      case 6: if (at + 1 < s.size()) std::swap(s[at], s[at + 1]); break;
      case 7: { // another number
        size_t b = s.find_first_of("0123456789", at);
        if (b == std::string::npos) break;
        size_t e = b;
        while (e < s.size() && isdigit((unsigned char)s[e])) ++e;
        static const char* k[] = {"0", "1", "2", "255", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551617", "99999999999999999999999", "00", "1000000", "-1", "1e5", " 1"};
        s.replace(b, e - b, r.pick(k));
        break;
      }
      default: s += junk(r, 20); break;
    }
  }
  return s;
}
static void missing(Rng& r, const char* ext, std::string& name) {
  static int once = (mkdir("dir.npy", 0700), mkdir("dir.toml", 0700), mkdir("dir.data", 0700), mkdir("dir.ppm", 0700), 0);
  (void)once;
  name = r.chance(40) ? std::string("none") + ext : r.chance(50) ? std::string("dir") + ext : std::string("x/y/z") + ext;
}

#if VF_PART == 0
// ---- numpy ------------------------------------------------------------------
template <typename T> struct Dt;
template <> struct Dt<int> { static const char* d() { return "i4"; } };
template <> struct Dt<double> { static const char* d() { return "f8"; } };
template <> struct Dt<float> { static const char* d() { return "f4"; } };
template <> struct Dt<long> { static const char* d() { return "i8"; } };

struct Deno { bool strict, lenient, complete; npy::Parsed p; size_t bytes; bool empty; };
static long product(const std::vector<long>& s, bool& over) { long p = 1; over = false; for (long x : s) if (__builtin_mul_overflow(p, x, &p)) over = true; return p; }
static Deno denotes(const std::string& f) {
  Deno d{};
  d.p = npy::parse(f, true);
  d.strict = d.p.error.empty();
  if (!d.strict) d.p = npy::parse(f, false);
  d.lenient = d.p.error.empty();
  d.empty = false;
  if (d.lenient) {
    for (long x : d.p.shape) if (x == 0) d.empty = true;
    long sz = (long)(d.p.descr.size() == 3 && isdigit((unsigned char)d.p.descr[2]) ? d.p.descr[2] - '0' : 0);
    bool over;
    long n = product(d.p.shape, over);
    if (d.empty) n = 0, over = false;
    d.complete = !over && sz > 0 && n <= (long)((f.size() - d.p.data) / (size_t)sz);
    d.bytes = d.complete ? (size_t)n * (size_t)sz : 0;
  }
  return d;
}
// success is right only if the file denotes exactly this
template <typename T> static void judge(const std::string& f, const std::string& orig, const std::vector<long>& got, const void* data, bool strided) {
  (void)strided;
  vf::Quiet q;
  Deno d = denotes(f);
  VF_CHECK(d.lenient, "accepted-malformed", "a file whose header is malformed loads: %s", npy::parse(f, false).error.c_str());
  VF_CHECK(d.complete, "accepted-truncated", "a file that does not hold its data loads");
  VF_CHECK(d.p.descr.size() == 3 && d.p.descr.substr(1) == Dt<T>::d() && d.p.descr[0] != '>', "accepted-type", "a file of %s loads as %s", d.p.descr.c_str(), Dt<T>::d());
  VF_CHECK(d.p.shape == got, "accepted-shape", "the file says rank %zu, first extent %ld; loaded: rank %zu, first extent %ld", d.p.shape.size(), d.p.shape.empty() ? -1 : d.p.shape[0], got.size(), got.empty() ? -1 : got[0]);
  if (got.size() == 2 && got[0] > 1 && got[1] > 1) VF_CHECK(d.p.fortran, "accepted-order", "a row-major file loads as column-major");
  VF_CHECK(d.bytes == 0 || memcmp(data, f.data() + d.p.data, d.bytes) == 0, "content", "the elements loaded are not those of the file");
  vf::event("accepted");
  if (d.strict) vf::event("accepted-well-formed");
}
template <typename T> static void loadAs(Rng& r, const std::string& name, const std::string& f, const std::string& orig, bool exists) {
  long extra = 0;
  { vf::Quiet q; Deno d = denotes(f); if (d.lenient && d.empty) extra = 3l << 31; }
  if (r.chance(50)) {
    vf::op("load vector", "%s", Dt<T>::d());
    watch();
    il::Status s{}; vf::used(s);
    il::Array<T> a = il::load<il::Array<T>>(N(name), il::io, s);
    bool good = s.Ok();
    bounded(f.size(), extra);
    VF_CHECK(!good || exists, "accepted-missing", "loading %s reports success", name.c_str());
    if (good) { vf::Quiet q; judge<T>(f, orig, {(long)a.size()}, a.data(), false); } else vf::event("reported");
  } else {
    vf::op("load matrix", "%s", Dt<T>::d());
    watch();
    il::Status s{}; vf::used(s);
    il::Array2D<T> a = il::load<il::Array2D<T>>(N(name), il::io, s);
    bool good = s.Ok();
    bounded(f.size(), extra);
    VF_CHECK(!good || exists, "accepted-missing", "loading %s reports success", name.c_str());
    if (good) {
      vf::Quiet q;
      std::vector<T> v;
      for (il::int_t j = 0; j < a.size(1); ++j) for (il::int_t i = 0; i < a.size(0); ++i) v.push_back(a(i, j));
      judge<T>(f, orig, {(long)a.size(0), (long)a.size(1)}, v.data(), true);
    } else vf::event("reported");
  }
}
static void any(Rng& r, int t, const std::string& name, const std::string& f, const std::string& orig, bool exists) {
  switch (t) { case 0: loadAs<int>(r, name, f, orig, exists); break; case 1: loadAs<double>(r, name, f, orig, exists); break; case 2: loadAs<float>(r, name, f, orig, exists); break; default: loadAs<long>(r, name, f, orig, exists); }
}
static std::string good(Rng& r, int t) {
  static const char* ds[] = {"<i4", "<f8", "<f4", "<i8"};
  std::vector<long> shape{(long)r.size(20)};
  if (r.chance(60)) shape.push_back((long)r.size(12));
  bool over;
  long n = product(shape, over);
  std::string raw;
  for (long i = 0; i < n * (ds[t][2] - '0'); ++i) raw += (char)r.below(256);
  return npy::file(r, ds[t], shape, r.chance(70), raw.data(), raw.size());
}
static void sparse(Rng& r) {
  // the three files of a sparse matrix, one of them damaged or describing something else
  long n = r.size(8);
  std::string part[3], name[3] = {"s.row", "s.column", "s.element"};
  std::vector<long> row{0}, col;
  std::vector<double> el;
  for (long i = 0; i < n; ++i) { for (long j = 0; j < n; ++j) if (r.chance(30)) { col.push_back(j); el.push_back((double)r.range(-9, 9)); } row.push_back((long)col.size()); }
  int what = (int)r.below(8);
  if (what == 0 && !row.empty()) row[(size_t)r.below((int64_t)row.size())] = r.pick({-1l, 1000000l, 1l << 62, 3l});
  if (what == 1 && !col.empty()) col[(size_t)r.below((int64_t)col.size())] = r.pick({-1l, 1000000l, n, n + 1, 1l << 62});
  if (what == 2) row.push_back((long)r.below(100));
  if (what == 3 && !row.empty()) row.pop_back();
  if (what == 4) col.push_back(0);
  if (what == 5) el.push_back(0);
  part[0] = npy::file(r, "<i8", {(long)row.size()}, true, row.data(), row.size() * 8);
  part[1] = npy::file(r, "<i8", {(long)col.size()}, true, col.data(), col.size() * 8);
  part[2] = npy::file(r, "<f8", {(long)el.size()}, true, el.data(), el.size() * 8);
  if (what >= 6) { int k = (int)r.below(3); part[k] = damage(r, part[k], "0123456789(),' TrueFals<>if48", 80); }
  for (int k = 0; k < 3; ++k) spit(name[k], part[k]);
  if (r.chance(5)) unlink(name[r.below(3)].c_str());
}
#endif

#if VF_PART == 1
// ---- packs, images, raw files -------------------------------------------------
// An independent reader of binary packs. soft: a construct whose acceptance is not judged.
struct Ref {
  const std::string& f;
  size_t at;
  bool bad, soft;
  std::string why;
  bool fail(const char* m) { if (!bad) why = m; bad = true; return false; }
  bool raw(void* p, size_t n) { if (f.size() - at < n) return fail("truncated"); if (n) memcpy(p, f.data() + at, n); at += n; return true; }
  bool varint(long& v) {
    unsigned long u = 0;
    int sh = 0;
    while (true) {
      unsigned char b;
      if (!raw(&b, 1)) return false;
      if (sh >= 64 || ((unsigned long)(b & 127) << sh >> sh) != (unsigned long)(b & 127)) soft = true;
      else u |= (unsigned long)(b & 127) << sh;
      sh += 7;
      if (!(b & 128)) break;
      if (sh > 700) return fail("endless number");
    }
    v = (long)u;
    return true;
  }
  bool str(std::string& s, long n) { if (n < 0 || (unsigned long)n > f.size() - at) return fail("truncated"); s.assign(f, at, (size_t)n); at += (size_t)n; return true; }
  bool map(pk::V& t, int depth) {
    if (depth > 150) soft = true;
    if (depth > 3000) return fail("too deep");
    while (true) {
      long n;
      if (!varint(n)) return false;
      if (soft) return false;
      if (n == 0) return true;
      std::string key;
      if (!str(key, n)) return false;
      unsigned char ty;
      if (!raw(&ty, 1)) return false;
      pk::V v;
      switch (ty) {
        case 0: { unsigned char b; if (!raw(&b, 1)) return false; if (b > 1) soft = true; v.k = pk::kBool; v.b = b; break; }
        case 8: v.k = pk::kInt; if (!varint(v.i)) return false; break;
        case 10: v.k = pk::kFloat; if (!raw(&v.f, 4)) return false; break;
        case 11: v.k = pk::kDouble; if (!raw(&v.d, 8)) return false; if (v.d != v.d) soft = true; break;
        case 13: { v.k = pk::kString; long m; char z; if (!raw(&m, 8) || !str(v.s, m) || !raw(&z, 1)) return false; if (z) soft = true; break; }
        case 31: { v.k = pk::kArr; long m; if (!raw(&m, 8)) return false; if (m < 0 || (unsigned long)m > (f.size() - at) / 8) return fail("truncated"); v.v.resize((size_t)m); if (!raw(v.v.data(), 8 * (size_t)m)) return false; break; }
        case 15: case 16: {
          long m;
          if (!varint(m) || !map(v, depth + 1)) return false;
          if (m != (long)v.m.size()) soft = true;
          v.k = ty == 15 ? pk::kMP : pk::kMA;
          break;
        }
        case 33: {
          long m, rows;
          if (!varint(m)) return false;
          if (soft) return false;
          if (m < 0 || (unsigned long)m > f.size()) return fail("truncated");
          for (long i = 0; i < m; ++i) {
            long l; std::string k2; unsigned char t2;
            if (!varint(l) || !str(k2, l) || !raw(&t2, 1)) return false;
            if (t2 != 8 && t2 != 11) return fail("unknown field type");
            pk::V a; a.k = pk::kArr; a.ints = t2 == 8;
            if (v.find(k2)) soft = true;
            v.m.push_back({k2, a});
          }
          if (!varint(rows)) return false;
          if (soft) return false;
          if (m == 0) { if (rows) soft = true; }
          else {
            size_t sz = 0;
            for (auto& e : v.m) sz += e.second.ints ? 4 : 8;
            if (rows < 0 || (unsigned long)rows > (f.size() - at) / sz) return fail("truncated");
            for (long j = 0; j < rows; ++j) for (auto& e : v.m) {
              if (e.second.ints) { int x; raw(&x, 4); e.second.v.push_back(x); } else { double x; raw(&x, 8); e.second.v.push_back(x); }
            }
          }
          v.k = pk::kMA;
          break;
        }
        default:
          if (ty >= 34) {  // matrices: the codes are taken from the library
            const bool u8 = ty == (unsigned char)il::Type::Array2DOfUInt8, d8 = ty == (unsigned char)il::Type::Array2DOfDouble;
            if (!u8 && !d8) return fail("unknown type");
            long a, b;
            if (!raw(&a, 8) || !raw(&b, 8)) return false;
            if (a < 0 || b < 0) return fail("negative extent");
            v.n0 = a; v.n1 = b;
            long n2;
            if (__builtin_mul_overflow(a, b, &n2)) return fail("truncated");
            if (n2 == 0 && (a > 1000000 || b > 1000000)) { soft = true; return false; }
            if ((unsigned long)n2 > (f.size() - at) / (u8 ? 1 : 8)) return fail("truncated");
            if (u8) { v.k = pk::kMatU8; v.u.resize((size_t)n2); raw(v.u.data(), (size_t)n2); }
            else { v.k = pk::kMatD; v.v.resize((size_t)n2); raw(v.v.data(), 8 * (size_t)n2); }
            break;
          }
          return fail("unknown type");
      }
      if (t.find(key)) soft = true;
      t.m.push_back({key, v});
    }
  }
};
static bool anyNan(const pk::V& v) {
  for (double x : v.v) if (x != x) return true;
  if (v.k == pk::kDouble && v.d != v.d) return true;
  if (v.k == pk::kFloat && v.f != v.f) return true;
  for (auto& e : v.m) if (anyNan(e.second)) return true;
  return false;
}
static void pack(Rng& r) {
  std::string f, orig, name = "x.data";
  bool exists = true, cut = false;
  {
    pk::V v;
    { vf::Quiet q; v = r.chance(15) ? pk::map(r, 3, true) : pk::map(r, 2, false); }
    // the file is written by the library; what is in it is judged by I05
    if (r.chance(20)) { vf::Quiet q; pk::V fl = pk::fields(r); if (!v.find("st of arrays")) v.m.push_back({"st of arrays", fl}); }
    pk::MA m{};
    pk::fill(r, v, m);
    il::Status s{}; vf::used(s);
    il::Array<il::String> o{};
    o.Append(pk::S("st of arrays"));
    vf::op("save pack");
    il::save(m, o, N(name), il::io, s);
    bool good = s.Ok();
    VF_CHECK(good, "save", "saving a pack fails with error %d", (int)s.error());
    vf::Quiet q;
    orig = slurp(name);
    f = damage(r, orig, "\x00\x01\x08\x0a\x0b\x0d\x0f\x10\x1f\x21\x7f\x80\xff", orig.size());
    if (r.chance(2)) f = std::string(1, 'a') + std::string((size_t)r.range(1, 30000), '\x10');
    if (r.chance(3)) { f.clear(); int n = (int)r.range(1, 60000); for (int i = 0; i < n; ++i) f += std::string("\x01" "a\x10\x01", 4); if (r.chance(50)) for (int i = 0; i <= n; ++i) f += '\0'; vf::event("deep-pack"); }
    cut = g_cut && f.size() < orig.size();
    spit(name, f);
    if (r.chance(4)) { missing(r, ".data", name); exists = false; f.clear(); }
    pk::V().m.swap(v.m);
    v = pk::V();
  }
  { vf::Quiet q; vf::op("load damaged pack", "%zu bytes of %zu, hash %zx", f.size(), orig.size(), std::hash<std::string>()(f)); }
  const bool asMap = r.chance(25);
  watch();
  il::Status s{}; vf::used(s);
  pk::MA a{};
  pk::MP b{};
  if (asMap) b = il::load<pk::MP>(N(name), il::io, s); else a = il::load<pk::MA>(N(name), il::io, s);
  bool good = s.Ok();
  bounded(f.size(), 3l << 31);
  VF_CHECK(!good || exists, "accepted-missing", "loading %s reports success", name.c_str());
  VF_CHECK(!good || !cut, "accepted-truncated", "a truncated pack loads");
  vf::event(good ? "accepted" : "reported");
  if (good) {
    vf::Quiet q;
    pk::V want;
    Ref ref{f, 0, false, false, ""};
    bool okay = ref.map(want, 0);
    if (!ref.soft) {
      VF_CHECK(okay, "accepted-malformed", "a malformed pack loads: %s", ref.why.c_str());
      if (!anyNan(want)) {
        std::string d = asMap ? pk::differsMap(b, want, false) : pk::differsMap(a, want, true);
        VF_CHECK(d.empty(), "content", "what is loaded differs from the file in %s", d.c_str());
        vf::event("accepted-compared");
      }
    }
  }
  vf::Quiet q; std::string().swap(f); std::string().swap(orig); std::string().swap(name);
}
static void image(Rng& r) {
  std::string f, name = "x.ppm";
  int w = (int)r.range(1, 9), h = (int)r.range(1, 9);
  bool exists = true, cut;
  std::string px, orig;
  {
    vf::Quiet q;
    for (int i = 0; i < 3 * w * h; ++i) px += (char)r.below(256);
    orig = pk::ppm(r, w, h, px);
    f = damage(r, orig, "0123456789 \n\t#P6\r-", orig.size() - px.size());
    if (r.chance(5)) f = orig.substr(0, orig.find('#') + 1);
    cut = g_cut && f.size() < orig.size();
    spit(name, f);
    if (r.chance(4)) { missing(r, ".ppm", name); exists = false; }
    vf::op("read damaged image", "%zu bytes of %zu, hash %zx", f.size(), orig.size(), std::hash<std::string>()(f));
  }
  watch();
  il::Status s{}; vf::used(s);
  il::Array2D<il::Pixel> im = il::readPpm(name, il::io, s);
  bool good = s.Ok();
  bounded(f.size());
  VF_CHECK(!good || exists, "accepted-missing", "reading %s reports success", name.c_str());
  VF_CHECK(!good || !cut, "accepted-truncated", "a truncated image is read");
  vf::event(good ? "accepted" : "reported");
  if (good) {
    vf::Quiet q;
    // the header by the words that are not in a comment
    std::string head;
    size_t i = 0;
    long num[3] = {0, 0, 0};
    int k = 0;
    bool bad = f.size() < 3 || f[0] != 'P' || f[1] != '6', soft = false;
    i = 2;
    auto space = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
    for (; !bad && k < 3; ++k) {
      bool sep = false;
      while (i < f.size()) {
        if (f[i] == '#') { while (i < f.size() && f[i] != '\n' && f[i] != '\r') ++i; sep = true; }
        else if (space(f[i])) { ++i; sep = true; }
        else break;
      }
      if (!sep) soft = true;
      size_t b = i;
      while (i < f.size() && isdigit((unsigned char)f[i])) { if (i - b > 17) { bad = true; break; } num[k] = num[k] * 10 + (f[i++] - '0'); }
      if (i == b) bad = true;
    }
    if (!bad && i < f.size() && f[i] == '#') soft = true;
    else if (!bad && (i >= f.size() || !space(f[i]))) bad = true;
    ++i;
    if (!soft) {
      VF_CHECK(!bad, "accepted-malformed", "an image with a malformed header is read");
      VF_CHECK(num[2] == 255, "accepted-malformed", "an image of depth %ld is read", num[2]);
      VF_CHECK(im.size(0) == num[0] && im.size(1) == num[1], "image-size", "an image of %ldx%ld is read as %ldx%ld", num[0], num[1], (long)im.size(0), (long)im.size(1));
      VF_CHECK((long)(f.size() - i) >= 3 * num[0] * num[1], "accepted-truncated", "an image that does not hold its pixels is read");
      for (long y = 0; y < num[1]; ++y) for (long x = 0; x < num[0]; ++x) VF_CHECK(memcmp(&im(x, y), f.data() + i + 3 * (size_t)(y * num[0] + x), 3) == 0, "pixel", "the pixel in column %ld of line %ld differs from the file", x, y);
      vf::event("accepted-compared");
    }
  }
  vf::Quiet q; std::string().swap(f); std::string().swap(px); std::string().swap(orig); std::string().swap(name);
}
static void raw(Rng& r) {
  std::string name;
  { vf::Quiet q; missing(r, ".data", name); }
  const bool write = r.chance(50), dir = name[0] == 'd', none = name[0] == 'n';
  if (none) unlink(name.c_str());
  vf::op("open what can not be opened", "%s %d", name.c_str(), (int)write);
  {
    il::Status s{}; vf::used(s);
    il::File f{N(name), write ? il::FileMode::Write : il::FileMode::Read, r.range(0, 20), il::io, s};
    bool good = s.Ok();
    if (write) {
      VF_CHECK(good == none, "accepted-missing", "opening %s for writing reports success %d", name.c_str(), (int)good);
      if (good) { il::Status s2{}; vf::used(s2); f.Close(il::io, s2); VF_CHECK(s2.Ok(), "close", "closing fails"); }
    } else {
      VF_CHECK(!good || dir, "accepted-missing", "opening %s reports success", name.c_str());
      if (good) {  // directories may be opened, not read
        char c[4];
        il::Status s2{}; vf::used(s2);
        f.Read(r.range(1, 4), 1, il::io, c, s2);
        VF_CHECK(!s2.Ok(), "accepted-missing", "reading a directory reports success");
        il::Status s3{}; vf::used(s3);
        f.Close(il::io, s3);
        s3.IgnoreError();
      }
    }
  }
  unlink("none.data");
  vf::event("reported");
  vf::event("raw-open");
  vf::Quiet q; std::string().swap(name);
}
#endif

#if VF_PART == 2
// ---- configuration files ------------------------------------------------------
typedef cfg::MA MA;
static std::string hexs(const std::string& s) { std::string o; for (unsigned char c : s) o += vf::fmt("%02x", c); return o; }
static std::string rep(const il::Dynamic& x);
template <typename M> static std::string repMap(const M& m) {
  std::map<std::string, std::string> k;
  for (il::spot_t i = m.spotBegin(); i != m.spotEnd(); i = m.next(i)) k[hexs(pk::T(m.key(i)))] = rep(m.value(i));
  std::string o = "{";
  for (auto& e : k) o += e.first + ":" + e.second + ",";
  return o + "}";
}
static std::string rep(const il::Dynamic& x) {
  if (x.is<bool>()) return x.to<bool>() ? "T" : "F";
  if (x.type() == il::Type::Integer) return "i" + std::to_string((long)x.to<il::int_t>());
  if (x.is<double>()) { double d = x.to<double>(); uint64_t b; memcpy(&b, &d, 8); return vf::fmt("d%016llx", (unsigned long long)b); }
  if (x.is<il::String>()) return "s" + hexs(pk::T(x.as<il::String>()));
  if (x.is<il::Array<il::Dynamic>>()) { const il::Array<il::Dynamic>& a = x.as<il::Array<il::Dynamic>>(); std::string o = "["; for (il::int_t i = 0; i < a.size(); ++i) o += rep(a[i]) + ","; return o + "]"; }
  if (x.is<MA>()) return repMap(x.as<MA>());
  return "?";
}
// tells, for each file, whether tomllib reads the same
static const char* kJudge =
"import tomllib, struct, sys\n"
"def rep(v):\n"
"    if v is True: return 'T'\n"
"    if v is False: return 'F'\n"
"    if isinstance(v, int): return 'i%d' % v\n"
"    if isinstance(v, float): return 'd%016x' % struct.unpack('<Q', struct.pack('<d', v))[0]\n"
"    if isinstance(v, str): return 's' + v.encode().hex()\n"
"    if isinstance(v, list): return '[' + ''.join(rep(e) + ',' for e in v) + ']'\n"
"    if isinstance(v, dict): return '{' + ''.join('%s:%s,' % e for e in sorted((k.encode().hex(), rep(x)) for k, x in v.items())) + '}'\n"
"    return 'date'\n"
"for line in open('list.txt'):\n"
"    name, got = line.split()\n"
"    try:\n"
"        want = rep(tomllib.loads(open(name, 'rb').read().decode()))\n"
"    except RecursionError:\n"
"        print('deep'); continue\n"
"    except Exception as e:\n"
"        print('bad' if got != 'error' else 'both', type(e).__name__, str(e).replace('\\n', ' ')); continue\n"
"    print('stricter' if got == 'error' else 'same' if got == want else 'differ %s' % want)\n";
static void configs(Rng& r) {
  const int n = 40;
  std::vector<std::string> docs, got;
  FILE* list = nullptr;
  { vf::Quiet q; list = fopen("list.txt", "w"); }
  struct C { FILE*& f; ~C() { if (f) fclose(f); } } c{list};
  for (int k = 0; k < n; ++k) {
    std::string f, name;
    bool exists = true;
    {
      vf::Quiet q;
      name = "d" + std::to_string(k) + ".toml";
      cfg::V v = cfg::table(r, 2, true, true);
      cfg::Render R(r);
      std::string orig = R.doc(v);
      if (orig.size() > 2000 && r.chance(80)) { k--; continue; }
      f = damage(r, orig, "[]{}=\"'#,.\n\r\t \\_-+0123456789abtfeEnu\xc3\xa9", orig.size());
      spit(name, f);
      if (r.chance(3)) { std::string m; missing(r, ".toml", m); exists = false; name = m; }
      vf::op("load damaged configuration", "%zu bytes of %zu, hash %zx", f.size(), orig.size(), std::hash<std::string>()(f));
    }
    watch();
    il::Status s{}; vf::used(s);
    MA m = il::load<MA>(N(name), il::io, s);
    bool good = s.Ok();
    bounded(f.size());
    VF_CHECK(!good || exists, "accepted-missing", "loading %s reports success", name.c_str());
    vf::event(good ? "accepted" : "reported");
    vf::Quiet q;
    if (exists) { fprintf(list, "%s %s\n", name.c_str(), good ? repMap(m).c_str() : "error"); docs.push_back(f); got.push_back(good ? repMap(m) : "error"); }
    std::string().swap(f); std::string().swap(name);
  }
  vf::Quiet q;
  fclose(list); list = nullptr;
  spit("judge.py", kJudge);
  vf::op("tomllib reads them");
  int st = system("/usr/bin/python3 judge.py >verdict.txt 2>py.err");
  int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 255;
  std::string out = slurp("verdict.txt");
  if (rc != 0) { std::string e = slurp("py.err"); vf::event("tomllib-unavailable"); std::vector<std::string>().swap(docs); std::vector<std::string>().swap(got); return; }
  size_t at = 0;
  for (size_t k = 0; k < docs.size(); ++k) {
    size_t e = out.find('\n', at);
    std::string line = out.substr(at, e - at);
    at = e + 1;
    if (line.compare(0, 6, "differ") == 0) vf::fail("content", "a document is read as other data than it holds: %s -- %s", cfg::show(docs[k].substr(0, 1500)).c_str(), line.substr(0, 300).c_str());
    if (line.compare(0, 3, "bad") == 0) {
      vf::event("lenient");
    }
    vf::event(line.substr(0, line.find(' ')).c_str());
  }
  std::vector<std::string>().swap(docs); std::vector<std::string>().swap(got);
}
#endif

#if VF_PART == 3
// ---- faults while writing ------------------------------------------------------
static bool limited(size_t n) { struct rlimit l; getrlimit(RLIMIT_FSIZE, &l); l.rlim_cur = n; return setrlimit(RLIMIT_FSIZE, &l) == 0; }
static void unlimited() { struct rlimit l; getrlimit(RLIMIT_FSIZE, &l); l.rlim_cur = l.rlim_max; setrlimit(RLIMIT_FSIZE, &l); }
struct Limit { Limit(long n) { if (n >= 0) limited((size_t)n); } ~Limit() { unlimited(); } };
static bool saveAny(int kind, uint64_t seed, const std::string& name) {
  Rng r(seed);
  il::Status s{}; vf::used(s);
  switch (kind) {
    case 0: { il::Array<double> a{r.chance(20) ? r.range(400, 3000) : r.size(40), 1.0}; il::save(a, N(name), il::io, s); break; }
    case 1: { const bool big = r.chance(20); il::Array2D<int> a{big ? r.range(1, 2000) : r.size(9), big ? r.range(1, 6) : r.size(9)}; if (big && r.chance(50)) a.Reserve(a.size(0) + r.below(9), a.size(1)); for (il::int_t j = 0; j < a.size(1); ++j) for (il::int_t i = 0; i < a.size(0); ++i) a(i, j) = (int)r.below(9); il::save(a, N(name), il::io, s); break; }
    case 2: { pk::V v; { vf::Quiet q; v = pk::map(r, 2, true); } pk::MA m{}; pk::fill(r, v, m); il::save(m, N(name), il::io, s); vf::Quiet q; v = pk::V(); break; }
    case 3: { MA_: cfg::MA m{}; int n = (int)(r.chance(8) ? r.range(100, 300) : r.range(0, 12)); for (int i = 0; i < n; ++i) { std::string k = "key" + std::to_string(i); if (r.chance(30)) { cfg::MA t{}; t.Set(N("a"), il::Dynamic{r.sym()}); m.Set(N(k), il::Dynamic{std::move(t)}); } else m.Set(N(k), il::Dynamic{r.sym()}); vf::Quiet q; std::string().swap(k); } il::save(m, N(name), il::io, s); break; }
    default: {
      bool good = true;
      {
        il::Status s0{}; vf::used(s0);
        il::File f{N(name), il::FileMode::Write, il::io, s0};
        good = s0.Ok();
        if (good) {
          int n = (int)r.range(0, 6);
          for (int i = 0; i < n; ++i) {
            static char b[9000];
            int m = (int)r.below(r.chance(12) ? 9000 : 400);
            for (int k = 0; k < m; ++k) b[k] = (char)r.below(256);
            il::Status s1{}; vf::used(s1);
            f.Write(b, m, 1, il::io, s1);
            good = s1.Ok() && good;
          }
          il::Status s2{}; vf::used(s2);
          f.Close(il::io, s2);
          good = s2.Ok() && good;
        }
      }
      s.SetOk(); s.IgnoreError();
      return good;
    }
  }
  return s.Ok();
}
// ---- what no reader or writer exists for ----------------------------------------
template <typename T> static void none(Rng& r, const char* what, const T& v, const std::string& name) {
  std::string o("opt");
  const int how = (int)r.below(name == "u.npy" && what[0] == 'a' ? 1 : name == "u.png" && what[0] == 'n' && what[3] == 'e' ? 2 : 4);
  vf::op("no such format", "%s, %s, way %d", what, name.c_str(), how);
  il::Status s{}; vf::used(s);
  bool ok;
  if (how == 0) il::save(v, N(name), il::io, s);
  else if (how == 1) { il::Array<il::String> opt{}; opt.Append(N(o)); il::save(v, opt, N(name), il::io, s); }
  else { T x = il::load<T>(N(name), il::io, s); (void)x; }
  ok = s.Ok();
  VF_CHECK(!ok, "unsupported-accepted", "%s a %s as %s reports success", how < 2 ? "saving" : "loading", what, name.c_str());
  VF_CHECK((int)s.error() == (int)il::Error::Unimplemented || (int)s.error() == (int)il::Error::Undefined || how >= 2, "unsupported-error", "error %d", (int)s.error());
  vf::event("unsupported-reported");
  if (how > 1 && r.chance(30)) {  // the same name again with the same status
    T x = il::load<T>(N(name), il::io, s); (void)x;
    ok = s.Ok();
    VF_CHECK(!ok, "unsupported-accepted", "loading a %s again as %s reports success", what, name.c_str());
  }
}
static void unsupported(Rng& r) {
  static const char* const other[] = {"u.txt", "u", "unpy", "u.npy.bak", "u.Npy", "u.npy ", "u.png", "u.tom", "u.data.gz", "u.", "toml", "u.csv"};
  std::string name;
  const int kind = (int)r.below(5);
  {
    vf::Quiet q;
    name = r.pick(other);
    if (kind == 0 && r.chance(50)) name = r.chance(50) ? "u.toml" : "u.data";
    if (kind == 1 && r.chance(50)) name = "u.npy";
    if (kind >= 2 && r.chance(60)) name = r.pick({"u.toml", "u.data", "u.npy"});
    if (r.chance(60)) {  // the file is there, and some format reads it
      static const std::string npyFile = [] { il::Array<double> a{3, 1.0}; std::string n("made.npy"); il::Status s{}; il::save(a, N(n), il::io, s); s.AbortOnError(); return slurp(n); }();
      spit(name, r.chance(60) ? npyFile : r.chance(50) ? "a = 1\n" : "");
    } else unlink(name.c_str());
  }
  switch (kind) {
    case 0: if (r.chance(50)) { il::Array<double> a{4, 1.0}; none(r, "numeric vector", a, name); } else { il::Array2D<int> a{2, 3, 1}; none(r, "numeric matrix", a, name); } break;
    case 1: { cfg::MA m{}; m.Set(il::String{"a"}, il::Dynamic{1.0}); none(r, "map", m, name); break; }
    case 2: if (r.chance(50)) none(r, "number", (il::int_t)3, name); else none(r, "float", 2.5, name); break;
    case 3: { vf::Quiet q; name = "u.npy"; } if (r.chance(50)) { il::Array<short> a{3, 1}; none(r, "array of short integers", a, name); } else { il::Array2D<unsigned char> a{2, 2, 1}; none(r, "array of bytes", a, name); } break;
    default: none(r, "text", il::String{"some text"}, name);
  }
  vf::Quiet q; unlink(name.c_str()); std::string().swap(name);
}
static void writing(Rng& r) {
  static const char* ext[] = {".npy", ".npy", ".data", ".toml", ".bin"};
  static int once = ({ for (const char* e : ext) { std::string f = std::string("full") + e, d = std::string("dir") + e; if (symlink("/dev/full", f.c_str())) {} mkdir(d.c_str(), 0700); } signal(SIGXFSZ, SIG_IGN); 0; });
  (void)once;
  int kind = (int)r.below(5);
  uint64_t seed = r.next();
  std::string name, ref, whole;
  { vf::Quiet q; name = std::string("w") + ext[kind]; ref = std::string("ref") + ext[kind]; }
  vf::op("save", "kind %d seed %llx", kind, (unsigned long long)seed);
  bool good = saveAny(kind, seed, ref);
  VF_CHECK(good, "save", "saving fails without a fault");
  { vf::Quiet q; whole = slurp(ref); }
  int how = (int)r.below(6);
  if (how == 0) { vf::Quiet q; name = std::string("full") + ext[kind]; }
  if (how == 1) { vf::Quiet q; name = std::string("no/where") + ext[kind]; }
  if (how == 2) { vf::Quiet q; name = std::string("dir") + ext[kind]; }
  long lim = how < 3 ? -1 : (long)r.below((int64_t)whole.size() + 2);
  if (r.chance(50) && how >= 3) unlink(name.c_str());
  vf::op("save with a fault", "place %d limit %ld of %zu", how, lim, whole.size());
  { Limit l(lim); good = saveAny(kind, seed, name); }
  vf::Quiet q;
  if (how < 3) VF_CHECK(!good || (how == 0 && whole.empty()), "silent-failure", "saving to %s reports success", name.c_str());
  else {
    bool full = slurp(name) == whole;
    VF_CHECK(!good || full, "silent-failure", "saving reports success, the file holds %zu of %zu bytes", slurp(name).size(), whole.size());
    VF_CHECK(good || lim < (long)whole.size(), "false-failure", "saving a file of %zu bytes with room for %ld reports an error", whole.size(), lim);
    vf::event("partial-write");
    if (whole.size() > 9000 && !good) vf::event("partial-large-write");
  }
  vf::event(good ? "success" : "reported");
  std::string().swap(whole); std::string().swap(name); std::string().swap(ref);
}
#endif

void vf_case(Rng& r, uint64_t) {
#if VF_PART == 0
  int n = (int)r.range(1, 4);
  for (int i = 0; i < n; ++i) {
    if (r.chance(10)) {
      { vf::Quiet q; sparse(r); }
      vf::op("load sparse");
      watch();
      il::Status s{}; vf::used(s);
      std::string sname{"s"};
      auto A = il::load<il::SparseMatrixCSR<il::int_t, double>>(sname, il::io, s);
      bool ok = s.Ok();
      bounded(20000, 3l << 31);
      if (ok) {
        // what is called a sparse matrix must be one
        const il::int_t n0 = A.size(0), n1 = A.size(1);
        VF_CHECK(A.row(0) == 0, "sparse-rows", "a sparse matrix whose first row starts at %ld loads", (long)A.row(0));
        for (il::int_t i = 0; i < n0; ++i) VF_CHECK(A.row(i) <= A.row(i + 1), "sparse-rows", "a sparse matrix whose rows overlap loads");
        for (il::int_t k = 0; k < A.row(n0); ++k) VF_CHECK(A.column(k) >= 0 && A.column(k) < n1 && A[k] == A[k], "sparse-columns", "a sparse matrix with the column %ld of %ld loads", (long)A.column(k), (long)n1);
        vf::event("sparse-accepted");
      } else vf::event("sparse-reported");
    }
    std::string f, orig, name = "x.npy";
    bool exists = true;
    int t = (int)r.below(4);
    {
      vf::Quiet q;
      orig = good(r, t);
      size_t head = orig.size();
      npy::Parsed p = npy::parse(orig, true);
      if (p.error.empty()) head = p.data;
      f = r.chance(5) ? orig : damage(r, orig, "0123456789(),': {}TrueFals<>|=if48", head);
      if (r.chance(10)) t = (int)r.below(4);
      spit(name, f);
      if (r.chance(4)) { missing(r, ".npy", name); exists = false; f.clear(); }
      vf::op("damaged numpy file", "%zu bytes of %zu, hash %zx", f.size(), orig.size(), std::hash<std::string>()(f));
    }
    any(r, t, name, f, orig, exists);
    vf::Quiet q; std::string().swap(f); std::string().swap(orig); std::string().swap(name);
  }
#elif VF_PART == 1
  int n = (int)r.range(1, 4);
  for (int i = 0; i < n; ++i) { int c = (int)r.below(10); if (c < 5) pack(r); else if (c < 9) image(r); else raw(r); }
#elif VF_PART == 2
  int n = 1;
  configs(r);
#else
  int n = (int)r.range(1, 5);
  for (int i = 0; i < n; ++i) if (r.chance(15)) unsupported(r); else writing(r);
#endif
  vf::nontrivial();
  vf::event("operations");
  if (vf::wantSample()) vf::sample(vf::fmt("%d files", n));
}
