// I01: numpy files. Every file written by the library is read by an independent strict reader of
// the npy format; files written by an independent writer are loaded; some cases exchange files
// with numpy itself (python3-vt), in both directions.
#include "vfil.h"
#include "npyref.h"
#include <il/numpy.h>
#include <sys/wait.h>
using vf::Rng;

template <typename T> struct Dt;
template <> struct Dt<int> { static const char* d() { return "i4"; } };
template <> struct Dt<double> { static const char* d() { return "f8"; } };
template <> struct Dt<float> { static const char* d() { return "f4"; } };
template <> struct Dt<long> { static const char* d() { return "i8"; } };

template <typename T> static T rnd(Rng& r) {
  T x;
  uint64_t b = r.next();
  switch (r.below(4)) {
    case 0: return (T)r.range(-3, 3);
    case 1: memset(&x, r.chance(50) ? 0xff : 0x80, sizeof x); return x;
    default: memcpy(&x, &b, sizeof x); return x;
  }
}
static il::String ilName(const std::string& s) { return il::String{il::StringType::Byte, s.data(), (il::int_t)s.size()}; }
static void ok(il::Status& s, const char* what) {
  bool good = s.Ok();
  VF_CHECK(good, what, "%s reports error %d", what, (int)s.error());
}
template <typename T>
static void sameFile(const std::string& name, const std::vector<long>& shape, const std::vector<T>& want, bool fortran) {
  vf::Quiet q;
  std::string bytes = npy::slurp(name);
  npy::Parsed p = npy::parse(bytes);
  VF_CHECK(p.error.empty(), "malformed-file", "the file written is not a numpy file: %s", p.error.c_str());
  VF_CHECK(p.descr.substr(1) == Dt<T>::d() && (p.descr[0] == '<' || p.descr[0] == '|'), "type", "the file says %s, the elements are %s", p.descr.c_str(), Dt<T>::d());
  VF_CHECK(p.shape == shape, "shape", "the file has rank %zu, first extent %ld", p.shape.size(), p.shape.empty() ? -1 : p.shape[0]);
  VF_CHECK(shape.size() < 2 || p.fortran == fortran || shape[0] <= 1 || shape[1] <= 1, "order", "the file says fortran_order %d", (int)p.fortran);
  VF_CHECK(bytes.size() == p.data + want.size() * sizeof(T), "length", "the file has %zu bytes of data, the array %zu", bytes.size() - p.data, want.size() * sizeof(T));
  VF_CHECK(want.empty() || memcmp(bytes.data() + p.data, want.data(), want.size() * sizeof(T)) == 0, "file-content", "the data in the file are not the elements of the array");
  vf::event("files-parsed");
}
template <typename T> static il::Array<T> makeArray(Rng& r, std::vector<T>& w) {
  il::int_t n = r.chance(1) ? r.range(2000, 60000) : r.size(300);
  il::Array<T> a;
  int how = (int)r.below(3);
  if (how == 0) a = il::Array<T>{n};
  else if (how == 1) { il::Array<T> b{n, il::align, 64}; a = std::move(b); vf::event("aligned"); }
  else { a.Reserve(n + r.range(0, 20)); a.Resize(n); vf::event("spare-capacity"); }
  vf::Quiet q;
  w.resize((size_t)n);
  for (il::int_t i = 0; i < n; ++i) { w[(size_t)i] = rnd<T>(r); memcpy(a.Data() + i, &w[(size_t)i], sizeof(T)); }
  return a;
}
template <typename T> static il::Array2D<T> makeArray2D(Rng& r, std::vector<T>& w, il::int_t& n0, il::int_t& n1) {
  n0 = r.size(40); n1 = r.size(40);
  if (r.chance(1)) { n0 = r.range(1, 400); n1 = r.range(1, 300); }
  il::Array2D<T> a;
  int how = (int)r.below(3);
  if (how == 0) a = il::Array2D<T>{n0, n1};
  else if (how == 1) { il::Array2D<T> b{n0, n1, il::align, 32}; a = std::move(b); vf::event("padded"); }
  else { a.Reserve(n0 + r.range(0, 5), n1 + r.range(0, 5)); a.Resize(n0, n1); vf::event("padded"); }
  vf::Quiet q;
  for (il::int_t j = 0; j < n1; ++j) for (il::int_t i = 0; i < n0; ++i) { T x = rnd<T>(r); w.push_back(x); memcpy(&a(i, j), &x, sizeof x); }
  return a;
}
template <typename T> static void sameArray(const il::Array<T>& b, const std::vector<T>& w, const char* who) {
  VF_CHECK(b.size() == (il::int_t)w.size(), "size", "%s has %ld elements instead of %zu", who, (long)b.size(), w.size());
  for (size_t i = 0; i < w.size(); ++i) VF_CHECK(memcmp(&b[(il::int_t)i], &w[i], sizeof(T)) == 0, "element", "%s: element %zu has other bits", who, i);
  vf::event("elements", w.size());
}
template <typename T> static void sameArray2D(const il::Array2D<T>& b, const std::vector<T>& w, il::int_t n0, il::int_t n1, const char* who) {
  VF_CHECK(b.size(0) == n0 && b.size(1) == n1, "size", "%s is %ld x %ld instead of %ld x %ld", who, (long)b.size(0), (long)b.size(1), (long)n0, (long)n1);
  for (il::int_t j = 0; j < n1; ++j) for (il::int_t i = 0; i < n0; ++i) VF_CHECK(memcmp(&b(i, j), &w[(size_t)(j * n0 + i)], sizeof(T)) == 0, "element", "%s: element (%ld,%ld) has other bits", who, (long)i, (long)j);
  vf::event("elements", w.size());
}
template <typename T> static void roundTrip(Rng& r) {
  const std::string name = "a" + std::to_string(r.below(3)) + ".npy";
  const bool stdname = r.chance(30);
  if (r.chance(50)) {
    std::vector<T> w;
    il::Array<T> a = makeArray<T>(r, w);
    vf::op("save vector", "%s n=%zu", Dt<T>::d(), w.size());
    il::Status s{}; vf::used(s);
    il::save(a, ilName(name), il::io, s);
    ok(s, "save");
    sameArray(a, w, "the saved array");
    sameFile<T>(name, {(long)w.size()}, w, true);
    vf::op("load vector", "%s", Dt<T>::d());
    il::Status s2{}; vf::used(s2);
    il::Array<T> b = stdname ? il::load<il::Array<T>>(name, il::io, s2) : il::load<il::Array<T>>(ilName(name), il::io, s2);
    ok(s2, "load");
    sameArray(b, w, "the loaded array");
    vf::event("vector-round-trip");
  } else {
    std::vector<T> w;
    il::int_t n0, n1;
    il::Array2D<T> a = makeArray2D<T>(r, w, n0, n1);
    vf::op("save matrix", "%s %ldx%ld capacity %ldx%ld", Dt<T>::d(), (long)n0, (long)n1, (long)a.capacity(0), (long)a.capacity(1));
    il::Status s{}; vf::used(s);
    il::save(a, ilName(name), il::io, s);
    ok(s, "save");
    sameArray2D(a, w, n0, n1, "the saved matrix");
    sameFile<T>(name, {(long)n0, (long)n1}, w, true);
    vf::op("load matrix", "%s", Dt<T>::d());
    il::Status s2{}; vf::used(s2);
    il::Array2D<T> b = stdname ? il::load<il::Array2D<T>>(name, il::io, s2) : il::load<il::Array2D<T>>(ilName(name), il::io, s2);
    ok(s2, "load");
    sameArray2D(b, w, n0, n1, "the loaded matrix");
    vf::event("matrix-round-trip");
  }
}
// files as numpy writes them, by an independent writer
template <typename T> static void foreign(Rng& r) {
  const std::string name = "f.npy";
  std::vector<T> w;
  if (r.chance(50)) {
    { vf::Quiet q; long n = r.chance(1) ? r.range(2000, 60000) : r.size(500); for (long i = 0; i < n; ++i) w.push_back(rnd<T>(r)); npy::spit(name, npy::file(r, std::string("<") + Dt<T>::d(), {n}, r.chance(30), w.data(), w.size() * sizeof(T))); }
    vf::op("load foreign vector", "%s n=%zu", Dt<T>::d(), w.size());
    if (r.chance(30)) chmod(name.c_str(), 0444);
    il::Status s{}; vf::used(s);
    il::Array<T> b = il::load<il::Array<T>>(ilName(name), il::io, s);
    ok(s, "load-foreign");
    sameArray(b, w, "the loaded array");
    vf::Quiet q; w.clear(); w.shrink_to_fit();
  } else {
    long n0, n1;
    { vf::Quiet q; n0 = r.size(40); n1 = r.size(40); for (long i = 0; i < n0 * n1; ++i) w.push_back(rnd<T>(r)); npy::spit(name, npy::file(r, std::string("<") + Dt<T>::d(), {n0, n1}, true, w.data(), w.size() * sizeof(T))); }
    vf::op("load foreign matrix", "%s %ldx%ld", Dt<T>::d(), n0, n1);
    il::Status s{}; vf::used(s);
    il::Array2D<T> b = il::load<il::Array2D<T>>(ilName(name), il::io, s);
    ok(s, "load-foreign");
    sameArray2D(b, w, n0, n1, "the loaded matrix");
    // the same element count in C order must not be taken for Fortran order
    if (n0 > 1 && n1 > 1) {
      { vf::Quiet q; npy::spit(name, npy::file(r, std::string("<") + Dt<T>::d(), {n0, n1}, false, w.data(), w.size() * sizeof(T))); }
      vf::op("load row-major matrix", "%ldx%ld", n0, n1);
      il::Status s2{}; vf::used(s2);
      il::Array2D<T> c = il::load<il::Array2D<T>>(ilName(name), il::io, s2);
      if (s2.Ok()) for (long i = 0; i < n0; ++i) for (long j = 0; j < n1; ++j) VF_CHECK(memcmp(&c(i, j), &w[(size_t)(i * n1 + j)], sizeof(T)) == 0, "row-major", "a row-major file loads with elements at wrong places");
      vf::event("row-major-file");
    }
    vf::Quiet q; w.clear(); w.shrink_to_fit();
  }
  unlink(name.c_str());
  vf::event("foreign-file");
}
static int sh(const char* prog) {
  vf::Quiet q;
  int st = system(prog);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 255;
}
// numpy itself writes the files / reads them
template <typename T> static void numpyReads(Rng& r, FILE* list, int k) {
  std::string name = "n" + std::to_string(k) + ".npy";
  std::vector<T> w;
  il::Status s{}; vf::used(s);
  if (r.chance(50)) { il::Array<T> a = makeArray<T>(r, w); il::save(a, ilName(name), il::io, s); ok(s, "save"); fprintf(list, "%s %s %zu -1", name.c_str(), Dt<T>::d(), w.size()); }
  else { il::int_t n0, n1; il::Array2D<T> a = makeArray2D<T>(r, w, n0, n1); il::save(a, ilName(name), il::io, s); ok(s, "save"); fprintf(list, "%s %s %ld %ld", name.c_str(), Dt<T>::d(), (long)n0, (long)n1); }
  fprintf(list, " h");
  const unsigned char* p = (const unsigned char*)w.data();
  for (size_t i = 0; i < w.size() * sizeof(T); ++i) fprintf(list, "%02x", p[i]);
  fprintf(list, "\n");
  vf::Quiet q; std::vector<T>().swap(w);
}
static const char* kReader =
"import sys, numpy as np\n"
"n = 0\n"
"for line in open('list.txt'):\n"
"    name, d, n0, n1, h = line.split()\n"
"    raw = bytes.fromhex(h[1:])\n"
"    a = np.load(name, allow_pickle=False)\n"
"    shape = (int(n0),) if n1 == '-1' else (int(n0), int(n1))\n"
"    assert a.dtype == np.dtype('<' + d), (name, a.dtype, d)\n"
"    assert a.shape == shape, (name, a.shape, shape)\n"
"    assert a.tobytes(order='F') == raw, name\n"
"    n += 1\n"
"assert n > 0\n";
static const char* kWriter =
"import sys, numpy as np\n"
"seed = int(sys.argv[1]); rng = np.random.default_rng(seed)\n"
"out = open('list.txt', 'w')\n"
"for k in range(24):\n"
"    d = ['i4', 'f8', 'f4', 'i8'][k % 4]\n"
"    if rng.random() < 0.5:\n"
"        shape = (int(rng.integers(0, 200)),)\n"
"    else:\n"
"        shape = (int(rng.integers(2, 30)), int(rng.integers(2, 30)))\n"
"    raw = rng.bytes(int(np.prod(shape)) * int(d[1]))\n"
"    a = np.frombuffer(raw, dtype='<' + d).reshape(shape, order='F')\n"
"    np.save('m%d.npy' % k, a)\n"
"    out.write('m%d.npy %s %d %d h%s\\n' % (k, d, shape[0], -1 if len(shape) == 1 else shape[1], raw.hex()))\n";
template <typename T> static void numpyWrote(const char* name, long n0, long n1, const std::string& raw) {
  std::vector<T> w;
  { vf::Quiet q; w.resize(raw.size() / sizeof(T)); if (!w.empty()) memcpy(w.data(), raw.data(), raw.size()); }
  il::Status s{}; vf::used(s);
  if (n1 < 0) { il::Array<T> a = il::load<il::Array<T>>(ilName(name), il::io, s); ok(s, "load-numpy"); sameArray(a, w, "the array numpy wrote"); }
  else { il::Array2D<T> a = il::load<il::Array2D<T>>(ilName(name), il::io, s); ok(s, "load-numpy"); sameArray2D(a, w, n0, n1, "the matrix numpy wrote"); }
  vf::Quiet q; std::vector<T>().swap(w);
}
static void interop(Rng& r) {
  if (r.chance(50)) {
    FILE* f = fopen("list.txt", "w");
    struct C { FILE* f; ~C() { if (f) fclose(f); } } c{f};
    vf::op("save for numpy");
    for (int k = 0; k < 24; ++k) switch (k % 4) { case 0: numpyReads<int>(r, f, k); break; case 1: numpyReads<double>(r, f, k); break; case 2: numpyReads<float>(r, f, k); break; default: numpyReads<long>(r, f, k); }
    fclose(f); c.f = nullptr;
    { vf::Quiet q; npy::spit("reader.py", kReader); }
    vf::op("numpy loads");
    int rc = sh("python3-vt reader.py >/dev/null 2>numpy.err");
    if (rc == 127) { vf::event("numpy-unavailable"); return; }
    vf::Quiet q;
    VF_CHECK(rc == 0, "numpy-rejects", "numpy does not read back what was saved: %s", npy::slurp("numpy.err").c_str());
    vf::event("files-read-by-numpy", 24);
  } else {
    { vf::Quiet q; npy::spit("writer.py", kWriter); }
    vf::op("numpy saves");
    std::string cmd;
    { vf::Quiet q; cmd = "python3-vt writer.py " + std::to_string(r.below(1000000)) + " >/dev/null 2>numpy.err"; }
    int rc = sh(cmd.c_str());
    { vf::Quiet q; std::string().swap(cmd); }
    if (rc != 0) { vf::event("numpy-unavailable"); return; }
    std::string text;
    { vf::Quiet q; text = npy::slurp("list.txt"); }
    size_t at = 0;
    while (at < text.size()) {
      std::string line, raw;
      char name[64], d[8];
      long n0, n1;
      int used = 0;
      {
        vf::Quiet q;
        size_t e = text.find('\n', at);
        line = text.substr(at, e - at);
        at = e + 1;
        if (sscanf(line.c_str(), "%63s %7s %ld %ld h%n", name, d, &n0, &n1, &used) < 4) break;
        for (size_t i = (size_t)used; i + 1 < line.size(); i += 2) raw += (char)strtol(line.substr(i, 2).c_str(), nullptr, 16);
      }
      vf::op("load what numpy wrote", "%s %s %ld %ld", name, d, n0, n1);
      std::string dd = d;
      if (dd == "i4") numpyWrote<int>(name, n0, n1, raw); else if (dd == "f8") numpyWrote<double>(name, n0, n1, raw); else if (dd == "f4") numpyWrote<float>(name, n0, n1, raw); else numpyWrote<long>(name, n0, n1, raw);
      vf::event("files-written-by-numpy");
      vf::Quiet q; std::string().swap(line); std::string().swap(raw);
    }
    vf::Quiet q; std::string().swap(text);
  }
}
// three vectors make a sparse matrix
static void sparse(Rng& r) {
  long n = r.size(12);
  std::vector<long> row, col;
  std::vector<double> el;
  {
    vf::Quiet q;
    row.push_back(0);
    for (long i = 0; i < n; ++i) {
      for (long j = 0; j < n; ++j) if (r.chance(30)) { col.push_back(j); el.push_back(rnd<double>(r)); }
      row.push_back((long)col.size());
    }
    const bool fo = r.chance(50);
    npy::spit("s.row", npy::file(r, "<i8", {n + 1}, fo, row.data(), row.size() * 8));
    npy::spit("s.column", npy::file(r, "<i8", {(long)col.size()}, fo, col.data(), col.size() * 8));
    npy::spit("s.element", npy::file(r, "<f8", {(long)el.size()}, fo, el.data(), el.size() * 8));
  }
  vf::op("load sparse", "n=%ld nnz=%zu", n, col.size());
  {
    il::Status s{}; vf::used(s);
    auto A = il::load<il::SparseMatrixCSR<il::int_t, double>>(std::string{"s"}, il::io, s);
    ok(s, "load-sparse");
    VF_CHECK(A.size(0) == n && A.size(1) == n, "sparse-size", "the sparse matrix is %ld x %ld", (long)A.size(0), (long)A.size(1));
    for (long i = 0; i <= n; ++i) VF_CHECK(A.row(i) == row[(size_t)i], "sparse-row", "row %ld", i);
    for (size_t k = 0; k < col.size(); ++k) VF_CHECK(A.column((long)k) == col[k] && memcmp(&A[(il::int_t)k], &el[k], 8) == 0, "sparse-entry", "entry %zu", k);
    vf::event("sparse-loaded");
  }
  unlink("s.row"); unlink("s.column"); unlink("s.element");
  vf::Quiet q; std::vector<long>().swap(row); std::vector<long>().swap(col); std::vector<double>().swap(el);
}
void vf_case(Rng& r, uint64_t idx) {
  (void)idx;
  if (r.chance(1) && r.chance(60)) { interop(r); vf::nontrivial(); return; }
  int n = (int)r.range(1, 4);
  for (int k = 0; k < n; ++k) {
    switch (r.below(11)) {
      case 0: case 1: roundTrip<int>(r); break;
      case 2: case 3: roundTrip<double>(r); break;
      case 4: foreign<int>(r); break;
      case 5: roundTrip<float>(r); break;
      case 6: roundTrip<long>(r); break;
      case 7: foreign<float>(r); break;
      case 8: foreign<long>(r); break;
      case 9: sparse(r); break;
      default: foreign<double>(r);
    }
    vf::event("operations");
    vf::nontrivial();
  }
  if (vf::wantSample()) vf::sample(vf::fmt("%d save/load exchanges", n));
}
