// D02: il::Status against a state machine (set / examined / moved, with the reports expected in
// checked builds) and il::Info against an insertion table.
#define VF_TRAP_ABORT
#include "vfil.h"
#include <il/Status.h>
#include <il/Info.h>
#include <sys/wait.h>
using vf::Rng;

struct Val { int type; long i; double d; std::string s; };  // 0 integer, 1 double, 2 string
typedef std::map<std::string, Val> Rec;
static const il::Error kErr[] = {il::Error::FilesystemFileNotFound, il::Error::FilesystemDirectoryNotFound, il::Error::FilesystemNoReadAccess, il::Error::FilesystemNoWriteAccess,
  il::Error::FilesystemCanNotCloseFile, il::Error::FilesystemCanNotWriteToFile, il::Error::FilesystemFileNotLongEnough, il::Error::BinaryFileWrongFormat, il::Error::BinaryFileWrongType,
  il::Error::BinaryFileWrongRank, il::Error::BinaryFileWrongEndianness, il::Error::ParseBool, il::Error::ParseNumber, il::Error::ParseInt, il::Error::ParseIntOverflow, il::Error::ParseInteger,
  il::Error::ParseIntegerOverflow, il::Error::ParseFloat, il::Error::ParseDouble, il::Error::ParseString, il::Error::ParseUnclosedArray, il::Error::ParseUnidentifiedTrailingCharacter,
  il::Error::ParseCanNotDetermineType, il::Error::ParseHeterogeneousArray, il::Error::ParseArray, il::Error::ParseTable, il::Error::ParseDuplicateKey, il::Error::ParseKey, il::Error::ParseValue,
  il::Error::OverflowInt, il::Error::OverflowInteger, il::Error::FloatingPointNonNegative, il::Error::FloatingPointPositive, il::Error::FloatingPointNonPositive, il::Error::FloatingPointNegative,
  il::Error::MatrixSingular, il::Error::MatrixEigenValueNoConvergence, il::Error::Unimplemented, il::Error::Undefined};
static const int kNErr = (int)(sizeof kErr / sizeof kErr[0]);
static il::ErrorDomain domainOf(int k) {
  return k < 7 ? il::ErrorDomain::Filesystem : k < 11 ? il::ErrorDomain::Binary : k < 29 ? il::ErrorDomain::Parse : k < 31 ? il::ErrorDomain::Overflow : k < 35 ? il::ErrorDomain::FloatingPoint
         : k < 37 ? il::ErrorDomain::Matrix : k == 37 ? il::ErrorDomain::Unimplemented : il::ErrorDomain::Undefined;
}
static bool g_many = false;  // a record with many names
static std::string key(Rng& r) {
  static const char* k[] = {"a", "ab", "abc", "b", "line", "lines", "source_line", "source_file", "", "x", "a b", "\xc3\xa9", "0123456789012345678901234567890123456789"};
  if (g_many && r.chance(80)) return "name " + std::to_string(r.below(250));
  return k[r.below(13)];
}
static std::string text(Rng& r) {
  std::string s;
  int64_t n = r.chance(40) ? r.range(0, 6) : r.range(0, 60);
  if (r.below(300) == 0) n = r.range(200, 5000);
  for (int64_t i = 0; i < n; ++i) s += (char)r.range(1, 255);
  return s;
}
template <typename I, typename GetI, typename GetD, typename GetS>
static void readAll(const I&, const Rec& w, const char* who, GetI gi, GetD gd, GetS gs) {
  for (auto& e : w) {
    const Val& v = e.second;
    if (v.type == 0) VF_CHECK(gi(e.first.c_str()) == v.i, "integer", "%s: \"%s\" gives %ld, stored %ld", who, e.first.c_str(), (long)gi(e.first.c_str()), v.i);
    else if (v.type == 1) { double d = gd(e.first.c_str()); VF_CHECK(memcmp(&d, &v.d, sizeof d) == 0, "double", "%s: \"%s\" gives %g, stored %g", who, e.first.c_str(), d, v.d); }
    else { const char* c = gs(e.first.c_str()); VF_CHECK(v.s == c, "string", "%s: \"%s\" gives another text than stored", who, e.first.c_str()); }
  }
  vf::event("values-read", w.size());
}
static void sameInfo(const il::Info& f, const Rec& w, const char* who) {
  VF_CHECK(f.isEmpty() == w.empty(), "isEmpty", "%s: isEmpty()=%d with %zu names", who, (int)f.isEmpty(), w.size());
  static const char* k[] = {"a", "ab", "abc", "abcd", "b", "line", "lin", "lines", "source_line", "source_file", "source", "", "x", "a b", "zz", "\xc3\xa9", "0123456789012345678901234567890123456789"};
  for (const char* n : k) {
    il::int_t i = f.search(n);
    auto it = w.find(n);
    VF_CHECK(f.found(i) == (it != w.end()), it == w.end() ? "phantom-name" : "lost-name", "%s: name \"%s\" is %s, the search says %s", who, n, it == w.end() ? "absent" : "present", f.found(i) ? "found" : "not found");
    if (it == w.end()) {
#ifdef VF_CONFIG_DBG
      static int turn = 0;
      if (++turn % 29 == 0) VF_CHECK(VF_ABORTS((void)f.toInteger(n)), "absent-name", "reading the absent name \"%s\" is not reported", n);
#endif
      continue;
    }
    VF_CHECK(f.isInteger(i) == (it->second.type == 0) && f.isDouble(i) == (it->second.type == 1) && f.isString(i) == (it->second.type == 2), "type", "%s: name \"%s\" has a wrong type", who, n);
  }
  readAll(f, w, who, [&](const char* n) { return (long)f.toInteger(n); }, [&](const char* n) { return f.toDouble(n); }, [&](const char* n) { return f.asCString(n); });
}
template <typename O> static void setOne(Rng& r, O setter, Rec& w) {
  std::string k = key(r);
  Val v; v.type = 0; v.i = 0; v.d = 0;
  switch (r.below(4)) {
    case 0: v.i = (int)r.next(); vf::op("Set(int)", "%s %ld", k.c_str(), v.i); setter.i(k.c_str(), (int)v.i); break;
    case 1: v.i = (long)r.next(); vf::op("Set(integer)", "%s %ld", k.c_str(), v.i); setter.l(k.c_str(), v.i); break;
    case 2: { v.type = 1; uint64_t b = r.next(); if (r.chance(50)) v.d = r.sym() * 1e3; else memcpy(&v.d, &b, 8); vf::op("Set(double)", "%s %g", k.c_str(), v.d); setter.d(k.c_str(), v.d); break; }
    default: { v.type = 2; v.s = text(r); vf::op("Set(text)", "%s n=%zu", k.c_str(), v.s.size()); setter.s(k.c_str(), v.s.c_str()); }
  }
  vf::Quiet q;
  vf::event(w.count(k) ? "name-overwritten" : "name-set");
  w[k] = v;
}
template <typename X> struct Setter {
  X& x;
  void i(const char* k, int v) { x.Set(k, v); }
  void l(const char* k, long v) { x.Set(k, (il::int_t)v); }
  void d(const char* k, double v) { x.Set(k, v); }
  void s(const char* k, const char* v) { x.Set(k, v); }
};
template <> struct Setter<il::Status> {
  il::Status& x;
  void i(const char* k, int v) { x.SetInfo(k, v); }
  void l(const char* k, long v) { x.SetInfo(k, (il::int_t)v); }
  void d(const char* k, double v) { x.SetInfo(k, v); }
  void s(const char* k, const char* v) { x.SetInfo(k, v); }
};
static void infos(Rng& r) {
  il::Info* f[3];
  Rec w[3];
  struct G { il::Info** f; ~G() { for (int i = 0; i < 3; ++i) delete f[i]; } } g{f};
  for (int i = 0; i < 3; ++i) f[i] = new il::Info{};
  int steps = (int)r.range(3, 40);
  g_many = r.below(200) == 0;
  struct U { ~U() { g_many = false; } } u;
  if (g_many) { steps = 300; vf::event("many-names"); }
  for (int t = 0; t < steps; ++t) {
    int a = (int)r.below(3), b = (int)r.below(3);
    switch (r.below(12)) {
      default: setOne(r, Setter<il::Info>{*f[a]}, w[a]); break;
      case 6: vf::op("copy", "%d<-%d", a, b); { il::Info* c = new il::Info(*f[b]); delete f[a]; f[a] = c; } { vf::Quiet q; Rec z = w[b]; w[a] = z; } vf::event("info-copy"); break;
      case 7: vf::op(a == b ? "self-assign" : "copy-assign", "%d=%d", a, b); *f[a] = *f[b]; { vf::Quiet q; Rec z = w[b]; w[a] = z; } vf::event("info-assign"); break;
      case 8: if (a == b) break; vf::op("move", "%d<-%d", a, b); { il::Info* c = new il::Info(std::move(*f[b])); delete f[a]; f[a] = c; } { vf::Quiet q; w[a] = w[b]; w[b].clear(); } f[b]->clear(); vf::event("info-move"); break;
      case 9: if (a == b) break; vf::op("move-assign", "%d=%d", a, b); *f[a] = std::move(*f[b]); { vf::Quiet q; w[a] = w[b]; w[b].clear(); } f[b]->clear(); vf::event("info-move"); break;
      case 10: if (r.chance(40)) { vf::op("clear", "%d", a); f[a]->clear(); vf::Quiet q; w[a].clear(); } break;
    }
    for (int i = 0; i < 3; ++i) sameInfo(*f[i], w[i], i == a ? "the record" : "another record");
    vf::event("operations");
  }
  if (vf::wantSample()) vf::sample(vf::fmt("info: %d operations, %zu/%zu/%zu names", steps, w[0].size(), w[1].size(), w[2].size()));
}
static bool destructorReports(il::Status* s) {  // in a child: destroying it must end the process
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 2);
    signal(SIGABRT, SIG_DFL);
    std::set_terminate([] { _exit(55); });
    s->~Status();
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
struct M { bool ok, armed, set; int err; Rec rec; };
static void statuses(Rng& r) {
  const int N = 3;
  il::Status* s[N];
  M m[N];
  bool freed[N] = {false, false, false};
  struct G { il::Status** s; M* m; bool* freed; ~G() { for (int i = 0; i < 3; ++i) if (!freed[i]) { if (m[i].armed) s[i]->IgnoreError(); delete s[i]; } } } g{s, m, freed};
  for (int i = 0; i < N; ++i) { s[i] = new il::Status{}; m[i] = M{true, false, false, -1, {}}; }
  int steps = (int)r.range(4, 40);
  for (int t = 0; t < steps; ++t) {
    int a = (int)r.below(N), b = (int)r.below(N);
    il::Status& x = *s[a];
    M& y = m[a];
    switch (r.below(14)) {
      case 0: case 1: case 2: {
        int e = (int)r.below(kNErr);
        if (y.armed) {
#ifdef VF_CONFIG_DBG
          bool err = r.chance(60);
          vf::op(err ? "SetError over an unexamined status" : "SetOk over an unexamined status", "%d", a);
          VF_CHECK(VF_ABORTS(if (err) x.SetError(kErr[e]); else x.SetOk()), "overwritten", "overwriting a status nobody examined is not reported");
          vf::event("overwrite-reported");
#endif
          break;
        }
        vf::op("SetError", "%d error %d", a, e); x.SetError(kErr[e]); { vf::Quiet q; y.rec.clear(); } y.ok = false; y.armed = true; y.set = true; y.err = e; vf::event("error-set"); break; }
      case 3: if (y.armed) break; vf::op("SetOk", "%d", a); x.SetOk(); y.ok = true; y.armed = true; y.set = true; vf::event("ok-set"); break;
      case 4: case 5: if (y.armed && !y.ok) setOne(r, Setter<il::Status>{x}, y.rec); break;
      case 6: if (y.armed && !y.ok && r.chance(50)) { vf::op("setSource", "%d", a); x.setSource("some/file.h", 12 + t); vf::Quiet q; Val f{2, 0, 0, "some/file.h"}, l{0, 12 + t, 0, ""}; y.rec["source_file"] = f; y.rec["source_line"] = l; } break;
      case 7: case 8:
        if (y.armed) { vf::op("Ok()", "%d", a); bool ok = x.Ok(); VF_CHECK(ok == y.ok, "ok", "Ok()=%d, the status was set to %s", (int)ok, y.ok ? "ok" : "an error"); y.armed = false; vf::event("examined"); }
#ifdef VF_CONFIG_DBG
        else { vf::op("Ok() twice", "%d", a); VF_CHECK(VF_ABORTS(x.Ok()), "examined-twice", "examining a status that was not set again is not reported"); }
#endif
        break;
      case 9: if (y.armed) { vf::op("IgnoreError", "%d", a); x.IgnoreError(); y.armed = false; vf::event("ignored"); } break;
      case 10: if (!y.armed) break; 
        vf::op("AbortOnError", "%d", a);
        { bool ab = VF_ABORTS(x.AbortOnError()); y.armed = false; VF_CHECK(ab == !y.ok, "AbortOnError", "AbortOnError %s on %s", ab ? "ends the process" : "returns", y.ok ? "ok" : "an error"); vf::event("examined"); }
        break;
      case 11: if (!y.armed && y.set) { vf::op("Rearm", "%d", a); x.Rearm(); y.armed = true; vf::event("rearmed"); } break;
      case 12: {  // ownership moves
        if (a == b) break;
        if (!m[b].set) break;
        if (r.chance(50)) {
          if (y.armed) {
#ifdef VF_CONFIG_DBG
            vf::op("move-assign over an unexamined status", "%d=%d", a, b);
            VF_CHECK(VF_ABORTS(x = std::move(*s[b])), "overwritten", "overwriting a status nobody examined is not reported");
            vf::event("overwrite-reported");
#endif
            break;
          }
          vf::op("move-assign", "%d=%d", a, b); x = std::move(*s[b]);
        } else {
          if (y.armed) break;
          vf::op("move", "%d<-%d", a, b); il::Status* c = new il::Status(std::move(*s[b])); delete s[a]; s[a] = c;
        }
        { vf::Quiet q; M z = m[b]; m[a] = z; }
        m[a].armed = true; m[b].armed = false;
        vf::event("status-moved");
        break; }
      default:
#ifdef VF_CONFIG_DBG
        if (r.chance(3)) {
          vf::op(y.armed ? "destroy unexamined" : "destroy examined", "%d", a);
          bool rep = destructorReports(s[a]);
          VF_CHECK(rep == y.armed, "destroyed", "destroying a status that was %sexamined is %sreported", y.armed ? "not " : "", rep ? "" : "not ");
          vf::event(y.armed ? "unexamined-destruction-reported" : "examined-destruction-silent");
        }
#endif
        break;
    }
    for (int i = 0; i < N; ++i) {
      if (!m[i].armed && m[i].set && !m[i].ok) {
        VF_CHECK(s[i]->error() == kErr[m[i].err], "error", "status %d carries error %d, expected %d", i, (int)s[i]->error(), (int)kErr[m[i].err]);
        VF_CHECK(il::domain(s[i]->error()) == domainOf(m[i].err), "domain", "error %d has domain %d", (int)kErr[m[i].err], (int)il::domain(s[i]->error()));
      }
      if (m[i].set && !m[i].ok)
        readAll(*s[i], m[i].rec, "status", [&](const char* n) { return (long)s[i]->toInteger(n); }, [&](const char* n) { return s[i]->toDouble(n); }, [&](const char* n) { return s[i]->asCString(n); });
    }
    vf::event("operations");
  }
  if (vf::wantSample()) vf::sample(vf::fmt("status: %d operations", steps));
}
void vf_case(Rng& r, uint64_t idx) {
  if (idx == 0) {
    for (int i = 0; i < kNErr; ++i) for (int j = 0; j < i; ++j) VF_CHECK(kErr[i] != kErr[j], "same-code", "errors #%d and #%d have the same code %d", i, j, (int)kErr[i]);
    vf::event("error-codes", kNErr);
  }
  if (idx % 2) infos(r); else statuses(r);
  vf::nontrivial();
}
