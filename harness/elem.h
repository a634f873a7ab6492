// Element types used as payloads: Tracked (full lifetime monitor), MoveOnly, and per-type
// value generators.
#ifndef VF_ELEM_H
#define VF_ELEM_H
#include <complex>
#include <unordered_set>
#include "vf.h"

namespace vf {

struct Life {
  std::unordered_set<const void*> live;
  std::string err, errkey;
  uint64_t ctors = 0, dtors = 0, assigns = 0, moves = 0;
  void bad(const char* key, const std::string& m) {
    if (err.empty()) { err = m; errkey = key; }
  }
  void reset() { Quiet q; live.clear(); err.clear(); errkey.clear(); }
};
inline Life& life() { static Life* l = new Life; return *l; }

struct Tracked {
  int64_t v;
  int64_t* heap;  // resource: owned copy of v
  void born(int64_t x) {
    Quiet q;
    Life& l = life();
    ++l.ctors;
    if (!l.live.insert(this).second)
      l.bad("constructed-over-live", "an element is constructed on top of a live element (the old one is never destroyed)");
    v = x;
  }
  bool alive(const char* what) const {
    Quiet q;
    if (life().live.count(this)) return true;
    life().bad("not-alive", std::string(what) + " on storage that holds no live element");
    return false;
  }
  Tracked() { born(-1); heap = new int64_t(-1); }
  Tracked(int64_t x) { born(x); heap = new int64_t(x); }
  Tracked(const Tracked& o) {
    bool ok = o.alive("copy from");
    born(ok ? o.v : -99);
    heap = new int64_t(ok && o.heap ? *o.heap : -99);
  }
  Tracked(Tracked&& o) {
    bool ok = o.alive("move from");
    Life& l = life(); ++l.moves;
    born(ok ? o.v : -99);
    heap = ok ? o.heap : nullptr;
    if (ok) { o.heap = nullptr; o.v = -2; }
  }
  Tracked& operator=(const Tracked& o) {
    ++life().assigns;
    if (!alive("copy assignment to") || !o.alive("copy assignment from")) return *this;
    if (this != &o) {
      v = o.v;
      delete heap;
      heap = new int64_t(o.heap ? *o.heap : -99);
    }
    return *this;
  }
  Tracked& operator=(Tracked&& o) {
    ++life().assigns; ++life().moves;
    if (!alive("move assignment to") || !o.alive("move assignment from")) return *this;
    if (this != &o) {
      v = o.v;
      delete heap;
      heap = o.heap;
      o.heap = nullptr; o.v = -2;
    }
    return *this;
  }
  ~Tracked() {
    bool ok;
    {
      Quiet q;
      Life& l = life();
      ++l.dtors;
      ok = l.live.erase(this) != 0;
      if (!ok) l.bad("destroyed-twice", "destruction of storage that holds no live element");
    }
    if (ok) { delete heap; heap = nullptr; v = -3; }
  }
  int64_t get() const {
    if (!alive("read")) return -98;
    if (!heap) return -97;  // moved-from
    return *heap == v ? v : -96;
  }
};
inline bool operator==(const Tracked& a, const Tracked& b) { return a.get() == b.get(); }

struct MoveOnly {
  Tracked t;
  MoveOnly() : t() {}
  MoveOnly(int64_t x) : t(x) {}
  MoveOnly(const MoveOnly&) = delete;
  MoveOnly& operator=(const MoveOnly&) = delete;
  MoveOnly(MoveOnly&& o) : t(std::move(o.t)) {}
  MoveOnly& operator=(MoveOnly&& o) { t = std::move(o.t); return *this; }
};

// id -> value and back; distinct ids give distinct values
template <typename T> struct El;
template <> struct El<int> {
  static const char* name() { return "int"; }
  static int make(int64_t i) { return (int)i; }
  static int64_t id(int x) { return x; }
};
template <> struct El<long> {
  static const char* name() { return "long"; }
  static long make(int64_t i) { return i * 1000003 + 7; }
  static int64_t id(long x) { return (x - 7) / 1000003; }
};
template <> struct El<double> {
  static const char* name() { return "double"; }
  static double make(int64_t i) { return i + 0.25; }
  static int64_t id(double x) { return x > -1e15 && x < 1e15 && x == std::floor(x) + 0.25 ? (int64_t)std::floor(x) : -77777; }
};
template <> struct El<float> {
  static const char* name() { return "float"; }
  static float make(int64_t i) { return (float)i; }
  static int64_t id(float x) { return x > -1e9f && x < 1e9f ? (int64_t)x : -77777; }
};
template <> struct El<short> {
  static const char* name() { return "short"; }
  static short make(int64_t i) { return (short)(i % 30000); }
  static int64_t id(short x) { return x; }
};
template <> struct El<char> {
  static const char* name() { return "char"; }
  static char make(int64_t i) { return (char)(i % 120); }
  static int64_t id(char x) { return x; }
};
template <> struct El<unsigned char> {
  static const char* name() { return "uchar"; }
  static unsigned char make(int64_t i) { return (unsigned char)(i % 250); }
  static int64_t id(unsigned char x) { return x; }
};
template <> struct El<std::complex<double>> {
  static const char* name() { return "complex"; }
  static std::complex<double> make(int64_t i) { return std::complex<double>((double)i, -(double)i - 1); }
  static int64_t id(const std::complex<double>& z) {
    return z.real() > -1e15 && z.real() < 1e15 && z.imag() == -z.real() - 1 ? (int64_t)z.real() : -77777;
  }
};
template <> struct El<Tracked> {
  static const char* name() { return "tracked"; }
  static Tracked make(int64_t i) { return Tracked(i); }
  static int64_t id(const Tracked& t) { return t.get(); }
};
template <typename T> struct Norm {  // id after storage in a narrow type
  static int64_t n(int64_t i) { return El<T>::id(El<T>::make(i)); }
};
template <> struct Norm<Tracked> {
  static int64_t n(int64_t i) { return i; }
};

inline void lifeCheck() {
  Life& l = life();
  if (!l.err.empty()) {
    std::string k, e;
    { Quiet q; k = l.errkey; e = l.err; l.err.clear(); }
    fail(("lifetime:" + k).c_str(), "%s", e.c_str());
  }
}
inline bool lifeCause(std::string& key, std::string& msg) {
  Life& l = life();
  if (l.err.empty()) return false;
  key = "lifetime:" + l.errkey;
  msg = l.err + " (seen through: " + msg + ")";
  l.err.clear();
  return true;
}
static const bool g_life_cause = (causeOf() = lifeCause, true);
inline void lifeBegin() { life().reset(); }
inline void lifeEnd() {
  lifeCheck();
  size_t n = life().live.size();
  Life& l = life();
  { Quiet q;
    st().events["element_constructions"] += l.ctors;
    st().events["element_destructions"] += l.dtors;
    st().events["element_assignments"] += l.assigns;
    l.ctors = l.dtors = l.assigns = l.moves = 0; }
  if (n) fail("lifetime:never-destroyed", "%zu element(s) are still alive after every container was destroyed", n);
}

}  // namespace vf
#endif
