// A01 / A02: growable one-dimensional arrays against a sequence model.
#include "vfil.h"
#include <il/Array.h>
#include <il/SmallArray.h>
#include <il/StaticArray.h>
#include "elem.h"
using vf::Rng;
typedef std::vector<int64_t> Model;

template <typename T> struct MaxSize { static const int64_t v = 600; };
template <> struct MaxSize<vf::Tracked> { static const int64_t v = 60; };

// now and then a case with large arrays
template <typename T> struct BigSize { static const int64_t v = 140000; };
template <> struct BigSize<vf::Tracked> { static const int64_t v = 3000; };
static bool g_big = false;
template <typename T> static int64_t len(Rng& r) { return g_big && r.chance(70) ? r.mark(BigSize<T>::v) : r.size(MaxSize<T>::v); }

template <typename C, typename T>
void checkState(const C& a, const Model& m, const char* after) {
  vf::lifeCheck();
  VF_CHECK(a.size() == (il::int_t)m.size(), "seq:size", "after %s size is %ld, expected %zu", after, (long)a.size(), m.size());
  VF_CHECK(a.capacity() >= a.size(), "seq:capacity", "after %s capacity %ld < size %ld", after, (long)a.capacity(), (long)a.size());
  il::ArrayView<T> w = a.view();
  VF_CHECK(w.size() == (il::int_t)m.size(), "seq:view-size", "after %s the view has size %ld, expected %zu", after, (long)w.size(), m.size());
  for (size_t i = 0; i < m.size(); ++i) {
    int64_t g = vf::El<T>::id(a[(il::int_t)i]);
    VF_CHECK(g == m[i], "seq:element", "after %s element %zu is %lld, expected %lld (size %zu)", after, i, (long long)g, (long long)m[i], m.size());
    VF_CHECK(&a[(il::int_t)i] == a.data() + i && &w[(il::int_t)i] == a.data() + i, "seq:address", "after %s element %zu is not at data()+%zu", after, i, i);
  }
  if (!m.empty()) VF_CHECK(&a.back() == a.data() + (m.size() - 1), "seq:back", "after %s back() is not the last element", after);
  vf::lifeCheck();
}

// ---- il::Array --------------------------------------------------------------
template <typename T>
struct ArrayCase {
  typedef il::Array<T> C;
  Rng& r;
  C* a[3];
  Model m[3];
  int64_t next = 1;
  int64_t fresh() { return vf::Norm<T>::n(next++); }
  explicit ArrayCase(Rng& r_) : r(r_) { a[0] = a[1] = a[2] = nullptr; }
  ~ArrayCase() { for (int k = 0; k < 3; ++k) delete a[k]; }

  void align(il::int_t& al, il::int_t& ar, il::int_t& am) {
    al = (il::int_t)sizeof(T) << r.below(r.chance(20) ? 8 : 4);
    am = al << r.below(4);
    if (am > 16384) am = 16384;
    if (al > am) al = am;
    ar = al * r.below(am / al);
  }
  void fillFrom(int k, size_t from) {
    for (size_t i = from; i < (size_t)a[k]->size(); ++i) {
      int64_t id = fresh();
      switch (r.below(4)) {
        case 0: (*a[k])[(il::int_t)i] = vf::El<T>::make(id); break;
        case 1: a[k]->Data()[i] = vf::El<T>::make(id); break;
        case 2: *(a[k]->begin() + i) = vf::El<T>::make(id); break;
        default: { il::ArrayEdit<T> e = a[k]->Edit(); e[(il::int_t)i] = vf::El<T>::make(id); }
      }
      if (i < m[k].size()) m[k][i] = id; else m[k].push_back(id);
    }
  }
  void checkAlign(int k, const char* after) {
    il::int_t al = a[k]->alignment();
    if (al > 0 && a[k]->size() > 0)
      VF_CHECK((uintptr_t)a[k]->data() % (uintptr_t)al == 0, "seq:alignment", "after %s data() is not %ld-aligned", after, (long)al);
  }
  void construct(int k);
  void step();
};

template <typename T> struct Trivial { static void alignedCtor(ArrayCase<T>& c, int k, int64_t n) {
  il::int_t al, ar, am;
  c.align(al, ar, am);
  switch (c.r.below(4)) {
    case 0: vf::op("ctor-aligned", "[%d] n=%ld al=%ld", k, (long)n, (long)al);
      c.a[k] = new il::Array<T>(n, il::align, al); c.fillFrom(k, 0); break;
    case 1: vf::op("ctor-aligned-mod", "[%d] n=%ld al=%ld r=%ld mod=%ld", k, (long)n, (long)al, (long)ar, (long)am);
      c.a[k] = new il::Array<T>(n, il::align, al, ar, am);
      if (n > 0) VF_CHECK((uintptr_t)c.a[k]->data() % am == (uintptr_t)ar, "seq:alignment", "data() mod %ld is %ld, requested %ld", (long)am, (long)((uintptr_t)c.a[k]->data() % am), (long)ar);
      c.fillFrom(k, 0); break;
    case 2: { int64_t id = c.fresh(); vf::op("ctor-value-aligned-mod", "[%d] n=%ld al=%ld r=%ld mod=%ld", k, (long)n, (long)al, (long)ar, (long)am);
      c.a[k] = new il::Array<T>(n, vf::El<T>::make(id), il::align, al, ar, am); c.m[k].assign(n, id); break; }
    default: { int64_t id = c.fresh(); vf::op("ctor-value-aligned", "[%d] n=%ld al=%ld", k, (long)n, (long)al);
      c.a[k] = new il::Array<T>(n, vf::El<T>::make(id), il::align, al); c.m[k].assign(n, id); }
  }
  vf::event("aligned");
} };
template <> struct Trivial<vf::Tracked> { static void alignedCtor(ArrayCase<vf::Tracked>& c, int k, int64_t n) {
  int64_t id = c.fresh();
  vf::op("ctor-emplace", "[%d] n=%ld", k, (long)n);
  c.a[k] = new il::Array<vf::Tracked>(n, il::emplace, id); c.m[k].assign(n, id);
} };

template <typename T>
void ArrayCase<T>::construct(int k) {
  delete a[k];
  a[k] = nullptr;
  vf::lifeCheck();
  m[k].clear();
  int64_t n = len<T>(r);
  int o = (k + 1) % 3;
  switch (r.below(8)) {
    case 0: vf::op("ctor-default", "[%d]", k); a[k] = new C; break;
    case 1: vf::op("ctor-n", "[%d] n=%ld", k, (long)n); a[k] = new C(n);
      if (!il::isTrivial<T>::value) m[k].assign(n, -1);
      if (!il::isTrivial<T>::value) checkState<C, T>(*a[k], m[k], "ctor-n");
      fillFrom(k, 0); break;
    case 2: { int64_t id = fresh(); vf::op("ctor-n-x", "[%d] n=%ld", k, (long)n); a[k] = new C(n, vf::El<T>::make(id)); m[k].assign(n, id); break; }
    case 3: { vf::op("ctor-list", "[%d]", k); int64_t x = fresh(), y = fresh(), z = fresh();
      if (r.chance(20)) { a[k] = new C(il::value, std::initializer_list<T>{}); break; }
      a[k] = new C(il::value, {vf::El<T>::make(x), vf::El<T>::make(y), vf::El<T>::make(z)}); m[k] = Model{x, y, z}; break; }
    case 4: case 5: Trivial<T>::alignedCtor(*this, k, n); break;
    case 6: if (a[o]) { vf::op("ctor-copy", "[%d]<-[%d] n=%ld", k, o, (long)a[o]->size()); a[k] = new C(*a[o]); m[k] = m[o]; vf::event("copy"); break; } // fallthrough
    default:
      if (a[o]) {
        if (r.chance(50)) { vf::op("ctor-move", "[%d]<-[%d]", k, o); a[k] = new C(std::move(*a[o])); m[k] = m[o]; m[o].clear(); vf::event("move");
          checkState<C, T>(*a[o], m[o], "move-out"); }
        else { vf::op("ctor-view", "[%d]<-[%d]", k, o); a[k] = new C(a[o]->view()); m[k] = m[o]; }
      } else a[k] = new C;
  }
  checkState<C, T>(*a[k], m[k], "construction");
  checkAlign(k, "construction");
}

template <typename T>
void ArrayCase<T>::step() {
  int k = (int)r.below(3), o = (int)((k + 1 + r.below(2)) % 3);
  C& c = *a[k];
  Model& mm = m[k];
  il::int_t cap = c.capacity();
  const T* p0 = c.data();
  bool stable = false;
  const char* name = "?";
  switch (r.below(20)) {
    case 0: construct(k); return;
    case 1: name = "copy-assign"; vf::op(name, "[%d]=[%d] size %ld cap %ld <- size %ld", k, o, (long)c.size(), (long)cap, (long)a[o]->size());
      stable = a[o]->size() <= cap && cap > 0 && c.alignment() == 0 && a[o]->alignment() == 0;
      if (stable && a[o]->size() > c.size()) vf::event("copy-assign-within-capacity-growing");
      c = *a[o]; mm = m[o]; vf::event("copy"); break;
    case 2: name = "move-assign"; vf::op(name, "[%d]=move[%d]", k, o); c = std::move(*a[o]); mm = m[o]; m[o].clear(); vf::event("move");
      checkState<C, T>(*a[o], m[o], "move-out"); break;
    case 3: name = "self-assign"; vf::op(name, "[%d]", k); { C& alias = c; c = alias; stable = true; } break;
    case 4: case 5: { int64_t n = r.chance(50) ? len<T>(r) : std::max<int64_t>(0, (int64_t)mm.size() + r.range(-3, 3));
      if (r.chance(15)) n = cap;
      name = "resize"; vf::op(name, "[%d] %zu->%ld cap %ld", k, mm.size(), (long)n, (long)cap); stable = n <= cap;
      size_t old = mm.size(); c.Resize(n);
      if ((size_t)n <= old) mm.resize(n);
      else {
        vf::event("grow-by-resize");
        for (size_t i = 0; i < old; ++i) VF_CHECK(vf::El<T>::id(c[(il::int_t)i]) == mm[i], "seq:element", "after resize %zu->%ld element %zu changed", old, (long)n, i);
        if (!il::isTrivial<T>::value) { mm.resize(n, -1); checkState<C, T>(c, mm, "resize"); }
        fillFrom(k, old);
      }
      break; }
    case 6: { int64_t n = len<T>(r); name = "resize-value"; vf::op(name, "[%d] %zu->%ld cap %ld", k, mm.size(), (long)n, (long)cap); stable = n <= cap;
      if (!mm.empty() && r.chance(40)) { size_t j = r.below(mm.size()); if ((int64_t)j < n || n > (int64_t)mm.size()) { int64_t id = mm[j]; c.Resize(n, c[(il::int_t)j]); mm.resize(n, id); vf::event("alias-resize"); break; } }
      int64_t id = fresh(); c.Resize(n, vf::El<T>::make(id)); mm.resize(n, id); break; }
    case 7: { int64_t n = len<T>(r); int64_t id = fresh(); name = "resize-emplace"; vf::op(name, "[%d] %zu->%ld cap %ld", k, mm.size(), (long)n, (long)cap); stable = n <= cap;
      const T x = vf::El<T>::make(id); c.Resize(n, il::emplace, x); mm.resize(n, id); break; }
    case 8: { int64_t n = r.chance(50) ? len<T>(r) : cap + r.range(0, 5); name = "reserve"; vf::op(name, "[%d] size %zu cap %ld r %ld", k, mm.size(), (long)cap, (long)n); stable = n <= cap;
      c.Reserve(n); VF_CHECK(c.capacity() >= n, "seq:reserve", "Reserve(%ld) left capacity %ld", (long)n, (long)c.capacity()); vf::event("reserve"); break; }
    case 9: if (g_big) { int64_t n = len<T>(r); name = "appends"; vf::op(name, "[%d] size %zu cap %ld, %ld times", k, mm.size(), (long)cap, (long)n); if ((int64_t)mm.size() + n > 2 * BigSize<T>::v) return;
        int how = (int)r.below(3); for (int64_t i = 0; i < n; ++i) { int64_t id = fresh(); const T x = vf::El<T>::make(id); if (how == 0) c.Append(x); else if (how == 1) c.Append(vf::El<T>::make(id)); else c.Append(il::emplace, x); mm.push_back(id); }
        break; }  // fallthrough
    case 10: { int64_t id = fresh(); name = "append-const-ref"; vf::op(name, "[%d] size %zu cap %ld", k, mm.size(), (long)cap); stable = (il::int_t)mm.size() < cap;
      const T x = vf::El<T>::make(id); c.Append(x); mm.push_back(id); if (!stable) vf::event("grow-by-append"); break; }
    case 11: { int64_t id = fresh(); name = "append-move"; vf::op(name, "[%d] size %zu cap %ld", k, mm.size(), (long)cap); stable = (il::int_t)mm.size() < cap;
      c.Append(vf::El<T>::make(id)); mm.push_back(id); if (!stable) vf::event("grow-by-append"); break; }
    case 12: { int64_t id = fresh(); name = "append-emplace"; vf::op(name, "[%d] size %zu cap %ld", k, mm.size(), (long)cap); stable = (il::int_t)mm.size() < cap;
      c.Append(il::emplace, vf::El<T>::make(id)); mm.push_back(id); if (!stable) vf::event("grow-by-append"); break; }
    case 13: if (mm.empty()) return;
      { size_t j = r.below(mm.size()); name = "append-alias"; vf::op(name, "[%d] size %zu cap %ld elem %zu", k, mm.size(), (long)cap, j); int64_t id = mm[j]; stable = (il::int_t)mm.size() < cap;
        if (r.chance(60)) { c.Append(c[(il::int_t)j]); } else { c.Append(il::emplace, c[(il::int_t)j]); }
        mm.push_back(id); vf::event("alias-append"); break; }
    case 14: { int64_t id = fresh(); name = "set-all"; vf::op(name, "[%d] size %zu cap %ld", k, mm.size(), (long)cap); c.Set(vf::El<T>::make(id)); mm.assign(mm.size(), id); stable = true; break; }
    case 15: if (mm.empty()) return;
      { size_t j = r.below(mm.size()); int64_t id = fresh(); name = "write"; vf::op(name, "[%d] %zu", k, j); c[(il::int_t)j] = vf::El<T>::make(id); mm[j] = id;
        id = fresh(); c.Back() = vf::El<T>::make(id); mm.back() = id; stable = true; break; }
    case 16: { name = "fill-to-capacity"; vf::op(name, "[%d] size %zu cap %ld", k, mm.size(), (long)cap);
      if (cap - (il::int_t)mm.size() > 2 * (g_big ? BigSize<T>::v : MaxSize<T>::v)) return;
      while ((il::int_t)mm.size() < cap) { int64_t id = fresh(); c.Append(vf::El<T>::make(id)); mm.push_back(id); }
      stable = true; vf::event("filled-to-capacity"); break; }
    case 17: { name = "iterate"; vf::op(name, "[%d]", k); size_t i = 0;
      for (const T* p = c.cbegin(); p != c.cend(); ++p, ++i) VF_CHECK(vf::El<T>::id(*p) == mm[i], "seq:iteration", "iteration yields another element at %zu", i);
      VF_CHECK(i == mm.size(), "seq:iteration", "iteration visits %zu elements of %zu", i, mm.size());
      i = 0; for (const T& x : c) { VF_CHECK(vf::El<T>::id(x) == mm[i], "seq:iteration", "range-for element %zu", i); ++i; }
      stable = true; break; }
    case 18: { if (mm.empty()) return; il::int_t b = r.below(mm.size()), e = r.range(b, mm.size()); name = "sub-edit"; vf::op(name, "[%d] [%ld,%ld)", k, (long)b, (long)e);
      il::ArrayView<T> w = c.view(il::Range{b, e}); VF_CHECK(w.size() == e - b, "seq:range-view", "size");
      il::ArrayEdit<T> ed = c.Edit(il::Range{b, e});
      for (il::int_t i = 0; i < e - b; ++i) { int64_t id = fresh(); ed[i] = vf::El<T>::make(id); mm[b + i] = id; VF_CHECK(vf::El<T>::id(w[i]) == id, "seq:range-view", "view does not see the edit"); }
      stable = true; break; }
    default: { // drain and refill
      name = "drain-refill"; int64_t n = g_big ? len<T>(r) : r.below(6); vf::op(name, "[%d] %zu->0->%ld", k, mm.size(), (long)n);
      c.Resize(0); mm.clear(); checkState<C, T>(c, mm, "drain");
      for (int64_t i = 0; i < n; ++i) { int64_t id = fresh(); c.Append(vf::El<T>::make(id)); mm.push_back(id); }
      stable = n <= cap; }
  }
  if (stable) VF_CHECK(c.data() == p0 || cap == 0, "seq:reallocation", "%s reallocated although the capacity %ld was sufficient", name, (long)cap);
  if (stable && cap > 0) VF_CHECK(c.capacity() == cap, "seq:capacity-kept", "%s changed the capacity %ld to %ld although it was sufficient", name, (long)cap, (long)c.capacity());
  checkState<C, T>(c, mm, name);
  checkState<C, T>(*a[o], m[o], name);  // independence
  checkAlign(k, name);
  vf::nontrivial();
}

template <typename T>
void runArray(Rng& r) {
  vf::lifeBegin();
  {
    ArrayCase<T> c(r);
    for (int k = 0; k < 3; ++k) c.construct(k);
    int steps = g_big ? (int)r.range(3, 9) : (int)r.range(5, 45);
    for (int i = 0; i < steps; ++i) c.step();
    if (g_big) vf::event("large");
    vf::sample(vf::fmt("il::Array<%s>: %d operations on 3 arrays, final sizes %zu %zu %zu", vf::El<T>::name(), steps, c.m[0].size(), c.m[1].size(), c.m[2].size()));
    vf::event("operations", steps);
  }
  vf::lifeEnd();
}

// ---- il::SmallArray ---------------------------------------------------------
template <typename T, int N>
void runSmall(Rng& r) {
  typedef il::SmallArray<T, N> C;
  vf::lifeBegin();
  {
    struct Slots { C* a[3]; Slots() { a[0] = a[1] = a[2] = nullptr; } ~Slots() { for (int k = 0; k < 3; ++k) delete a[k]; } } s;
    Model m[3];
    int64_t next = 1;
    const int64_t MX = g_big ? r.mark(BigSize<T>::v / 2) : N * 3 + 4;
    auto fresh = [&]() { return vf::Norm<T>::n(next++); };
    auto fill = [&](int k, size_t from) {
      for (size_t i = from; i < (size_t)s.a[k]->size(); ++i) {
        int64_t id = fresh();
        if (r.chance(50)) (*s.a[k])[(il::int_t)i] = vf::El<T>::make(id);
        else { il::ArrayEdit<T> e = s.a[k]->Edit(); e[(il::int_t)i] = vf::El<T>::make(id); }
        if (i < m[k].size()) m[k][i] = id; else m[k].push_back(id);
      }
    };
    auto construct = [&](int k) {
      delete s.a[k]; s.a[k] = nullptr; m[k].clear();
      int64_t n = r.range(0, MX); int o = (k + 1) % 3;
      switch (r.below(6)) {
        case 0: vf::op("small-ctor-default", "[%d]", k); s.a[k] = new C; break;
        case 1: vf::op("small-ctor-n", "[%d] n=%ld", k, (long)n); s.a[k] = new C(n);
          if (!il::isTrivial<T>::value) { m[k].assign(n, -1); checkState<C, T>(*s.a[k], m[k], "ctor-n"); }
          fill(k, 0); break;
        case 2: { int64_t id = fresh(); vf::op("small-ctor-n-x", "[%d] n=%ld", k, (long)n); s.a[k] = new C(n, vf::El<T>::make(id)); m[k].assign(n, id); break; }
        case 3: { int64_t x = fresh(), y = fresh(), z = fresh(); vf::op("small-ctor-list", "[%d]", k);
          s.a[k] = new C(il::value, {vf::El<T>::make(x), vf::El<T>::make(y), vf::El<T>::make(z)}); m[k] = Model{x, y, z}; break; }
        case 4: if (s.a[o]) { vf::op("small-ctor-copy", "[%d]<-[%d]", k, o); s.a[k] = new C(*s.a[o]); m[k] = m[o]; vf::event("copy"); break; }  // fallthrough
        default: if (s.a[o]) { vf::op("small-ctor-move", "[%d]<-[%d]", k, o); s.a[k] = new C(std::move(*s.a[o])); m[k] = m[o]; m[o].clear(); checkState<C, T>(*s.a[o], m[o], "move-out"); vf::event("move"); }
          else s.a[k] = new C;
      }
      checkState<C, T>(*s.a[k], m[k], "construction");
    };
    for (int k = 0; k < 3; ++k) construct(k);
    int steps = g_big ? 6 : (int)r.range(5, 40);
    if (g_big) vf::event("large-small");
    for (int t = 0; t < steps; ++t) {
      int k = (int)r.below(3), o = (int)((k + 1 + r.below(2)) % 3);
      C& c = *s.a[k]; Model& mm = m[k];
      il::int_t cap = c.capacity(); const T* p0 = c.data(); bool stable = false; const char* name = "?";
      bool was_small = (const char*)c.data() >= (const char*)&c && (const char*)c.data() < (const char*)(&c + 1);
      switch (r.below(14)) {
        case 0: construct(k); continue;
        case 1: case 2: name = "small-copy-assign"; vf::op(name, "[%d] size %zu cap %ld <- [%d] size %zu", k, mm.size(), (long)cap, o, m[o].size()); stable = (il::int_t)m[o].size() <= cap; c = *s.a[o]; mm = m[o]; vf::event("copy"); break;
        case 3: case 4: name = "small-move-assign"; vf::op(name, "[%d] size %zu <- [%d] size %zu", k, mm.size(), o, m[o].size()); c = std::move(*s.a[o]); mm = m[o]; m[o].clear(); checkState<C, T>(*s.a[o], m[o], "move-out"); vf::event("move"); break;
        case 5: name = "small-self-assign"; vf::op(name, "[%d]", k); { C& alias = c; c = alias; } stable = true; break;
        case 6: case 7: { int64_t n = r.chance(60) ? r.range(0, MX) : cap; name = "small-resize"; vf::op(name, "[%d] %zu->%ld cap %ld", k, mm.size(), (long)n, (long)cap); stable = n <= cap; size_t old = mm.size(); c.Resize(n);
          if ((size_t)n <= old) mm.resize(n);
          else { for (size_t i = 0; i < old; ++i) VF_CHECK(vf::El<T>::id(c[(il::int_t)i]) == mm[i], "seq:element", "after resize element %zu changed", i);
            if (!il::isTrivial<T>::value) { mm.resize(n, -1); checkState<C, T>(c, mm, "resize"); }
            fill(k, old); }
          break; }
        case 8: { int64_t n = r.range(0, MX); name = "small-reserve"; vf::op(name, "[%d] size %zu cap %ld r %ld", k, mm.size(), (long)cap, (long)n); stable = n <= cap; c.Reserve(n); VF_CHECK(c.capacity() >= n, "seq:reserve", "Reserve(%ld) left %ld", (long)n, (long)c.capacity()); break; }
        case 9: if (g_big) { int64_t n = r.range(0, MX); name = "small-appends"; vf::op(name, "[%d] size %zu cap %ld, %ld times", k, mm.size(), (long)cap, (long)n);
            for (int64_t i = 0; i < n; ++i) { int64_t id = fresh(); const T x = vf::El<T>::make(id); if (i % 2) c.Append(x); else c.Append(vf::El<T>::make(id)); mm.push_back(id); }
            break; }  // fallthrough
        case 10: { int64_t id = fresh(); name = "small-append"; vf::op(name, "[%d] size %zu cap %ld", k, mm.size(), (long)cap); stable = (il::int_t)mm.size() < cap; const T x = vf::El<T>::make(id); c.Append(x); mm.push_back(id); break; }
        case 11: { int64_t id = fresh(); name = "small-append-args"; vf::op(name, "[%d] size %zu cap %ld", k, mm.size(), (long)cap); stable = (il::int_t)mm.size() < cap; c.Append(vf::El<T>::make(id)); mm.push_back(id); break; }
        case 12: { if (mm.empty()) continue; size_t j = r.below(mm.size()); name = "small-append-alias"; vf::op(name, "[%d] size %zu cap %ld", k, mm.size(), (long)cap); int64_t id = mm[j]; stable = (il::int_t)mm.size() < cap;
          if (r.chance(50)) c.Append(c[(il::int_t)j]); else c.Append(const_cast<const C&>(c)[(il::int_t)j]);
          mm.push_back(id); vf::event("alias-append"); break; }
        default: { if (mm.empty()) continue; size_t j = r.below(mm.size()); int64_t id = fresh(); name = "small-write"; vf::op(name, "[%d] %zu", k, j); c[(il::int_t)j] = vf::El<T>::make(id); mm[j] = id; id = fresh(); c.Back() = vf::El<T>::make(id); mm.back() = id; stable = true; }
      }
      bool is_small = (const char*)c.data() >= (const char*)&c && (const char*)c.data() < (const char*)(&c + 1);
      if (was_small && !is_small) vf::event("inline-to-heap");
      if (stable) VF_CHECK(c.data() == p0, "seq:reallocation", "%s reallocated although the capacity was sufficient", name);
      checkState<C, T>(c, mm, name);
      checkState<C, T>(*s.a[o], m[o], name);
      vf::nontrivial();
    }
    vf::event("operations", steps);
  }
  vf::lifeEnd();
}

// ---- il::StaticArray ----------------------------------------------------------
template <int... I> struct Ints {};
template <int N, int... I> struct Upto : Upto<N - 1, N - 1, I...> {};
template <int... I> struct Upto<0, I...> { typedef Ints<I...> type; };
template <typename T, int N, int... I>
il::StaticArray<T, N> fromList(int64_t first, Ints<I...>) { return il::StaticArray<T, N>(il::value, {vf::El<T>::make(vf::Norm<T>::n(first + I))...}); }
template <typename T, int N>
void runStatic(Rng& r) {
  vf::lifeBegin();
  {
    typedef il::StaticArray<T, N> C;
    int64_t next = 1;
    auto fresh = [&]() { return vf::Norm<T>::n(next++); };
    auto chk = [&](const C& c, const Model& m, const char* w) {
      vf::lifeCheck();
      VF_CHECK(c.size() == N, "static:size", "size %ld", (long)c.size());
      il::ArrayView<T> v = c.view();
      VF_CHECK(v.size() == N, "static:view", "view size %ld", (long)v.size());
      for (int i = 0; i < N; ++i) {
        VF_CHECK(vf::El<T>::id(c[i]) == m[i], "static:element", "%s element %d", w, i);
        VF_CHECK(&c[i] == c.data() + i && &v[i] == &c[i], "static:address", "%s element %d", w, i);
      }
      VF_CHECK(&c.back() == &c[N - 1], "static:back", "back");
    };
    int64_t id = fresh();
    vf::op("static-ctor-value", "N=%d", N);
    C a(vf::El<T>::make(id)); Model ma(N, id);
    chk(a, ma, "value ctor");
    { int64_t first = next; Model ml; for (int i = 0; i < N; ++i) ml.push_back(fresh());
      vf::op("static-ctor-list", "N=%d", N);
      const C l(fromList<T, N>(first, typename Upto<N>::type())); chk(l, ml, "list ctor"); }
    C b; Model mb(N, 0);
    vf::op("static-write", "");
    for (int i = 0; i < N; ++i) { id = fresh(); mb[i] = id;
      switch (r.below(4)) { case 0: b[i] = vf::El<T>::make(id); break; case 1: b.Data()[i] = vf::El<T>::make(id); break; case 2: default: { il::ArrayEdit<T> e = b.Edit(); e[i] = vf::El<T>::make(id); } } }
    chk(b, mb, "writes");
    vf::op("static-copy", "");
    C c(a); chk(c, ma, "copy"); c = b; chk(c, mb, "assign"); c[0] = vf::El<T>::make(fresh()); chk(b, mb, "independence"); chk(a, ma, "independence");
    il::int_t lo = r.below(N), hi = r.range(lo, N);
    vf::op("static-range", "%ld %ld", (long)lo, (long)hi);
    il::ArrayEdit<T> e = a.Edit(il::Range{lo, hi});
    VF_CHECK(e.size() == hi - lo, "static:range", "size");
    for (il::int_t i = 0; i < hi - lo; ++i) { id = fresh(); e[i] = vf::El<T>::make(id); ma[lo + i] = id; }
    chk(a, ma, "range edit");
    il::ArrayView<T> v = a.view(il::Range{lo, hi});
    VF_CHECK(v.size() == hi - lo, "static:range", "view size");
    for (il::int_t i = 0; i < hi - lo; ++i) VF_CHECK(&v[i] == &a[lo + i], "static:range", "view address");
    vf::nontrivial(); vf::sig(N * 100 + lo * 10 + hi);
    vf::event("static-array");
  }
  vf::lifeEnd();
}

void runMoveOnly(Rng& r) {
  vf::lifeBegin();
  {
    il::Array<vf::MoveOnly> a, b;
    Model m, mb;
    int64_t next = 1;
    int steps = (int)r.range(3, 40);
    for (int t = 0; t < steps; ++t) {
      switch (r.below(7)) {
        case 0: case 1: vf::op("mo-append", "size %zu", m.size()); a.Append(vf::MoveOnly(next)); m.push_back(next++); break;
        case 2: vf::op("mo-emplace", "size %zu", m.size()); a.Append(il::emplace, next); m.push_back(next++); break;
        case 3: { int64_t n = r.below(20); vf::op("mo-resize", "%zu->%ld", m.size(), (long)n); a.Resize(n); m.resize(n, -1); break; }
        case 4: { int64_t n = r.below(40); vf::op("mo-reserve", "%ld", (long)n); a.Reserve(n); break; }
        case 5: vf::op("mo-move", ""); b = std::move(a); mb = m; m.clear(); break;
        default: vf::op("mo-move-ctor", ""); { il::Array<vf::MoveOnly> c(std::move(b)); a = std::move(c); m = mb; mb.clear(); }
      }
      vf::lifeCheck();
      VF_CHECK(a.size() == (il::int_t)m.size() && b.size() == (il::int_t)mb.size(), "seq:size", "move-only sizes %ld %ld expected %zu %zu", (long)a.size(), (long)b.size(), m.size(), mb.size());
      for (size_t i = 0; i < m.size(); ++i) VF_CHECK(a[(il::int_t)i].t.get() == m[i], "seq:element", "move-only element %zu", i);
      for (size_t i = 0; i < mb.size(); ++i) VF_CHECK(b[(il::int_t)i].t.get() == mb[i], "seq:element", "move-only element %zu", i);
    }
    vf::nontrivial(); vf::event("move-only");
  }
  vf::lifeEnd();
}

void vf_case(Rng& r, uint64_t idx) {
  static const int life[] = {2, 10, 12, 13, 14};
  g_big = r.below(150) == 0;
  switch (vf::lifeOnly() ? life[idx % 5] : (int)(idx % 16)) {
    case 0: case 1: runArray<int>(r); break;
    case 2: case 3: case 4: runArray<vf::Tracked>(r); break;
    case 5: runArray<double>(r); break;
    case 6: runArray<char>(r); break;
    case 7: runArray<std::complex<double>>(r); break;
    case 8: runSmall<int, 1>(r); break;
    case 9: runSmall<double, 5>(r); break;
    case 10: case 11: runSmall<vf::Tracked, 4>(r); break;
    case 12: runSmall<vf::Tracked, 1>(r); break;
    case 13: if (r.chance(50) || vf::lifeOnly()) runStatic<vf::Tracked, 4>(r); else if (r.chance(50)) runStatic<int, 7>(r); else runStatic<double, 3>(r); break;
    case 14: runMoveOnly(r); break;
    default: runSmall<char, 16>(r);
  }
}
