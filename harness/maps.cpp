// H01: il::Map against std::map under random histories with colliding keys; lifetime-tracked
// keys and values; every lookup, the whole iteration and all counts after every operation.
// H02 (VF_PART 1): il::MapArray against an insertion-ordered model.  H03 (VF_PART 2): il::Set.
#include "vfil.h"
#include "elem.h"
#if VF_PART == 0
#include <il/Map.h>
#elif VF_PART == 1
#include <il/MapArray.h>
#else
#include <il/Set.h>
#endif
#include <il/Array.h>
#include <il/String.h>
using vf::Rng;
using vf::Tracked;

// ---- keys -------------------------------------------------------------------
static const int kIds = 40;
static std::vector<int64_t> g_int;        // id -> integer key
static std::vector<std::string> g_str;    // id -> text key
static std::map<int64_t, int> g_intId;
static std::map<std::string, int> g_strId;
static bool g_narrow;

static void makeKeys(Rng& r, bool narrow) {
  vf::Quiet q;
  g_int.clear(); g_str.clear(); g_intId.clear(); g_strId.clear();
  g_narrow = narrow;
  const int64_t lo = narrow ? (int64_t)INT32_MIN + 2 : INT64_MIN + 2, hi = narrow ? (int64_t)INT32_MAX : INT64_MAX;
  int style = (int)r.below(5);
  int64_t base = r.range(-20, 20);
  uint64_t top = r.next();
  while ((int)g_int.size() < kIds) {
    int64_t k;
    if (style == 0) k = base + (int64_t)g_int.size();
    else if (style == 1) k = narrow ? (int64_t)(int32_t)r.next() : (int64_t)r.next();
    else if (style == 2) k = ((int64_t)g_int.size() - 20) * (narrow ? 65536 : (1ll << 40));
    else if (style == 3) {  // keys the library's multiplicative hash sends to one bucket
      k = narrow ? (int64_t)(int32_t)r.next() : (int64_t)r.next();
      uint64_t h = ((uint64_t)k * 11133510565745311ull) >> 60;
      if (h != (top >> 60)) continue;
    } else {
      static const int64_t e[] = {0, 1, -1, 2, -2};
      int64_t x = r.below(9);
      k = x < 5 ? e[x] : x == 5 ? lo + r.below(3) : x == 6 ? hi - r.below(3) : (narrow ? (int64_t)(int32_t)r.next() : (int64_t)r.next());
    }
    if (k < lo || k > hi) continue;
    if (!g_intId.emplace(k, (int)g_int.size()).second) continue;
    g_int.push_back(k);
  }
  int sstyle = (int)r.below(4);
  while ((int)g_str.size() < kIds) {
    std::string s;
    int64_t n = g_str.empty() && r.chance(50) ? 0 : sstyle == 0 ? r.range(1, 3) : sstyle == 1 ? r.range(20, 26) : r.range(0, 40);
    for (int64_t i = 0; i < n; ++i)
      s += sstyle == 2 ? (char)r.below(256) : sstyle == 3 && r.chance(20) ? '\0' : (char)('a' + r.below(sstyle == 1 ? 2 : 6));
    if (!g_strId.emplace(s, (int)g_str.size()).second) continue;
    g_str.push_back(s);
  }
  // pairs of texts the library's hash does not distinguish ("ab"/"bA" style: 33*a+b)
  if (sstyle == 0) {
    for (int i = 0; i + 1 < kIds; i += 2) {
      std::string a = {(char)('b' + i % 8), (char)('c'), (char)('A' + i)}, b = {(char)('b' + i % 8), (char)('d'), (char)('A' + i - 33)};
      if (g_strId.count(a) || g_strId.count(b)) continue;
      g_strId.erase(g_str[i]); g_strId.erase(g_str[i + 1]);
      g_str[i] = a; g_str[i + 1] = b;
      g_strId[a] = i; g_strId[b] = i + 1;
    }
  }
}
template <typename K> struct Key;
template <> struct Key<int> {
  static const char* name() { return "int"; }
  static int make(int id) { return (int)g_int[id]; }
  static int id(int k) { auto it = g_intId.find(k); return it == g_intId.end() ? -1 : it->second; }
};
template <> struct Key<long> {
  static const char* name() { return "long"; }
  static long make(int id) { return g_int[id]; }
  static int id(long k) { auto it = g_intId.find(k); return it == g_intId.end() ? -1 : it->second; }
};
template <> struct Key<il::String> {
  static const char* name() { return "String"; }
  static il::String make(int id) { return il::String{il::StringType::Byte, g_str[id].data(), (il::int_t)g_str[id].size()}; }
  static int id(const il::String& s) {
    vf::Quiet q;
    auto it = g_strId.find(std::string(s.asCString(), (size_t)s.size()));
    return it == g_strId.end() ? -1 : it->second;
  }
};
template <> struct Key<Tracked> {
  static const char* name() { return "Tracked"; }
  static Tracked make(int id) { return Tracked(id); }
  static int id(const Tracked& t) { return (int)t.get(); }
};
// hash policies: the library's own, and one that collides heavily
template <typename K, int B> struct Bad : il::HashFunction<K> {
  static std::size_t hash(K v, int p) { return (std::size_t)(((uint64_t)v % (uint64_t)B) & (((uint64_t)1 << p) - 1)); }
};
template <int B> struct TF {
  static bool isEmpty(const Tracked& t) { return t.v == INT64_MIN; }
  static bool isTombstone(const Tracked& t) { return t.v == INT64_MIN + 1; }
  static void constructEmpty(il::io_t, Tracked* t) { t->v = INT64_MIN; }
  static void constructTombstone(il::io_t, Tracked* t) { t->v = INT64_MIN + 1; }
  static std::size_t hash(const Tracked& t, int p) { return (std::size_t)(((uint64_t)t.get() % (uint64_t)B) & (((uint64_t)1 << p) - 1)); }
  static bool isEqual(const Tracked& a, const Tracked& b) { return a.get() == b.get(); }
};
struct StrF : il::HashFunction<il::String> {  // all texts of equal length collide
  static std::size_t hash(const il::String& s, int p) { return (std::size_t)s.size() & (((std::size_t)1 << p) - 1); }
};

// ---- values -----------------------------------------------------------------
template <typename V> struct Val {
  static V make(int64_t v) { return vf::El<V>::make(v); }
  static bool is(const V& x, int64_t v) { return vf::El<V>::id(x) == vf::Norm<V>::n(v); }
};
template <> struct Val<il::String> {
  static std::string s(int64_t v) { vf::Quiet q; return std::string((size_t)(v % 30), 'q') + std::to_string(v); }
  static il::String make(int64_t v) { std::string t = s(v); return il::String{il::StringType::Byte, t.data(), (il::int_t)t.size()}; }
  static bool is(const il::String& x, int64_t v) { vf::Quiet q; return std::string(x.asCString(), (size_t)x.size()) == s(v); }
};
template <> struct Val<il::Array<Tracked>> {
  static il::Array<Tracked> make(int64_t v) { il::Array<Tracked> a; for (int64_t i = 0; i < v % 4 + 1; ++i) a.Append(Tracked(v + i)); return a; }
  static bool is(const il::Array<Tracked>& x, int64_t v) {
    if (x.size() != v % 4 + 1) return false;
    for (il::int_t i = 0; i < x.size(); ++i) if (x[i].get() != v + i) return false;
    return true;
  }
};

typedef std::map<int, int64_t> Model;
static int64_t g_next;

#if VF_PART == 0
template <typename K, typename V, typename F>
static void same(const il::Map<K, V, F>& m, const Model& w, const char* who) {
  VF_CHECK(m.nbElements() == (il::int_t)w.size(), "count", "%s: nbElements() = %ld, %zu keys are present", who, (long)m.nbElements(), w.size());
  VF_CHECK(m.isEmpty() == w.empty(), "isEmpty", "%s: isEmpty() = %d with %zu keys", who, (int)m.isEmpty(), w.size());
  il::int_t nb = m.nbBuckets();
  VF_CHECK(nb == 0 || (nb & (nb - 1)) == 0, "buckets", "%s: %ld buckets", who, (long)nb);
  VF_CHECK(nb >= m.nbElements() && m.nbTombstones() >= 0 && m.nbElements() + m.nbTombstones() <= nb, "buckets",
           "%s: %ld elements and %ld tombstones in %ld buckets", who, (long)m.nbElements(), (long)m.nbTombstones(), (long)nb);
  for (int id = 0; id < kIds; ++id) {
    K key = Key<K>::make(id);
    il::spot_t s = m.search(key);
    auto it = w.find(id);
    VF_CHECK(m.found(s) == (it != w.end()), it == w.end() ? "phantom-key" : "lost-key", "%s: key #%d is %s, the search says %s", who, id,
             it == w.end() ? "absent" : "present", m.found(s) ? "found" : "not found");
    if (it != w.end()) {
      VF_CHECK(Key<K>::id(m.key(s)) == id, "spot-key", "%s: the spot of key #%d holds key #%d", who, id, Key<K>::id(m.key(s)));
      VF_CHECK(Val<V>::is(m.value(s), it->second), "value", "%s: value of key #%d is not the one last stored (%ld)", who, id, (long)it->second);
    }
  }
  std::set<int> seen;
  { vf::Quiet q; seen.clear(); }
  il::int_t steps = 0;
  for (il::spot_t s = m.spotBegin(); s != m.spotEnd(); s = m.next(s)) {
    ++steps;
    VF_CHECK(steps <= (il::int_t)w.size(), "iteration", "%s: iteration yields more than the %zu present keys", who, w.size());
    int id = Key<K>::id(m.key(s));
    bool fresh;
    { vf::Quiet q; fresh = seen.insert(id).second; }
    VF_CHECK(fresh, "iteration", "%s: iteration yields key #%d twice", who, id);
    auto it = w.find(id);
    VF_CHECK(it != w.end(), "iteration", "%s: iteration yields key #%d which is absent", who, id);
    VF_CHECK(Val<V>::is(m.value(s), it->second), "iteration", "%s: iteration yields a wrong value for key #%d", who, id);
  }
  { vf::Quiet q; seen.clear(); }
  VF_CHECK(steps == (il::int_t)w.size(), "iteration", "%s: iteration yields %ld of %zu keys", who, (long)steps, w.size());
  vf::event("lookups", kIds);
}
template <typename K, typename V, typename F> struct CStr {
  static bool set(Rng&, il::Map<K, V, F>&, Model&, int) { return false; }
  static void look(const il::Map<K, V, F>&, const Model&) {}
};
template <int N> struct Lit { char c[N]; };
template <typename V, typename F, int N>
static bool cstrN(Rng& r, il::Map<il::String, V, F>& m, Model& w, int id) {
  Lit<N> l;
  memcpy(l.c, g_str[id].c_str(), N);
  const char(&key)[N] = l.c;
  bool present = w.count(id) != 0;
  il::spot_t s = m.searchCString(key);
  VF_CHECK(m.found(s) == present, "searchCString", "searchCString of key #%d: found=%d, present=%d", id, (int)m.found(s), (int)present);
  if (present) {
    VF_CHECK(Val<V>::is(m.value(s), w[id]), "searchCString", "searchCString finds another value");
    VF_CHECK(Val<V>::is(m.valueForCString(key), w[id]), "valueForCString", "valueForCString returns another value");
  } else {
    V d = Val<V>::make(5);
    VF_CHECK(Val<V>::is(m.valueForCString(key, d), 5), "valueForCString", "valueForCString does not return the default");
  }
  int64_t v = g_next++;
  V val = Val<V>::make(v);
  switch (r.below(4)) {
    case 0: vf::op("SetCString", "#%d =%ld", id, (long)v); m.SetCString(key, val); break;
    case 1: vf::op("SetCString(move)", "#%d =%ld", id, (long)v); m.SetCString(key, std::move(val)); break;
    case 2: if (present) return true;
      vf::op("SetCString(spot)", "#%d =%ld", id, (long)v); m.SetCString(key, val, il::io, s); VF_CHECK(m.found(s) && Key<il::String>::id(m.key(s)) == id, "spot", "wrong spot"); break;
    default: if (present) return true;
      vf::op("SetCString(n,spot)", "#%d =%ld", id, (long)v);
      m.SetCString(g_str[id].data(), (il::int_t)g_str[id].size(), val, il::io, s);
      VF_CHECK(m.found(s) && Key<il::String>::id(m.key(s)) == id, "spot", "wrong spot after SetCString");
  }
  { vf::Quiet q; w[id] = v; }
  vf::event("c-string-key");
  return true;
}
template <typename V> struct CStr<il::String, V, il::HashFunction<il::String>> {
  typedef il::HashFunction<il::String> F;
  template <int N> static void lit(const il::Map<il::String, V, F>& m, const Model& w, int id) {
    Lit<N> l; memcpy(l.c, g_str[id].c_str(), N);
    const char(&key)[N] = l.c;
    il::spot_t s = m.searchCString(key);
    auto it = w.find(id);
    VF_CHECK(m.found(s) == (it != w.end()), "searchCString", "searchCString of key #%d: found=%d, present=%d", id, (int)m.found(s), it != w.end());
    if (it != w.end()) VF_CHECK(Key<il::String>::id(m.key(s)) == id && Val<V>::is(m.value(s), it->second), "searchCString", "searchCString of key #%d finds another pair", id);
    vf::event("c-string-lookups");
  }
  static void look(const il::Map<il::String, V, F>& m, const Model& w) {
    for (int id = 0; id < kIds; ++id) {
      il::spot_t s = m.searchCString(g_str[id].data(), (il::int_t)g_str[id].size());
      auto it = w.find(id);
      VF_CHECK(m.found(s) == (it != w.end()), "searchCString", "searchCString(data, n) of key #%d: found=%d, present=%d", id, (int)m.found(s), it != w.end());
      if (it != w.end()) VF_CHECK(Key<il::String>::id(m.key(s)) == id && Val<V>::is(m.value(s), it->second), "searchCString", "searchCString(data, n) of key #%d finds another pair", id);
      bool plain = true; for (char c : g_str[id]) if ((unsigned char)c >= 128 || c == 0) plain = false;
      if (plain) switch (g_str[id].size()) { case 0: lit<1>(m, w, id); break; case 1: lit<2>(m, w, id); break; case 2: lit<3>(m, w, id); break; case 3: lit<4>(m, w, id); break; case 20: lit<21>(m, w, id); break;
        case 21: lit<22>(m, w, id); break; case 22: lit<23>(m, w, id); break; case 23: lit<24>(m, w, id); break; case 24: lit<25>(m, w, id); break; case 25: lit<26>(m, w, id); break; case 26: lit<27>(m, w, id); break; }
    }
  }
  static bool set(Rng& r, il::Map<il::String, V, F>& m, Model& w, int id) {
    il::spot_t s = m.searchCString(g_str[id].data(), (il::int_t)g_str[id].size());
    VF_CHECK(m.found(s) == (w.count(id) != 0), "searchCString", "searchCString(data, n) of key #%d: found=%d, present=%d", id, (int)m.found(s), (int)w.count(id));
    for (char c : g_str[id]) if ((unsigned char)c >= 128 || c == 0) return true;
    switch (g_str[id].size()) {
      case 1: return cstrN<V, F, 2>(r, m, w, id);
      case 2: return cstrN<V, F, 3>(r, m, w, id);
      case 3: return cstrN<V, F, 4>(r, m, w, id);
      case 21: return cstrN<V, F, 22>(r, m, w, id);
      case 22: return cstrN<V, F, 23>(r, m, w, id);
      case 23: return cstrN<V, F, 24>(r, m, w, id);
    }
    return true;
  }
};

template <typename K, typename V, typename F>
static void history(Rng& r, const char* tag) {
  typedef il::Map<K, V, F> M;
  int alphabet = (int)(r.chance(30) ? r.range(2, 6) : r.range(6, kIds));
  int nm = (int)r.range(1, 3);
  std::vector<M*> m(3, nullptr);
  std::vector<Model> w(3);
  struct Del { std::vector<M*>& m; ~Del() { for (M* x : m) delete x; } } del{m};
  for (int i = 0; i < nm; ++i) {
    int how = (int)r.below(4);
    if (how == 0) { vf::op("Map()", "%s", tag); m[i] = new M{}; }
    else if (how == 1) { il::int_t n = r.size(40); vf::op("Map(n)", "%s n=%ld", tag, (long)n); m[i] = new M{n};
      VF_CHECK(3 * m[i]->nbBuckets() >= 4 * n || (n == 1 && m[i]->nbBuckets() >= 2), "reserve", "Map(%ld) has %ld buckets", (long)n, (long)m[i]->nbBuckets()); }
    else {
      int n = (int)r.below(4);
      int id[3]; for (int k = 0; k < 3; ++k) id[k] = (k * 7 + (int)r.below(7)) % kIds;
      if (alphabet < 24) for (int k = 0; k < 3; ++k) id[k] = k % 3;
      int64_t v[3] = {g_next, g_next + 1, g_next + 2}; g_next += 3;
      typedef il::KeyValue<K, V> P;
      vf::op("Map(list)", "%s n=%d", tag, n);
      if (n == 0) m[i] = new M{il::value, {}};
      else if (n == 1) m[i] = new M{il::value, {P(Key<K>::make(id[0]), Val<V>::make(v[0]))}};
      else if (n == 2) m[i] = new M{il::value, {P(Key<K>::make(id[0]), Val<V>::make(v[0])), P(Key<K>::make(id[1]), Val<V>::make(v[1]))}};
      else m[i] = new M{il::value, {P(Key<K>::make(id[0]), Val<V>::make(v[0])), P(Key<K>::make(id[1]), Val<V>::make(v[1])), P(Key<K>::make(id[2]), Val<V>::make(v[2]))}};
      { vf::Quiet q; for (int k = 0; k < n; ++k) w[i][id[k]] = v[k]; }
      vf::event("from-list");
    }
    same(*m[i], w[i], "constructed");
  }
  vf::lifeCheck();
  int steps = (int)r.range(5, 60);
  int mode = (int)r.below(4);  // bias: insert heavy, erase heavy, churn, mixed
  for (int t = 0; t < steps; ++t) {
    int a = (int)r.below(nm), b = (int)r.below(nm);
    M& x = *m[a];
    Model& wx = w[a];
    int id = (int)r.below(alphabet);
    int roll = (int)r.below(100);
    int pins = mode == 0 ? 60 : mode == 1 ? 30 : mode == 2 ? 42 : 35, pera = mode == 0 ? 8 : mode == 1 ? 42 : mode == 2 ? 42 : 20;
    int64_t v = g_next;
    if (roll < pins) {
      ++g_next;
      bool present = wx.count(id) != 0;
      vf::event(present ? "overwrite" : "insert");
      int how = (int)r.below(8);
      if (how < 4 || present) {
        K key = Key<K>::make(id);
        V val = Val<V>::make(v);
        if (how % 4 == 0) { vf::op("Set(k,v)", "%d #%d =%ld", a, id, (long)v); x.Set(key, val); VF_CHECK(Key<K>::id(key) == id && Val<V>::is(val, v), "argument", "Set changed its arguments"); }
        else if (how % 4 == 1) { vf::op("Set(k,move v)", "%d #%d =%ld", a, id, (long)v); x.Set(key, std::move(val)); VF_CHECK(Key<K>::id(key) == id, "argument", "Set changed its key argument"); }
        else if (how % 4 == 2) { vf::op("Set(move k,v)", "%d #%d =%ld", a, id, (long)v); x.Set(std::move(key), val); VF_CHECK(Val<V>::is(val, v), "argument", "Set changed its value argument"); }
        else { vf::op("Set(move k,move v)", "%d #%d =%ld", a, id, (long)v); x.Set(std::move(key), std::move(val)); }
      } else {
        K key = Key<K>::make(id);
        V val = Val<V>::make(v);
        il::spot_t s = x.search(key);
        VF_CHECK(!x.found(s), "phantom-key", "key #%d found before insertion", id);
        if (r.chance(30)) { (void)x.search(Key<K>::make((id + 1) % kIds)); }
        if (how == 4) { vf::op("Set(k,v,spot)", "%d #%d =%ld", a, id, (long)v); x.Set(key, val, il::io, s); }
        else if (how == 5) { vf::op("Set(k,move v,spot)", "%d #%d =%ld", a, id, (long)v); x.Set(key, std::move(val), il::io, s); }
        else if (how == 6) { vf::op("Set(move k,v,spot)", "%d #%d =%ld", a, id, (long)v); x.Set(std::move(key), val, il::io, s); }
        else { vf::op("Set(move k,move v,spot)", "%d #%d =%ld", a, id, (long)v); x.Set(std::move(key), std::move(val), il::io, s); }
        VF_CHECK(x.found(s) && Key<K>::id(x.key(s)) == id && Val<V>::is(x.value(s), v), "spot", "the spot given back by Set does not denote the pair just inserted");
        vf::event("remembered-spot");
      }
      { vf::Quiet q; wx[id] = v; }
    } else if (roll < pins + pera) {
      if (!wx.count(id) && !wx.empty()) { auto it = wx.begin(); std::advance(it, (long)r.below((int64_t)wx.size())); id = it->first; }
      if (!wx.count(id)) continue;
      vf::op("erase", "%d #%d", a, id);
      il::int_t tb = x.nbTombstones();
      x.erase(x.search(Key<K>::make(id)));
      { vf::Quiet q; wx.erase(id); }
      vf::event("erase");
      vf::event(x.nbTombstones() > tb ? "erase-keeps-tombstone" : "erase-rehashes");
    } else switch (r.below(14)) {
      case 0: vf::op("Clear", "%d", a); x.Clear(); { vf::Quiet q; wx.clear(); } vf::event("clear"); break;
      case 1: { il::int_t n = r.chance(30) ? 0 : r.chance(50) ? r.below((int64_t)wx.size() + 1) : r.range(0, 60);
        vf::op("Reserve", "%d n=%ld", a, (long)n); vf::event(n < (il::int_t)wx.size() ? "reserve-below-count" : "reserve");
        x.Reserve(n);
        VF_CHECK(3 * x.nbBuckets() >= 4 * n || (n == 1 && x.nbBuckets() >= 2), "reserve", "Reserve(%ld) leaves %ld buckets", (long)n, (long)x.nbBuckets()); break; }
      case 2: vf::op("Rehash", "%d", a); x.Rehash(); vf::event("rehash"); break;
      case 3: { vf::op("copy", "%d<-%d", a, b); M* c = new M(*m[b]); delete m[a]; m[a] = c; { vf::Quiet q; w[a] = Model(w[b]); } vf::event("copy"); break; }
      case 4: vf::op(a == b ? "self-assign" : "copy-assign", "%d=%d", a, b); *m[a] = *m[b]; { vf::Quiet q; Model t2 = w[b]; w[a] = t2; } vf::event(a == b ? "self-assign" : w[b].empty() ? "copy-assign-empty" : "copy-assign"); break;
      case 5: { if (a == b) break; vf::op("move", "%d<-%d", a, b); M* c = new M(std::move(*m[b])); delete m[a]; m[a] = c; { vf::Quiet q; w[a] = w[b]; w[b].clear(); } vf::event("move"); break; }
      case 6: { if (a == b) break; vf::op("move-assign", "%d=%d", a, b); *m[a] = std::move(*m[b]); { vf::Quiet q; w[a] = w[b]; w[b].clear(); } vf::event("move-assign"); break; }
      case 7: { if (!wx.count(id)) break; ++g_next; vf::op("Value", "%d #%d =%ld", a, id, (long)v); il::spot_t s = x.search(Key<K>::make(id)); x.Value(s) = Val<V>::make(v); { vf::Quiet q; wx[id] = v; } vf::event("value-change"); break; }
      case 8: { vf::op("valueForKey", "%d #%d", a, id); K key = Key<K>::make(id); V d = Val<V>::make(3);
        VF_CHECK(Val<V>::is(x.valueForKey(key, d), wx.count(id) ? wx[id] : 3), "valueForKey", "valueForKey(#%d, default) is wrong", id);
        if (wx.count(id)) VF_CHECK(Val<V>::is(x.valueForKey(key), wx[id]), "valueForKey", "valueForKey(#%d) is wrong", id);
        else { V e{}; V got(x.valueForKey(key)); (void)e; (void)got; vf::event("value-of-absent-key"); }
        break; }
      case 9: { // value taken from the map itself
        if (wx.empty()) break;
        auto it = wx.begin(); std::advance(it, (long)r.below((int64_t)wx.size()));
        vf::op("Set(k, value of the map)", "%d #%d := value of #%d", a, id, it->first);
        int64_t v0 = it->second;
        K key = Key<K>::make(id);
        x.Set(key, x.value(x.search(Key<K>::make(it->first))));
        { vf::Quiet q; wx[id] = v0; } vf::event("aliased-value"); break; }
      case 10: case 11: { CStr<K, V, F>::set(r, x, wx, id); break; }
      case 12: { // erase everything through iteration, one at a time
        vf::op("erase all", "%d", a);
        il::int_t guard = 0;
        while (!x.isEmpty()) { x.erase(x.spotBegin()); VF_CHECK(++guard <= (il::int_t)wx.size(), "count", "more erasures than elements"); }
        { vf::Quiet q; wx.clear(); } vf::event("erase-all"); break; }
      default: { // change every value while iterating
        vf::op("Value over iteration", "%d", a);
        for (il::spot_t s = x.spotBegin(); s != x.spotEnd(); s = x.next(s)) { int64_t v2 = g_next++; int k = Key<K>::id(x.key(s)); x.Value(s) = Val<V>::make(v2); vf::Quiet q; wx[k] = v2; }
        break; }
    }
    vf::nontrivial();
    vf::lifeCheck();
    for (int i = 0; i < nm; ++i) same(*m[i], w[i], i == a ? "the map" : "another map");
    CStr<K, V, F>::look(*m[a], w[a]);
    vf::lifeCheck();
    vf::event("operations");
  }
  if (vf::wantSample()) vf::sample(vf::fmt("%s: %d operations on %d maps over %d keys, final sizes %zu/%zu/%zu, buckets %ld", tag, steps, nm, alphabet, w[0].size(), w[1].size(), w[2].size(), (long)m[0]->nbBuckets()));
}

// ---- very large tables --------------------------------------------------------------------------
template <typename K> struct Spread;
template <> struct Spread<long> { static long make(int64_t i) { return (long)((uint64_t)(i + 1) * 0x9E3779B97F4A7C15ull); } };
template <> struct Spread<il::String> { static il::String make(int64_t i) { vf::Quiet q; std::string s = std::to_string(i) + std::string((size_t)(i % 27), 'k'); return il::String{il::StringType::Byte, s.data(), (il::int_t)s.size()}; } };
template <typename K, typename V>
static void veryLarge(Rng& r, const char* tag) {
  typedef il::Map<K, V> M;
  const int64_t n = r.range(10, 100000) < 30000 ? r.mark(130000) : r.range(49000, 130000);
  vf::op("very large", "%s, %ld keys", tag, (long)n);
  M m{};
  const bool reserved = r.chance(30);
  if (reserved) m.Reserve((il::int_t)n);
  for (int64_t i = 0; i < n; ++i) { if (r.chance(50)) m.Set(Spread<K>::make(i), Val<V>::make(i)); else { const K k = Spread<K>::make(i); const V v = Val<V>::make(i); m.Set(k, v); } }
  const int64_t step = r.range(2, 50), from = r.below(step);
  int64_t gone = 0;
  for (int64_t i = from; i < n; i += step) { m.erase(m.search(Spread<K>::make(i))); ++gone; }
  auto all = [&](const M& x, const char* what) {
    vf::op("search all", "%s, %s", tag, what);
    VF_CHECK(x.nbElements() == (il::int_t)(n - gone), "count", "nbElements() = %ld, %ld keys are present", (long)x.nbElements(), (long)(n - gone));
    for (int64_t i = 0; i < n; ++i) {
      il::spot_t s = x.search(Spread<K>::make(i));
      const bool there = i < from || (i - from) % step != 0;
      VF_CHECK(x.found(s) == there, there ? "lost-key" : "erased-key", "%s: key #%ld of %ld is %s", what, (long)i, (long)n, there ? "lost" : "still found");
      if (there) VF_CHECK(Val<V>::is(x.value(s), i), "value", "%s: key #%ld of %ld does not have its value", what, (long)i, (long)n);
    }
    for (int64_t i = n; i < n + 50; ++i) VF_CHECK(!x.found(x.search(Spread<K>::make(i))), "phantom-key", "key #%ld is found and was never inserted", (long)i);
    int64_t k = 0;
    for (il::spot_t s = x.spotBegin(); s != x.spotEnd(); s = x.next(s)) ++k;
    VF_CHECK(k == n - gone, "iteration", "iteration yields %ld of %ld pairs", (long)k, (long)(n - gone));
  };
  all(m, "after insertions and erasures");
  switch (r.below(4)) {
    case 0: { M c(m); all(c, "copy"); c = M{}; c = m; all(c, "copy-assigned"); break; }
    case 1: m.Rehash(); all(m, "rehashed"); break;
    case 2: m.Reserve((il::int_t)(n + r.range(0, n))); all(m, "reserved"); break;
    default: { M c(std::move(m)); all(c, "moved"); }
  }
  vf::event("very-large");
  vf::event("lookups", (uint64_t)n);
  vf::sig((uint64_t)n); vf::nontrivial();
}
// ---- long histories on larger tables: the table's bookkeeping (markers of erased keys, growth,
// clearing) has to stay right over thousands of operations ---------------------------------------
template <typename K> struct Big;
template <> struct Big<int> { static int make(int64_t i) { return (int)(i * 2654435761ll % 2147483629ll) - 1000000000; } };
template <> struct Big<long> { static long make(int64_t i) { return i - 3000; } };
template <> struct Big<il::String> {
  static il::String make(int64_t i) { vf::Quiet q; std::string s = std::string((size_t)(i % 27), 'k') + std::to_string(i); return il::String{il::StringType::Byte, s.data(), (il::int_t)s.size()}; }
};
template <typename K, typename V>
static void marathon(Rng& r, const char* tag) {
  typedef il::Map<K, V> M;
  M m{};
  if (r.chance(50)) { il::int_t n = r.range(0, 600); vf::op("Map(n)", "marathon %s n=%ld", tag, (long)n); m = M{n}; }
  std::map<int64_t, int64_t> w;
  const int64_t space = r.chance(50) ? r.range(2, 30) : r.range(30, 4000);
  int64_t next = 0, v = 0;
  const int rounds = (int)r.range(10, 60);
  auto absent = [&](const char* what) {
    for (int k = 0; k < 3; ++k) { int64_t id = space + 5000 + r.below(100000); vf::op("search", "%s: key #%ld never inserted", what, (long)id); VF_CHECK(!m.found(m.search(Big<K>::make(id))), "phantom-key", "key #%ld is found and was never inserted", (long)id); }
  };
  auto all = [&](const char* what) {
    vf::op("search all", "%s", what);
    VF_CHECK(m.nbElements() == (il::int_t)w.size(), "count", "nbElements() = %ld, %zu keys are present", (long)m.nbElements(), w.size());
    for (auto& kv : w) {
      il::spot_t s = m.search(Big<K>::make(kv.first));
      VF_CHECK(m.found(s), "lost-key", "key #%ld is present and is not found", (long)kv.first);
      VF_CHECK(Val<V>::is(m.value(s), kv.second), "value", "key #%ld does not have the last value stored", (long)kv.first);
    }
    il::int_t n = 0;
    for (il::spot_t s = m.spotBegin(); s != m.spotEnd(); s = m.next(s)) VF_CHECK(++n <= (il::int_t)w.size(), "iteration", "iteration yields more than the %zu pairs", w.size());
    VF_CHECK(n == (il::int_t)w.size(), "iteration", "iteration yields %ld of %zu pairs", (long)n, w.size());
    vf::event("lookups", (int64_t)w.size());
  };
  auto put = [&](int64_t id) { ++v; vf::op("Set", "#%ld =%ld", (long)id, (long)v); m.Set(Big<K>::make(id), Val<V>::make(v)); vf::Quiet q; w[id] = v; };
  auto del = [&](int64_t id) { vf::op("erase", "#%ld", (long)id); m.erase(m.search(Big<K>::make(id))); vf::Quiet q; w.erase(id); };
  for (int t = 0; t < rounds; ++t) {
    const int64_t n = r.range(1, 120);
    switch (r.below(9)) {
      case 0: for (int64_t i = 0; i < n; ++i) put(r.below(space)); break;                                     // insert and overwrite
      case 1: for (int64_t i = 0; i < n && !w.empty(); ++i) { auto it = w.lower_bound(r.below(space)); if (it == w.end()) it = w.begin(); del(it->first); } break;
      case 2: for (int64_t i = 0; i < n; ++i) { put(next % space); if (!w.empty() && r.chance(90)) del(w.begin()->first); ++next; absent("window"); } break;  // window
      case 3: for (int64_t i = 0; i < n; ++i) { int64_t id = r.below(space); put(id); if (r.chance(80)) del(id); vf::op("Clear", ""); m.Clear(); { vf::Quiet q; w.clear(); } if (i % 4 == 0) absent("clear"); } vf::event("erase-clear-rounds"); break;
      case 4: for (int64_t i = 0; i < n; ++i) { int64_t id = r.below(space); put(id); del(id); absent("churn"); } break;
      case 5: { il::int_t k = r.chance(50) ? 0 : r.range(0, 3000); vf::op("Reserve", "%ld", (long)k); m.Reserve(k); break; }
      case 6: { vf::op("copy", ""); M c(m); vf::op("assign", ""); m = c; break; }
      case 7: { vf::op("move", ""); M c(std::move(m)); m = std::move(c); break; }
      default: vf::op("Rehash", ""); m.Rehash(); break;
    }
    absent("after the round");
    all("after the round");
    vf::lifeCheck();
    vf::event("operations", n);
    vf::nontrivial();
  }
  vf::event("long-history");
  if (vf::wantSample()) vf::sample(vf::fmt("marathon %s: %d rounds over %ld keys, %ld operations, final size %zu, buckets %ld", tag, rounds, (long)space, (long)v, w.size(), (long)m.nbBuckets()));
  vf::Quiet q;
  w.clear();
}
void vf_case(Rng& r, uint64_t idx) {
  vf::lifeBegin();
  g_next = 100;
  if (!vf::lifeOnly() && r.below(500) == 0) { if (r.chance(60)) veryLarge<long, int>(r, "long->int"); else veryLarge<il::String, il::String>(r, "String->String"); vf::lifeEnd(); return; }
  if (r.chance(12)) {
    if (vf::lifeOnly() || r.chance(30)) marathon<int, Tracked>(r, "int->Tracked");
    else if (r.chance(50)) marathon<long, int>(r, "long->int");
    else marathon<il::String, il::String>(r, "String->String");
    vf::lifeEnd();
    return;
  }
  static const int life[] = {1, 5, 6, 7};
  int k = vf::lifeOnly() ? life[idx % 4] : (int)(idx % 9);
  makeKeys(r, k == 0 || k == 1);
  switch (k) {
    case 0: history<int, int, il::HashFunction<int>>(r, "int->int"); break;
    case 1: history<int, Tracked, Bad<int, 3>>(r, "int->Tracked, 3 hash values"); break;
    case 2: history<long, double, il::HashFunction<long>>(r, "long->double"); break;
    case 3: history<long, il::String, Bad<long, 1>>(r, "long->String, one hash value"); break;
    case 4: history<il::String, int, il::HashFunction<il::String>>(r, "String->int"); break;
    case 5: history<il::String, Tracked, StrF>(r, "String->Tracked, hash=length"); break;
    case 6: history<Tracked, Tracked, TF<5>>(r, "Tracked->Tracked, 5 hash values"); break;
    case 7: history<Tracked, il::Array<Tracked>, TF<1>>(r, "Tracked->Array, one hash value"); break;
    default: history<il::String, il::String, il::HashFunction<il::String>>(r, "String->String"); break;
  }
  vf::lifeEnd();
}
#elif VF_PART == 1
typedef std::vector<std::pair<int, int64_t>> Ord;
static int find(const Ord& w, int id) { for (size_t i = 0; i < w.size(); ++i) if (w[i].first == id) return (int)i; return -1; }
template <typename K, typename V, typename F>
static void same(const il::MapArray<K, V, F>& m, const Ord& w, const char* who) {
  VF_CHECK(m.nbElements() == (il::int_t)w.size() && m.size() == (il::int_t)w.size(), "count", "%s: nbElements() = %ld, size() = %ld, %zu keys are present", who, (long)m.nbElements(), (long)m.size(), w.size());
  VF_CHECK(m.capacity() >= m.size(), "capacity", "%s: capacity %ld < size %ld", who, (long)m.capacity(), (long)m.size());
  for (int id = 0; id < kIds; ++id) {
    K key = Key<K>::make(id);
    il::spot_t s = m.search(key);
    int at = find(w, id);
    VF_CHECK(m.found(s) == (at >= 0), at < 0 ? "phantom-key" : "lost-key", "%s: key #%d is %s, the search says %s", who, id, at < 0 ? "absent" : "present", m.found(s) ? "found" : "not found");
    if (at >= 0) {
      VF_CHECK(Key<K>::id(m.key(s)) == id, "spot-key", "%s: the spot of key #%d holds key #%d", who, id, Key<K>::id(m.key(s)));
      VF_CHECK(Val<V>::is(m.value(s), w[(size_t)at].second), "value", "%s: value of key #%d is not the one last stored (%ld)", who, id, (long)w[(size_t)at].second);
    }
  }
  size_t i = 0;
  for (il::spot_t s = m.spotBegin(); s != m.spotEnd(); s = m.next(s), ++i) {
    VF_CHECK(i < w.size(), "iteration", "%s: iteration yields more than %zu pairs", who, w.size());
    VF_CHECK(Key<K>::id(m.key(s)) == w[i].first && Val<V>::is(m.value(s), w[i].second), "order", "%s: pair %zu of the iteration is key #%d, expected key #%d with value %ld", who, i, Key<K>::id(m.key(s)), w[i].first, (long)w[i].second);
  }
  VF_CHECK(i == w.size(), "iteration", "%s: iteration yields %zu of %zu pairs", who, i, w.size());
  vf::event("lookups", kIds);
}
template <typename K, typename V, typename F> struct Cs { static void go(const il::MapArray<K, V, F>&, const Ord&, int) {} };
template <typename V> struct Cs<il::String, V, il::HashFunction<il::String>> {
  template <int N> static void n(const il::MapArray<il::String, V>& m, const Ord& w, int id) {
    char key[N]; memcpy(key, g_str[id].c_str(), N);
    const char(&k)[N] = key;
    il::spot_t s = m.searchCString(k);
    int at = find(w, id);
    VF_CHECK(m.found(s) == (at >= 0), "searchCString", "searchCString of key #%d: found=%d, present=%d", id, (int)m.found(s), at >= 0);
    if (at >= 0) VF_CHECK(Val<V>::is(m.value(s), w[(size_t)at].second), "searchCString", "searchCString finds another pair");
    vf::event("c-string-key");
  }
  static void go(const il::MapArray<il::String, V>& m, const Ord& w, int id) {
    for (char c : g_str[id]) if ((unsigned char)c >= 128 || c == 0) return;
    switch (g_str[id].size()) { case 0: n<1>(m, w, id); break; case 1: n<2>(m, w, id); break; case 2: n<3>(m, w, id); break; case 3: n<4>(m, w, id); break; case 22: n<23>(m, w, id); break; case 23: n<24>(m, w, id); break; }
  }
};
template <typename K, typename V, typename F>
static void history(Rng& r, const char* tag) {
  typedef il::MapArray<K, V, F> M;
  int alphabet = (int)(r.chance(30) ? r.range(2, 6) : r.range(6, kIds));
  int nm = (int)r.range(1, 3);
  std::vector<M*> m(3, nullptr);
  std::vector<Ord> w(3);
  struct Del { std::vector<M*>& m; ~Del() { for (M* x : m) delete x; } } del{m};
  for (int i = 0; i < nm; ++i) {
    int how = (int)r.below(4);
    if (how == 0) { vf::op("MapArray()", "%s", tag); m[i] = new M{}; }
    else if (how == 1) { il::int_t n = r.size(40); vf::op("MapArray(n)", "%s n=%ld", tag, (long)n); m[i] = new M{n}; VF_CHECK(m[i]->capacity() >= n, "capacity", "MapArray(%ld) has capacity %ld", (long)n, (long)m[i]->capacity()); }
    else {
      int n = (int)r.below(4);
      int64_t v[3] = {g_next, g_next + 1, g_next + 2}; g_next += 3;
      int id[3] = {1, 0, 2};
      typedef il::KeyValue<K, V> P;
      vf::op("MapArray(list)", "%s n=%d", tag, n);
      if (n == 0) m[i] = new M{il::value, {}};
      else if (n == 1) m[i] = new M{il::value, {P(Key<K>::make(id[0]), Val<V>::make(v[0]))}};
      else if (n == 2) m[i] = new M{il::value, {P(Key<K>::make(id[0]), Val<V>::make(v[0])), P(Key<K>::make(id[1]), Val<V>::make(v[1]))}};
      else m[i] = new M{il::value, {P(Key<K>::make(id[0]), Val<V>::make(v[0])), P(Key<K>::make(id[1]), Val<V>::make(v[1])), P(Key<K>::make(id[2]), Val<V>::make(v[2]))}};
      { vf::Quiet q; for (int k = 0; k < n; ++k) w[i].push_back(std::make_pair(id[k], v[k])); }
      vf::event("from-list");
    }
    same(*m[i], w[i], "constructed");
  }
  vf::lifeCheck();
  int steps = (int)r.range(5, 50);
  for (int t = 0; t < steps; ++t) {
    int a = (int)r.below(nm), b = (int)r.below(nm);
    M& x = *m[a];
    Ord& wx = w[a];
    int id = (int)r.below(alphabet);
    int at = find(wx, id);
    int64_t v = g_next++;
    switch (r.below(14)) {
      default: {
        vf::event(at >= 0 ? "overwrite" : "insert");
        K key = Key<K>::make(id);
        V val = Val<V>::make(v);
        int how = (int)r.below(4);
        if (how == 3) { vf::op("Set(move k,v)", "%d #%d =%ld", a, id, (long)v); x.Set(std::move(key), val); VF_CHECK(Val<V>::is(val, v), "argument", "Set changed its value argument"); }
        else if (how == 0) { vf::op("Set(k,v)", "%d #%d =%ld", a, id, (long)v); x.Set(key, val); VF_CHECK(Key<K>::id(key) == id && Val<V>::is(val, v), "argument", "Set changed its arguments"); }
        else if (how == 1) { vf::op("Set(k,move v)", "%d #%d =%ld", a, id, (long)v); x.Set(key, std::move(val)); VF_CHECK(Key<K>::id(key) == id, "argument", "Set changed its key argument"); }
        else { vf::op("Set(move k,move v)", "%d #%d =%ld", a, id, (long)v); x.Set(std::move(key), std::move(val)); }
        { vf::Quiet q; if (at >= 0) wx[(size_t)at].second = v; else wx.push_back(std::make_pair(id, v)); }
        break; }
      case 6: case 7: case 8: {
        if (at >= 0) break;
        K key = Key<K>::make(id);
        V val = Val<V>::make(v);
        il::spot_t s = x.search(key);
        if (r.chance(30)) (void)x.search(Key<K>::make((id + 1) % kIds));
        int how = (int)r.below(4);
        if (how == 3) { vf::op("Set(move k,v,spot)", "%d #%d =%ld", a, id, (long)v); x.Set(std::move(key), val, il::io, s); }
        else if (how == 0) { vf::op("Set(k,v,spot)", "%d #%d =%ld", a, id, (long)v); x.Set(key, val, il::io, s); }
        else if (how == 1) { vf::op("Set(k,move v,spot)", "%d #%d =%ld", a, id, (long)v); x.Set(key, std::move(val), il::io, s); }
        else { vf::op("Set(move k,move v,spot)", "%d #%d =%ld", a, id, (long)v); x.Set(std::move(key), std::move(val), il::io, s); }
        VF_CHECK(x.found(s) && Key<K>::id(x.key(s)) == id && Val<V>::is(x.value(s), v), "spot", "the spot given back by Set does not denote the pair just inserted");
        { vf::Quiet q; wx.push_back(std::make_pair(id, v)); }
        vf::event("remembered-spot");
        break; }
      case 9: { vf::op("copy", "%d<-%d", a, b); M* c = new M(*m[b]); delete m[a]; m[a] = c; { vf::Quiet q; w[a] = Ord(w[b]); } vf::event("copy"); break; }
      case 10: vf::op(a == b ? "self-assign" : "copy-assign", "%d=%d", a, b); *m[a] = *m[b]; { vf::Quiet q; Ord t2 = w[b]; w[a] = t2; } vf::event(a == b ? "self-assign" : "copy-assign"); break;
      case 11: { if (a == b) break; vf::op("move", "%d<-%d", a, b); M* c = new M(std::move(*m[b])); delete m[a]; m[a] = c; { vf::Quiet q; w[a] = w[b]; w[b].clear(); } vf::event("move"); break; }
      case 12: { if (a == b) break; vf::op("move-assign", "%d=%d", a, b); *m[a] = std::move(*m[b]); { vf::Quiet q; w[a] = w[b]; w[b].clear(); } vf::event("move-assign"); break; }
      case 13: { Cs<K, V, F>::go(x, wx, id);
        if (at < 0) break; vf::op("Value", "%d #%d =%ld", a, id, (long)v); x.Value(x.search(Key<K>::make(id))) = Val<V>::make(v); { vf::Quiet q; wx[(size_t)at].second = v; } vf::event("value-change"); break; }
    }
    vf::nontrivial();
    vf::lifeCheck();
    for (int i = 0; i < nm; ++i) same(*m[i], w[i], i == a ? "the map" : "another map");
    vf::lifeCheck();
    vf::event("operations");
  }
  if (vf::wantSample()) vf::sample(vf::fmt("%s: %d operations on %d insertion-ordered maps over %d keys, final sizes %zu/%zu/%zu", tag, steps, nm, alphabet, w[0].size(), w[1].size(), w[2].size()));
}
// very large maps
template <typename K> struct Spread;
template <> struct Spread<long> { static long make(int64_t i) { return (long)((uint64_t)(i + 1) * 0x9E3779B97F4A7C15ull); } };
template <> struct Spread<il::String> { static il::String make(int64_t i) { vf::Quiet q; std::string s = std::to_string(i) + std::string((size_t)(i % 27), 'k'); return il::String{il::StringType::Byte, s.data(), (il::int_t)s.size()}; } };
template <typename K, typename V>
static void veryLarge(Rng& r, const char* tag) {
  typedef il::MapArray<K, V> M;
  const int64_t n = r.chance(50) ? r.mark(130000) : r.range(49000, 130000);
  vf::op("very large", "%s, %ld keys", tag, (long)n);
  M m{};
  for (int64_t i = 0; i < n; ++i) {
    if (r.chance(50)) { if (r.chance(50)) m.Set(Spread<K>::make(i), Val<V>::make(i)); else { const V v = Val<V>::make(i); m.Set(Spread<K>::make(i), v); } }
    else { const K k = Spread<K>::make(i); if (r.chance(50)) m.Set(k, Val<V>::make(i)); else { const V v = Val<V>::make(i); m.Set(k, v); } }
  }
  const int64_t step = r.range(2, 50), from = r.below(step);
  for (int64_t i = from; i < n; i += step) m.Set(Spread<K>::make(i), Val<V>::make(i + n));
  auto all = [&](const M& x, const char* what) {
    vf::op("enumerate", "%s, %s", tag, what);
    VF_CHECK(x.nbElements() == (il::int_t)n, "count", "nbElements() = %ld, %ld keys are present", (long)x.nbElements(), (long)n);
    int64_t i = 0;
    for (il::spot_t s = x.spotBegin(); s != x.spotEnd(); s = x.next(s), ++i) {
      VF_CHECK(i < n, "iteration", "enumeration yields more than the %ld pairs", (long)n);
      VF_CHECK(x.key(s) == Spread<K>::make(i), "order", "%s: pair %ld of the enumeration is not the one inserted %ld-th", what, (long)i, (long)i);
      VF_CHECK(Val<V>::is(x.value(s), i >= from && (i - from) % step == 0 ? i + n : i), "value", "%s: key #%ld of %ld does not have its value", what, (long)i, (long)n);
      il::spot_t t = x.search(Spread<K>::make(i));
      VF_CHECK(x.found(t) && &x.value(t) == &x.value(s), "lost-key", "%s: key #%ld of %ld is not found where it is", what, (long)i, (long)n);
    }
    VF_CHECK(i == n, "iteration", "enumeration yields %ld of %ld pairs", (long)i, (long)n);
    for (; i < n + 50; ++i) VF_CHECK(!x.found(x.search(Spread<K>::make(i))), "phantom-key", "key #%ld is found and was never inserted", (long)i);
  };
  all(m, "after insertions");
  if (r.chance(50)) { M c(m); all(c, "copy"); c = M{}; c = m; all(c, "copy-assigned"); } else { M c(std::move(m)); all(c, "moved"); }
  vf::event("very-large");
  vf::sig((uint64_t)n); vf::nontrivial();
}
// long histories on larger maps
template <typename K> static K bigKey(int64_t i);
template <> long bigKey<long>(int64_t i) { return i * 7919 - 3000; }
template <> il::String bigKey<il::String>(int64_t i) { vf::Quiet q; std::string s = std::string((size_t)(i % 27), 'k') + std::to_string(i); return il::String{il::StringType::Byte, s.data(), (il::int_t)s.size()}; }
template <typename K, typename V>
static void marathon(Rng& r, const char* tag) {
  typedef il::MapArray<K, V> M;
  M m{};
  std::vector<std::pair<int64_t, int64_t>> w;
  std::map<int64_t, size_t> at;
  const int64_t space = r.chance(50) ? r.range(2, 30) : r.range(30, 3000);
  const int rounds = (int)r.range(5, 30);
  int64_t v = 0;
  for (int t = 0; t < rounds; ++t) {
    const int64_t n = r.range(1, 150);
    switch (r.below(5)) {
      default: for (int64_t i = 0; i < n; ++i) {
        int64_t id = r.below(space); ++v;
        vf::op("Set", "#%ld", (long)id);
        m.Set(bigKey<K>(id), Val<V>::make(v));
        vf::Quiet q;
        if (at.count(id)) w[at[id]].second = v; else { at[id] = w.size(); w.push_back({id, v}); }
      } break;
      case 3: { vf::op("copy", ""); M c(m); vf::op("assign", ""); m = c; break; }
      case 4: { vf::op("move", ""); M c(std::move(m)); m = std::move(c); break; }
    }
    vf::op("enumerate", "");
    VF_CHECK(m.nbElements() == (il::int_t)w.size(), "count", "nbElements() = %ld, %zu keys are present", (long)m.nbElements(), w.size());
    size_t k = 0;
    for (il::spot_t s = m.spotBegin(); s != m.spotEnd(); s = m.next(s), ++k) {
      VF_CHECK(k < w.size(), "iteration", "enumeration yields more than the %zu pairs", w.size());
      VF_CHECK(m.key(s) == bigKey<K>(w[k].first) && Val<V>::is(m.value(s), w[k].second), "order", "pair %zu of the enumeration is not the one inserted %zu-th", k, k);
    }
    VF_CHECK(k == w.size(), "iteration", "enumeration yields %zu of %zu pairs", k, w.size());
    for (int64_t id = 0; id < space; id += r.range(1, 5)) {
      il::spot_t s = m.search(bigKey<K>(id));
      VF_CHECK(m.found(s) == (at.count(id) != 0), "lost-key", "key #%ld: present=%d", (long)id, (int)at.count(id));
      if (m.found(s)) VF_CHECK(Val<V>::is(m.value(s), w[at[id]].second), "value", "key #%ld does not have its last value", (long)id);
    }
    vf::lifeCheck();
    vf::event("operations", n);
    vf::nontrivial();
  }
  vf::event("long-history");
  if (vf::wantSample()) vf::sample(vf::fmt("marathon %s: %d rounds over %ld keys, final size %zu", tag, rounds, (long)space, w.size()));
  vf::Quiet q;
  std::vector<std::pair<int64_t, int64_t>>().swap(w);
  at.clear();
}
void vf_case(Rng& r, uint64_t idx) {
  vf::lifeBegin();
  g_next = 100;
  if (!vf::lifeOnly() && r.below(500) == 0) { if (r.chance(60)) veryLarge<long, int>(r, "long->int"); else veryLarge<il::String, il::String>(r, "String->String"); vf::lifeEnd(); return; }
  if (r.chance(10)) {
    if (vf::lifeOnly() || r.chance(50)) marathon<long, Tracked>(r, "long->Tracked");
    else marathon<il::String, il::String>(r, "String->String");
    vf::lifeEnd();
    return;
  }
  static const int life[] = {1, 3, 4};
  int k = vf::lifeOnly() ? life[idx % 3] : (int)(idx % 6);
  makeKeys(r, k == 0 || k == 1);
  switch (k) {
    case 0: history<int, int, il::HashFunction<int>>(r, "int->int"); break;
    case 1: history<int, Tracked, Bad<int, 3>>(r, "int->Tracked, 3 hash values"); break;
    case 2: history<il::String, double, il::HashFunction<il::String>>(r, "String->double"); break;
    case 3: history<il::String, Tracked, StrF>(r, "String->Tracked, hash=length"); break;
    case 4: history<Tracked, il::Array<Tracked>, TF<2>>(r, "Tracked->Array, 2 hash values"); break;
    default: history<il::String, il::String, il::HashFunction<il::String>>(r, "String->String"); break;
  }
  vf::lifeEnd();
}
#else
template <typename K, typename F>
static void same(const il::Set<K, F>& m, const std::set<int>& w, const char* who) {
  VF_CHECK(m.nbElements() == (il::int_t)w.size(), "count", "%s: nbElements() = %ld, %zu elements are present", who, (long)m.nbElements(), w.size());
  for (int id = 0; id < kIds; ++id) {
    K key = Key<K>::make(id);
    bool in = w.count(id) != 0;
    VF_CHECK(m.contains(key) == in, in ? "lost-element" : "phantom-element", "%s: element #%d present=%d, contains() says %d", who, id, (int)in, (int)m.contains(key));
    il::spot_t s = m.search(key);
    VF_CHECK(m.found(s) == in, "search", "%s: element #%d present=%d, search() says %d", who, id, (int)in, (int)m.found(s));
    if (in) VF_CHECK(Key<K>::id(m.element(s)) == id, "spot", "%s: the spot of element #%d holds #%d", who, id, Key<K>::id(m.element(s)));
  }
  std::set<int> seen;
  il::int_t steps = 0;
  for (il::spot_t s = m.spotBegin(); s != m.spotEnd(); s = m.next(s)) {
    ++steps;
    VF_CHECK(steps <= (il::int_t)w.size(), "iteration", "%s: iteration yields more than the %zu elements", who, w.size());
    int id = Key<K>::id(m.element(s));
    bool fresh;
    { vf::Quiet q; fresh = seen.insert(id).second; }
    VF_CHECK(fresh && w.count(id), "iteration", "%s: iteration yields #%d %s", who, id, fresh ? "which is absent" : "twice");
  }
  { vf::Quiet q; seen.clear(); }
  VF_CHECK(steps == (il::int_t)w.size(), "iteration", "%s: iteration yields %ld of %zu elements", who, (long)steps, w.size());
  vf::event("lookups", kIds);
}
template <typename K, typename F>
static void history(Rng& r, const char* tag) {
  typedef il::Set<K, F> M;
  int alphabet = (int)(r.chance(30) ? r.range(2, 6) : r.range(6, kIds));
  int nm = (int)r.range(1, 3);
  std::vector<M*> m(3, nullptr);
  std::vector<std::set<int>> w(3);
  struct Del { std::vector<M*>& m; ~Del() { for (M* x : m) delete x; } } del{m};
  for (int i = 0; i < nm; ++i) { vf::op("Set()", "%s", tag); m[i] = new M{}; same(*m[i], w[i], "constructed"); }
  int steps = (int)r.range(5, 60);
  for (int t = 0; t < steps; ++t) {
    int a = (int)r.below(nm), b = (int)r.below(nm);
    M& x = *m[a];
    std::set<int>& wx = w[a];
    int id = (int)r.below(alphabet);
    switch (r.below(14)) {
      default: { K key = Key<K>::make(id); vf::op("Add", "%d #%d", a, id); x.Add(key); VF_CHECK(Key<K>::id(key) == id, "argument", "Add changed its argument"); vf::event(wx.count(id) ? "add-again" : "add"); { vf::Quiet q; wx.insert(id); } break; }
      case 6: case 7: { if (wx.count(id)) break; K key = Key<K>::make(id); il::spot_t s = x.search(key); VF_CHECK(!x.found(s), "phantom-element", "found before it was added"); vf::op("Add(spot)", "%d #%d", a, id); x.Add(key, il::io, s); VF_CHECK(x.found(s) && Key<K>::id(x.element(s)) == id, "spot", "the spot given back by Add does not denote the element"); { vf::Quiet q; wx.insert(id); } vf::event("remembered-spot"); break; }
      case 8: if (r.chance(40)) { vf::op("Clear", "%d", a); x.Clear(); { vf::Quiet q; wx.clear(); } vf::event("clear"); } break;
      case 9: { vf::op("copy", "%d<-%d", a, b); M* c = new M(*m[b]); delete m[a]; m[a] = c; { vf::Quiet q; w[a] = std::set<int>(w[b]); } vf::event("copy"); break; }
      case 10: vf::op(a == b ? "self-assign" : "copy-assign", "%d=%d", a, b); *m[a] = *m[b]; { vf::Quiet q; std::set<int> t2 = w[b]; w[a] = t2; } vf::event(a == b ? "self-assign" : w[b].empty() ? "copy-assign-empty" : "copy-assign"); break;
      case 11: { if (a == b) break; vf::op("move", "%d<-%d", a, b); M* c = new M(std::move(*m[b])); delete m[a]; m[a] = c; { vf::Quiet q; w[a] = w[b]; w[b].clear(); } vf::event("move"); break; }
      case 12: { if (a == b) break; vf::op("move-assign", "%d=%d", a, b); *m[a] = std::move(*m[b]); { vf::Quiet q; w[a] = w[b]; w[b].clear(); } vf::event("move-assign"); break; }
      case 13: { // element taken from the set itself: already present, must change nothing
        if (wx.empty()) break; vf::op("Add(own element)", "%d", a); x.Add(x.element(x.spotBegin())); break; }
    }
    vf::nontrivial();
    vf::lifeCheck();
    for (int i = 0; i < nm; ++i) same(*m[i], w[i], i == a ? "the set" : "another set");
    vf::lifeCheck();
    vf::event("operations");
  }
  if (vf::wantSample()) vf::sample(vf::fmt("%s: %d operations on %d sets over %d elements, final sizes %zu/%zu/%zu", tag, steps, nm, alphabet, w[0].size(), w[1].size(), w[2].size()));
}
// very large sets
template <typename K> struct Spread;
template <> struct Spread<long> { static long make(int64_t i) { return (long)((uint64_t)(i + 1) * 0x9E3779B97F4A7C15ull); } };
template <> struct Spread<il::String> { static il::String make(int64_t i) { vf::Quiet q; std::string s = std::to_string(i) + std::string((size_t)(i % 27), 'k'); return il::String{il::StringType::Byte, s.data(), (il::int_t)s.size()}; } };
template <typename K>
static void veryLarge(Rng& r, const char* tag) {
  typedef il::Set<K> M;
  const int64_t n = r.chance(50) ? r.mark(130000) : r.range(49000, 130000);
  vf::op("very large", "%s, %ld elements", tag, (long)n);
  M m{};
  for (int64_t i = 0; i < n; ++i) { m.Add(Spread<K>::make(i)); if (r.chance(5)) m.Add(Spread<K>::make(r.below(i + 1))); }
  auto all = [&](const M& x, const char* what) {
    vf::op("contains all", "%s, %s", tag, what);
    VF_CHECK(x.nbElements() == (il::int_t)n, "count", "nbElements() = %ld, %ld elements are present", (long)x.nbElements(), (long)n);
    for (int64_t i = 0; i < n + 50; ++i) VF_CHECK(x.contains(Spread<K>::make(i)) == (i < n), "membership", "%s: element #%ld of %ld", what, (long)i, (long)n);
    int64_t k = 0;
    for (il::spot_t s = x.spotBegin(); s != x.spotEnd(); s = x.next(s)) ++k;
    VF_CHECK(k == n, "iteration", "iteration yields %ld of %ld elements", (long)k, (long)n);
  };
  all(m, "after insertions");
  if (r.chance(50)) { M c(m); all(c, "copy"); c = M{}; c = m; all(c, "copy-assigned"); } else { M c(std::move(m)); all(c, "moved"); }
  vf::event("very-large");
  vf::sig((uint64_t)n); vf::nontrivial();
}
// long histories on larger sets
template <typename K> static K bigKey(int64_t i);
template <> long bigKey<long>(int64_t i) { return i * 7919 - 3000; }
template <> Tracked bigKey<Tracked>(int64_t i) { return Tracked(i); }
template <> il::String bigKey<il::String>(int64_t i) { vf::Quiet q; std::string s = std::string((size_t)(i % 27), 'k') + std::to_string(i); return il::String{il::StringType::Byte, s.data(), (il::int_t)s.size()}; }
template <typename K, typename F>
static void marathon(Rng& r, const char* tag) {
  typedef il::Set<K, F> M;
  M m{};
  std::set<int64_t> w;
  const int64_t space = r.chance(50) ? r.range(2, 30) : r.range(30, 3000);
  const int rounds = (int)r.range(5, 40);
  for (int t = 0; t < rounds; ++t) {
    const int64_t n = r.range(1, 150);
    switch (r.below(6)) {
      default: for (int64_t i = 0; i < n; ++i) { int64_t id = r.below(space); vf::op("Add", "#%ld", (long)id); m.Add(bigKey<K>(id)); vf::Quiet q; w.insert(id); } break;
      case 3: vf::op("Clear", ""); m.Clear(); { vf::Quiet q; w.clear(); } break;
      case 4: { vf::op("copy", ""); M c(m); vf::op("assign", ""); m = c; break; }
      case 5: { vf::op("move", ""); M c(std::move(m)); m = std::move(c); break; }
    }
    vf::op("contains all", "");
    VF_CHECK(m.nbElements() == (il::int_t)w.size(), "count", "nbElements() = %ld, %zu elements are present", (long)m.nbElements(), w.size());
    for (int64_t id = 0; id < space; id += r.range(1, 5)) VF_CHECK(m.contains(bigKey<K>(id)) == (w.count(id) != 0), "membership", "element #%ld: present=%d", (long)id, (int)w.count(id));
    il::int_t k = 0;
    for (il::spot_t s = m.spotBegin(); s != m.spotEnd(); s = m.next(s)) VF_CHECK(++k <= (il::int_t)w.size(), "iteration", "iteration yields more than the %zu elements", w.size());
    VF_CHECK(k == (il::int_t)w.size(), "iteration", "iteration yields %ld of %zu elements", (long)k, w.size());
    vf::lifeCheck();
    vf::event("operations", n);
    vf::nontrivial();
  }
  vf::event("long-history");
  if (vf::wantSample()) vf::sample(vf::fmt("marathon %s: %d rounds over %ld elements, final size %zu", tag, rounds, (long)space, w.size()));
  vf::Quiet q;
  w.clear();
}
void vf_case(Rng& r, uint64_t idx) {
  vf::lifeBegin();
  if (!vf::lifeOnly() && r.below(500) == 0) { if (r.chance(60)) veryLarge<long>(r, "long"); else veryLarge<il::String>(r, "String"); vf::lifeEnd(); return; }
  if (r.chance(10)) {
    if (vf::lifeOnly()) { vf::lifeEnd(); return; }
    if (r.chance(50)) marathon<long, il::HashFunction<long>>(r, "long");
    else marathon<il::String, il::HashFunction<il::String>>(r, "String");
    vf::lifeEnd();
    return;
  }
  int k = vf::lifeOnly() ? 5 : (int)(idx % 6);
  makeKeys(r, k == 0 || k == 1);
  switch (k) {
    case 0: history<int, il::HashFunction<int>>(r, "int"); break;
    case 1: history<int, Bad<int, 3>>(r, "int, 3 hash values"); break;
    case 2: history<long, Bad<long, 1>>(r, "long, one hash value"); break;
    case 3: history<il::String, il::HashFunction<il::String>>(r, "String"); break;
    case 4: history<il::String, StrF>(r, "String, hash=length"); break;
    default: history<Tracked, TF<5>>(r, "Tracked, 5 hash values"); break;
  }
  vf::lifeEnd();
}
#endif
