// A07: misuse of maps, sets, deques, trees, dynamic values, records and strings is rejected in a checked build.
#include "vfil.h"
#include <map>
#include <memory>
#include <il/Array.h>
#include <il/Map.h>
#include <il/MapArray.h>
#include <il/Set.h>
#include <il/String.h>
#include <il/UTF16String.h>
#include <il/Dynamic.h>
#include <il/Info.h>
#include <il/Status.h>
#include <il/Tree.h>
#include <il/container/deque/Deque.h>
#include "elem.h"
using vf::Rng;
typedef il::int_t I;
static volatile int64_t g_sink;
template <typename T> void touch(const T& x) { g_sink = g_sink + (int64_t)*(const volatile unsigned char*)&x; }
template <typename F> void reject(const char* name, const std::string& args, F fn) {
  vf::op(name, "%s", args.c_str());
  bool thrown = false;
  try { fn(); } catch (const il::AbortException&) { thrown = true; }
  VF_CHECK(thrown, (std::string("accepted@") + name).c_str(), "%s(%s) was executed although it violates the contract", name, args.c_str());
  vf::event("rejections");
  vf::nontrivial();
}
static std::string str(I a) { return vf::fmt("%ld", (long)a); }
static std::string text(const il::String& s) { vf::Quiet q; return std::string(s.asCString(), (size_t)s.size()); }

typedef il::HashFunction<int> H;
typedef il::Map<int, il::String, H> M;
static il::String val(int v) { il::String s{"v"}; s.Append((char)('0' + v / 10 % 10)); s.Append((char)('0' + v % 10)); if (v % 3 == 0) s.Append(" and more than fits in the object"); return s; }
static void same(const M& m, const std::map<int, int>& w) {
  VF_CHECK(m.nbElements() == (I)w.size(), "changed-by-rejected-call", "after %s: %ld elements instead of %zu", vf::st().last_op, (long)m.nbElements(), w.size());
  for (int k = 0; k < 40; ++k) {
    il::spot_t s = m.search(k); auto it = w.find(k);
    VF_CHECK(m.found(s) == (it != w.end()), "changed-by-rejected-call", "after %s: key %d", vf::st().last_op, k);
    if (it != w.end()) VF_CHECK(text(m.value(s)) == text(val(it->second)), "changed-by-rejected-call", "after %s: the value of key %d", vf::st().last_op, k);
  }
}
static void useSpot(Rng& r, M& m, il::spot_t s, const char* why, int key) {
  const M& c = m;
  std::string a = vf::fmt("%s, key %d", why, key);
  for (int t = 0, e = (int)r.range(1, 4); t < e; ++t) switch (r.below(10)) {
    case 0: reject("Map::found(outdated)", a, [&] { g_sink = c.found(s); }); break;
    case 1: reject("Map::key(outdated)", a, [&] { touch(c.key(s)); }); break;
    case 2: reject("Map::value(outdated)", a, [&] { touch(c.value(s)); }); break;
    case 3: reject("Map::Value(outdated)", a, [&] { touch(m.Value(s)); }); break;
    case 4: reject("Map::next(outdated)", a, [&] { g_sink = c.next(s).index; }); break;
    case 5: reject("Map::erase(outdated)", a, [&] { m.erase(s); }); break;
    case 6: { il::String v = val(7); int k = key; reject("Map::Set(k, v, outdated)", a, [&] { m.Set(k, v, il::io, s); }); break; }
    case 7: { il::String v = val(7); int k = key; reject("Map::Set(k, move v, outdated)", a, [&] { m.Set(k, std::move(v), il::io, s); }); break; }
    case 8: { il::String v = val(7); reject("Map::Set(move k, v, outdated)", a, [&] { m.Set(int(key), v, il::io, s); }); break; }
    default: { il::String v = val(7); reject("Map::Set(move k, move v, outdated)", a, [&] { m.Set(int(key), std::move(v), il::io, s); }); }
  }
}
static void maps(Rng& r) {
  M m;
  std::map<int, int> w;
  if (r.chance(10)) {  // nothing was ever inserted
    int k = (int)r.below(60);
    il::spot_t s = m.search(k);
    vf::op("empty", "%d", k);
    if (r.chance(50)) { m.Reserve(r.range(1, 30)); useSpot(r, m, s, "before the first Reserve", k); } else { m.Set(k + 1, val(1)); useSpot(r, m, s, "before the first insertion", k); m.erase(m.search(k + 1)); }
    same(m, w);
    vf::event("outdated-first");
    return;
  }
  I n = r.range(1, 14);
  { vf::Quiet q; while ((I)w.size() < n) w[(int)r.below(30)] = (int)r.below(50); }
  vf::op("fill", "%ld", (long)n);
  for (auto& e : w) m.Set(e.first, val(e.second));
  if (r.chance(30)) { int k = (int)r.range(30, 35);  m.Set(k, val(1)); m.erase(m.search(k)); }
  int key = (int)r.below(40);
  il::spot_t s = m.search(key);
  if (!m.found(s) && r.chance(40)) { key = w.begin()->first; s = m.search(key); }
  bool present = w.count(key) != 0;
  // spots that do not fit
  if (present) {
    reject("Map::Set(spot of a present key)", str(key), [&] { m.Set(key, val(3), il::io, s); });
    vf::event("present-spot");
  } else {
    reject("Map::erase(absent)", str(key), [&] { m.erase(s); });
    reject("Map::key(absent)", str(key), [&] { touch(m.key(s)); });
    reject("Map::value(absent)", str(key), [&] { touch(m.value(s)); });
    reject("Map::Value(absent)", str(key), [&] { touch(m.Value(s)); });
    vf::event("absent-spot");
  }
  { il::spot_t e = m.spotEnd(); reject("Map::key(end)", "", [&] { touch(m.key(e)); }); reject("Map::value(end)", "", [&] { touch(m.value(e)); }); reject("Map::Value(end)", "", [&] { touch(m.Value(e)); }); }
  int reserved = std::numeric_limits<int>::min() + (int)r.below(2);
  reject("Map::search(reserved key)", str(reserved), [&] { g_sink = m.search(reserved).index; });
  reject("Map::Set(reserved key)", str(reserved), [&] { m.Set(reserved, val(2)); });
  same(m, w);
  // positions remembered from before a change
  if (!present && r.chance(30)) {
    vf::op("next insertion", "%d", key);
    il::spot_t t = m.search(key);
    m.Set(key, val(4), il::io, t); { vf::Quiet q; w[key] = 4; }
    useSpot(r, m, s, "before the insertion", key);
    VF_CHECK(m.found(t) && m.key(t) == key, "spot", "the position given back by Set is refused or another");
    vf::event("outdated-insert");
  } else switch (r.below(6)) {
    case 0: { int k = 36 + (int)r.below(4); if (k == key) k = 35; vf::op("Set", "%d", k); m.Set(k, val(6)); { vf::Quiet q; w[k] = 6; } useSpot(r, m, s, "before an insertion", key); vf::event("outdated-insert"); break; }
    case 1: { int k = w.begin()->first; vf::op("erase", "%d", k); m.erase(m.search(k)); { vf::Quiet q; w.erase(k); }
      useSpot(r, m, s, "before an erasure", key); vf::event("outdated-erase"); break; }
    case 2: vf::op("Clear", " "); m.Clear(); { vf::Quiet q; w.clear(); } useSpot(r, m, s, "before Clear", key); vf::event("outdated-clear"); break;
    case 3: { I b = m.nbBuckets(); vf::op("Reserve", " "); m.Reserve(m.nbElements() + r.range(1, 40)); if (m.nbBuckets() == b) break; useSpot(r, m, s, "before Reserve", key); vf::event("outdated-reserve"); break; }
    case 4: { vf::op("moved", " "); M o; if (r.chance(50)) o.Set(3, val(3)); if (r.chance(50)) o = std::move(m); else { M p(std::move(m)); o = std::move(p); vf::op("moved twice", " "); } useSpot(r, m, s, "before the map was moved away", key); same(o, w); m = std::move(o); vf::event("outdated-move"); break; }
    default: { M o; vf::op("another map", " "); o.Set(key, val(9)); o.Set(key + 100, val(8)); o.Set(key + 200, val(8)); if (o.hash() == m.hash()) break;
      il::spot_t t = o.search(key); useSpot(r, m, t, "of another map", key); vf::event("outdated-other"); }
  }
  same(m, w);
  vf::sig((uint64_t)n * 64 + (uint64_t)key);
}
static void mapArrays(Rng& r) {
  il::MapArray<int, il::String, H> m;
  I n = r.range(0, 8);
  vf::op("fill", "%ld", (long)n);
  for (I i = 0; i < n; ++i) m.Set((int)i, val((int)i));
  const il::MapArray<int, il::String, H>& c = m;
  il::spot_t s = m.search(20), e = m.spotEnd();
  reject("MapArray::key(absent)", str(n), [&] { touch(c.key(s)); });
  reject("MapArray::value(absent)", str(n), [&] { touch(c.value(s)); });
  reject("MapArray::Value(absent)", str(n), [&] { touch(m.Value(s)); });
  reject("MapArray::key(end)", str(n), [&] { touch(c.key(e)); });
  reject("MapArray::value(end)", str(n), [&] { touch(c.value(e)); });
  int reserved = std::numeric_limits<int>::min() + (int)r.below(2);
  reject("MapArray::search(reserved key)", str(reserved), [&] { g_sink = c.search(reserved).index; });
  reject("MapArray::Set(reserved key)", str(reserved), [&] { m.Set(reserved, val(2)); });
  VF_CHECK(m.nbElements() == n, "changed-by-rejected-call", "%ld elements instead of %ld", (long)m.nbElements(), (long)n);
  I i = 0;
  for (il::spot_t t = m.spotBegin(); t != m.spotEnd(); t = m.next(t), ++i) VF_CHECK(m.key(t) == (int)i && text(m.value(t)) == text(val((int)i)), "changed-by-rejected-call", "pair %ld", (long)i);
  il::Set<int> z;
  for (I k = 0; k < n; ++k) z.Add((int)k);
  if (n > 0) { il::spot_t t = z.search((int)r.below(n)); reject("Set::Add(spot of a present element)", str(n), [&] { z.Add(3, il::io, t); }); }
  reject("Set::Add(reserved)", str(reserved), [&] { z.Add(reserved); });
  reject("Set::contains(reserved)", str(reserved), [&] { g_sink = z.contains(reserved); });
  VF_CHECK(z.nbElements() == n, "changed-by-rejected-call", "%ld elements of %ld", (long)z.nbElements(), (long)n);
  vf::event("map-array"); vf::sig((uint64_t)n);
}
static void dequeTree(Rng& r) {
  I cap = r.range(0, 5);
  il::Deque<il::String> d{cap};
  for (I k = 0, e = r.below(5); k < e && cap > 0; ++k) { d.PushBack(val((int)k)); d.PopFront(); }
  const il::Deque<il::String>& c = d;
  reject("Deque::front(empty)", str(cap), [&] { touch(c.front()); });
  reject("Deque::Front(empty)", str(cap), [&] { touch(d.Front()); });
  reject("Deque::back(empty)", str(cap), [&] { touch(c.back()); });
  reject("Deque::Back(empty)", str(cap), [&] { touch(d.Back()); });
  reject("Deque::PopFront(empty)", str(cap), [&] { d.PopFront(); });
  reject("Deque::PopBack(empty)", str(cap), [&] { d.PopBack(); });
  VF_CHECK(d.size() == 0, "changed-by-rejected-call", "size %ld", (long)d.size());
  if (cap > 0) { d.PushBack(val(3)); VF_CHECK(d.size() == 1 && text(d.front()) == text(val(3)) && text(d.back()) == text(val(3)), "changed-by-rejected-call", "the deque cannot be used anymore"); }
  il::Tree<int, 3> t;
  I b = r.chance(50) ? 3 + r.below(60) : -1 - r.below(5);
  reject("Tree::parent(root)", "", [&] { g_sink = t.parent(t.root()).index; });
  reject("Tree::child(leaf)", str(b), [&] { g_sink = t.child(t.root(), 0).index; });
  reject("Tree::hasChild(bad rank)", str(b), [&] { g_sink = t.hasChild(t.root(), b); });
  reject("Tree::AddChild(bad rank)", str(b), [&] { t.AddChild(t.root(), b); });
  il::spot_t out{1 + r.below(100)};
  reject("Tree::value(outside)", str(out.index), [&] { g_sink = t.value(out); });
  reject("Tree::Set(outside)", str(out.index), [&] { t.Set(out, 3); });
  reject("Tree::isEmpty(outside)", str(out.index), [&] { g_sink = t.isEmpty(out); });
  reject("Tree::AddChild(outside)", str(out.index), [&] { t.AddChild(out, 1); });
  VF_CHECK(!t.hasChild(t.root()) && t.isEmpty(t.root()), "changed-by-rejected-call", "the tree has changed");
  vf::event("deque-tree"); vf::sig((uint64_t)cap);
}
template <typename T> static void wrongTo(il::Dynamic& d, const char* n) { if (!d.is<T>()) reject("Dynamic::to(another type)", n, [&] { T x = d.to<T>(); touch(x); }); }
template <typename T> static void wrongAs(il::Dynamic& d, const char* n) {
  const il::Dynamic& c = d;
  if (!d.is<T>()) { reject("Dynamic::as(another type)", n, [&] { touch(c.as<T>()); }); reject("Dynamic::As(another type)", n, [&] { touch(d.As<T>()); }); }
}
static void dynamics(Rng& r) {
  std::unique_ptr<il::Dynamic> p;
  int kind = (int)r.below(8);
  vf::op("Dynamic", "%d", kind);
  switch (kind) {
    case 0: p.reset(new il::Dynamic()); break;
    case 1: p.reset(new il::Dynamic(true)); break;
    case 2: p.reset(new il::Dynamic((il::int_t)5)); break;
    case 3: p.reset(new il::Dynamic(2.5)); break;
    case 4: p.reset(new il::Dynamic(val((int)r.below(9)))); break;
    case 5: p.reset(new il::Dynamic(il::Array<double>{3, 1.5})); break;
    case 6: p.reset(new il::Dynamic(il::Array2D<double>{2, 2, 1.5})); break;
    default: p.reset(new il::Dynamic(il::Map<il::String, il::Dynamic>{}));
  }
  il::Dynamic& d = *p;
  il::Type before = d.type();
  for (int t = 0, e = (int)r.range(1, 5); t < e; ++t) switch (r.below(8)) {
    case 0: wrongTo<bool>(d, "bool"); break;
    case 1: wrongTo<il::int_t>(d, "integer"); break;
    case 2: wrongTo<double>(d, "double"); break;
    case 3: wrongAs<il::String>(d, "String"); break;
    case 4: wrongAs<il::Array<double>>(d, "Array<double>"); break;
    case 5: wrongAs<il::Array<il::Dynamic>>(d, "Array<Dynamic>"); break;
    case 6: wrongAs<il::Array2D<double>>(d, "Array2D<double>"); break;
    default: wrongAs<il::Map<il::String, il::Dynamic>>(d, "Map");
  }
  VF_CHECK(d.type() == before, "changed-by-rejected-call", "the type has changed");
  vf::event("dynamics"); vf::sig((uint64_t)kind);
}
static void records(Rng& r) {
  il::Info f;
  f.Set("number", (I)7); f.Set("real", 2.5); f.Set("text", "words");
  switch (r.below(3)) {
    case 0: reject("Info::toInteger(another type)", "", [&] { g_sink = f.toInteger(r.chance(50) ? "real" : "text"); }); break;
    case 1: reject("Info::toDouble(another type)", "", [&] { g_sink = (int64_t)f.toDouble(r.chance(50) ? "number" : "text"); }); break;
    default: reject("Info::asCString(another type)", "", [&] { touch(*f.asCString(r.chance(50) ? "number" : "real")); });
  }
  reject("Info::toInteger(absent)", "", [&] { g_sink = f.toInteger("numbe"); });
  reject("Info::toDouble(absent)", "", [&] { g_sink = (int64_t)f.toDouble("reall"); });
  reject("Info::asCString(absent)", "", [&] { touch(*f.asCString("tex")); });
  VF_CHECK(f.toInteger("number") == 7 && f.toDouble("real") == 2.5 && std::string(f.asCString("text")) == "words", "changed-by-rejected-call", "the record has changed");
  il::Status s;
  bool ok = r.chance(50), seen = r.chance(50);
  reject("Status::Ok(nothing happened)", "", [&] { g_sink = s.Ok(); });
  reject("Status::IgnoreError(nothing happened)", "", [&] { s.IgnoreError(); });
  reject("Status::SetInfo(nothing happened)", "", [&] { s.SetInfo("a", 3); });
  if (ok) s.SetOk(); else s.SetError(il::Error::ParseKey);
  if (!ok) s.SetInfo("line", 12);
  if (ok) { reject("Status::SetInfo(no error)", "", [&] { s.SetInfo("a", r.chance(50) ? 1.5 : 2.5); }); reject("Status::toInteger(no error)", "", [&] { g_sink = s.toInteger("line"); }); }
  reject("Status::SetError(not examined)", "", [&] { s.SetError(il::Error::ParseBool); });
  reject("Status::SetOk(not examined)", "", [&] { s.SetOk(); });
  reject("Status::error(not examined)", "", [&] { g_sink = (int)s.error(); });
  { il::Status o; o.SetOk(); reject("Status = Status(not examined)", "", [&] { s = std::move(o); }); o.IgnoreError(); }
  if (seen) VF_CHECK(s.Ok() == ok, "changed-by-rejected-call", "the outcome has changed"); else s.IgnoreError();
  if (!ok) VF_CHECK(s.error() == il::Error::ParseKey && s.toInteger("line") == 12, "changed-by-rejected-call", "the error has changed");
  reject("Status::Ok(examined before)", "", [&] { g_sink = s.Ok(); });
  vf::event("records"); vf::sig((uint64_t)ok * 2 + seen);
}
static void texts(Rng& r) {
  I n = r.range(0, 30);
  il::String s;
  bool wide = n > 0 && r.chance(50);
  { vf::Quiet q; }
  for (I i = 0; i < n; ++i) if (wide && i == n / 2) s.Append((int)0x20AC); else s.Append((char)('a' + i % 26));
  std::string keep = text(s);
  I m = s.size(), past = r.chance(50) ? m + 1 + r.below(5) : -1 - r.below(3);
  reject("String::Insert(outside, char)", str(past), [&] { s.Insert(past, 'x'); });
  reject("String::Insert(outside, n, char)", str(past), [&] { s.Insert(past, 2, 'x'); });
  reject("String::Insert(outside, literal)", str(past), [&] { s.Insert(past, "xyz"); });
  reject("String::Insert(outside, bytes)", str(past), [&] { s.Insert(past, il::StringType::Byte, "xyz", 2); });
  reject("String::Insert(negative count)", "", [&] { s.Insert(0, -1 - r.below(3), 'x'); });
  reject("String::Insert(not ASCII)", "", [&] { s.Insert(0, (char)-100); });
  reject("String::Insert(negative length)", "", [&] { s.Insert(0, il::StringType::Byte, "xyz", -1 - r.below(3)); });
  if (wide && s.type() == il::StringType::Utf8) {
    I in = n / 2 + 1 + r.below(2);
    reject("String::Insert(inside a rune, char)", str(in), [&] { s.Insert(in, 'x'); });
    reject("String::Insert(inside a rune, literal)", str(in), [&] { s.Insert(in, "xyz"); });
    reject("String::subview(inside a rune)", str(in), [&] { il::StringView v = s.subview(in, m); touch(v); });
    reject("String::substring(inside a rune)", str(in), [&] { il::String v = s.substring(0, in); touch(v); });
    vf::event("inside-a-rune");
  }
  VF_CHECK(text(s) == keep, "changed-by-rejected-call", "a rejected %s changed a string", vf::st().last_op);
  il::UTF16String u;
  for (I i = 0; i < n; ++i) u.Append((char)('a' + i % 26));
  reject("UTF16String::Reserve(negative)", "", [&] { u.Reserve(-1 - r.below(3)); });
  reject("UTF16String::Append(not ASCII)", "", [&] { u.Append((char)-100); });
  reject("UTF16String::Append(negative count)", "", [&] { u.Append((I)(-1 - r.below(3)), 'a'); });
  reject("UTF16String::Append(surrogate)", "", [&] { u.Append((int)(0xD800 + r.below(0x800))); });
  reject("UTF16String::Append(above the runes)", "", [&] { u.Append((int)(0x110000 + r.below(0x1000))); });
  reject("UTF16String::Append(n, surrogate)", "", [&] { u.Append((I)2, (int)(0xD800 + r.below(0x800))); });
  VF_CHECK(u.size() == n, "changed-by-rejected-call", "a rejected %s changed a 16-bit string", vf::st().last_op);
  vf::event("texts"); vf::sig((uint64_t)n * 2 + wide);
}
void vf_case(Rng& r, uint64_t) {
  switch (r.below(10)) {
    case 0: case 1: case 2: case 3: maps(r); break;
    case 4: mapArrays(r); break;
    case 5: dequeTree(r); break;
    case 6: dynamics(r); break;
    case 7: records(r); break;
    default: texts(r);
  }
}
