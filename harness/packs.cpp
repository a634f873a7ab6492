// I05: binary packs, buffered raw files and pixel images against models of their content.
#include "packref.h"
using namespace pk;

static void ok(il::Status& s, const char* what) {
  bool good = s.Ok();
  VF_CHECK(good, what, "%s reports error %d", what, (int)s.error());
}
static void pack(Rng& r) {
  struct Doc { V* v; Doc() { vf::Quiet q; v = new V; } ~Doc() { vf::Quiet q; delete v; } } d;
  // optionally a map saved as an array of structures, reached by a path of keys
  int opt = r.chance(30) ? (int)r.range(1, 3) : 0;
  std::vector<std::string> path;
  {
    vf::Quiet q;
    *d.v = map(r, 3, true);
    if (opt) {
      V inner = fields(r);
      for (int i = 0; i < opt; ++i) {
        std::string key = "struct" + std::to_string(r.below(100));
        path.insert(path.begin(), key);
        if (i == opt - 1) { d.v->m.push_back({key, inner}); break; }
        V t = map(r, 1, false);
        t.k = i > 0 && r.chance(30) ? kMP : kMA;
        t.m.push_back({key, inner});
        inner = t;
      }
    }
  }
  vf::op("save pack", "%zu keys, structure path %d", d.v->m.size(), opt);
  for (auto& e : d.v->m) vf::sig((uint64_t)e.second.k * 64 + e.second.m.size() * 16 + e.second.v.size() + e.first.size());
  MA m{};
  fill(r, *d.v, m);
  if (r.chance(70)) unlink("x.data");  // otherwise an older file is overwritten
  {
    il::Status s{}; vf::used(s);
    if (opt) {
      il::Array<il::String> o{};
      for (auto& k : path) o.Append(S(k));
      il::save(m, o, S("x.data"), il::io, s);
      vf::event("array-of-struct");
    } else il::save(m, S("x.data"), il::io, s);
    ok(s, "save");
  }
  std::string e = [&] { vf::Quiet q; return differsMap(m, *d.v, true); }();
  VF_CHECK(e.empty(), "argument-changed", "saving changes its argument: %s", e.c_str());
  vf::op("load pack");
  {
    il::Status s{}; vf::used(s);
    MA m2 = il::load<MA>(S("x.data"), il::io, s);
    ok(s, "load");
    vf::Quiet q;
    e = differsMap(m2, *d.v, true);
    VF_CHECK(e.empty(), "content", "loaded back differs in %s", e.c_str());
  }
  if (r.chance(30)) {
    vf::op("load pack as map");
    il::Status s{}; vf::used(s);
    MP m2 = il::load<MP>(S("x.data"), il::io, s);
    ok(s, "load-map");
    vf::Quiet q;
    e = differsMap(m2, *d.v, false);
    VF_CHECK(e.empty(), "content", "loaded back as a Map differs in %s", e.c_str());
    vf::event("as-map");
  }
  vf::event("pack-round-trip");
  vf::event("values", d.v->m.size());
  vf::Quiet q; std::vector<std::string>().swap(path); std::string().swap(e);
}
static void raw(Rng& r) {
  std::string want;
  const std::string name = "raw";
  {
    vf::op("write raw file");
    il::Status s{}; vf::used(s);
    il::File f{S(name), il::FileMode::Write, il::io, s};
    ok(s, "open-write");
    int n = (int)r.size(20);
    for (int k = 0; k < n; ++k) {
      const il::int_t ob = r.pick({1, 1, 2, 4, 8, 12}), c = r.size(r.chance(10) ? 3000 : 40);
      std::string chunk;
      { vf::Quiet q; for (il::int_t i = 0; i < ob * c; ++i) chunk += (char)r.below(256); }
      il::Status s2{}; vf::used(s2);
      f.Write(chunk.data(), c, (std::size_t)ob, il::io, s2);
      ok(s2, "write");
      vf::Quiet q;
      want += chunk;
      std::string().swap(chunk);
    }
    il::Status s2{}; vf::used(s2);
    f.Close(il::io, s2);
    ok(s2, "close");
    vf::Quiet q;
    VF_CHECK(npy::slurp(name) == want, "written", "the file does not hold the bytes written");
  }
  for (int pass = 0; pass < 2; ++pass) {
    il::int_t buf = 0;
    switch (r.below(5)) { case 0: break; case 1: buf = r.range(1, 16); break; case 2: buf = (il::int_t)want.size(); break; case 3: buf = (il::int_t)want.size() + r.range(-3, 3); break; default: buf = r.range(1, 600); }
    if (buf < 0) buf = 0;
    vf::op("read raw file", "%zu bytes, buffer %ld", want.size(), (long)buf);
    il::Status s{}; vf::used(s);
    il::File f{S(name), il::FileMode::Read, buf, il::io, s};
    ok(s, "open-read");
    size_t at = 0;
    int steps = (int)r.range(1, 40);
    bool past = false;
    for (int k = 0; k < steps && !past; ++k) {
      il::Status s2{}; vf::used(s2);
      const size_t left = want.size() - at;
      int c = (int)r.below(10);
      if (c == 0) {
        size_t n = (size_t)r.size(60);
        if (n > left) n = left;
        vf::op("skip", "%zu", n);
        f.Skip(n, il::io, s2);
        ok(s2, "skip");
        at += n;
        vf::event("skips");
      } else if (c < 4) {
        short* p; { vf::Quiet q; p = new short[3]; }
        vf::op("read three shorts");
        f.Read<3>(il::io, p, s2);
        bool good = s2.Ok();
        bool same = good && left >= 6 && memcmp(p, want.data() + at, 6) == 0;
        { vf::Quiet q; delete[] p; }
        VF_CHECK(good == (left >= 6), good ? "past-end" : "read", "reading 6 bytes with %zu left: success %d", left, (int)good);
        VF_CHECK(!good || same, "read-content", "the bytes read at %zu are not those of the file", at);
        if (good) at += 6; else past = true;
        vf::event("fixed-reads");
      } else {
        size_t ob = (size_t)r.pick({1, 1, 2, 4, 8, 3});
        il::int_t n = c < 8 ? r.range(0, 20) : r.size(600);
        size_t bytes = ob * (size_t)n;
        unsigned char* p; { vf::Quiet q; p = (unsigned char*)malloc(bytes ? bytes : 1); }
        vf::op("read", "%ld objects of %zu bytes at %zu, %zu left", (long)n, ob, at, left);
        f.Read(n, ob, il::io, p, s2);
        bool good = s2.Ok();
        bool same = good && left >= bytes && memcmp(p, want.data() + at, bytes) == 0;
        { vf::Quiet q; free(p); }
        VF_CHECK(good == (left >= bytes), good ? "past-end" : "read", "reading %zu bytes with %zu left: success %d", bytes, left, (int)good);
        VF_CHECK(!good || same, "read-content", "the %zu bytes read at %zu are not those of the file", bytes, at);
        if (good) at += bytes; else past = true;
        vf::event(buf >= (il::int_t)bytes ? "buffered-reads" : "direct-reads");
        vf::event("bytes-read", bytes);
      }
    }
    if (past) vf::event("past-end");
    il::Status s3{}; vf::used(s3);
    f.Close(il::io, s3);
    ok(s3, "close");
  }
  vf::event("raw-round-trip");
  vf::Quiet q; std::string().swap(want);
}
static void image(Rng& r) {
  int w = (int)r.range(1, r.chance(10) ? 300 : 12), h = (int)r.range(1, r.chance(10) ? 300 : 12);
  std::string px;
  { vf::Quiet q; for (int i = 0; i < 3 * w * h; ++i) px += r.chance(20) ? "\n#P\r \t6"[r.below(7)] : (char)r.below(256); npy::spit("x.ppm", ppm(r, w, h, px)); }
  vf::op("read image", "%dx%d", w, h);
  vf::sig((uint64_t)w * 1000 + (uint64_t)h + (r.next() & 0xff) * 1000000);
  il::Status s{}; vf::used(s);
  il::Array2D<il::Pixel> im = [&] { std::string n("x.ppm"); return il::readPpm(n, il::io, s); }();
  ok(s, "read-image");
  VF_CHECK(im.size(0) == w && im.size(1) == h, "image-size", "the image is %ldx%ld instead of %dx%d", (long)im.size(0), (long)im.size(1), w, h);
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x) {
      const il::Pixel& p = im(x, y);
      const unsigned char* q = (const unsigned char*)px.data() + 3 * (y * w + x);
      VF_CHECK(p.red == q[0] && p.green == q[1] && p.blue == q[2], "pixel", "the pixel in column %d of line %d differs from the file", x, y);
    }
  vf::event("pixels", (uint64_t)w * (uint64_t)h);
  vf::event("images");
  vf::Quiet q; std::string().swap(px);
}
void vf_case(Rng& r, uint64_t) {
  int n = (int)r.range(1, 3);
  for (int i = 0; i < n; ++i) {
    int c = (int)r.below(10);
    if (c < 5) pack(r); else if (c < 8) raw(r); else image(r);
    vf::nontrivial();
    vf::event("operations");
  }
  if (vf::wantSample()) vf::sample(vf::fmt("%d files", n));
}
