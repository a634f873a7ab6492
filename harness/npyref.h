// Independent strict reader and writer of the npy format (version 1.0).
#ifndef VF_NPYREF_H
#define VF_NPYREF_H
#include "vf.h"
#include <sys/stat.h>
namespace npy {
inline std::string slurp(const std::string& f) {
  std::string s;
  FILE* p = fopen(f.c_str(), "rb");
  if (!p) return s;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n);
  fclose(p);
  return s;
}
inline void spit(const std::string& f, const std::string& s) {
  unlink(f.c_str());
  FILE* p = fopen(f.c_str(), "wb");
  if (!p) return;
  if (!s.empty() && fwrite(s.data(), 1, s.size(), p) != s.size()) {}
  fclose(p);
}
struct Parsed {
  std::string error, descr;
  bool fortran = false;
  std::vector<long> shape;
  size_t data = 0;
};
struct Cur {
  const std::string& s;
  size_t i;
  void ws() { while (i < s.size() && s[i] == ' ') ++i; }
  bool lit(const char* t) { ws(); size_t n = strlen(t); if (s.compare(i, n, t) == 0) { i += n; return true; } return false; }
  bool str(std::string& o) {
    ws();
    if (i >= s.size() || (s[i] != '\'' && s[i] != '"')) return false;
    char q = s[i++];
    o.clear();
    while (i < s.size() && s[i] != q) { if (s[i] == '\\' || s[i] == '\n') return false; o += s[i++]; }
    if (i >= s.size()) return false;
    ++i;
    return true;
  }
  bool num(long& v) {
    ws();
    size_t b = i;
    v = 0;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9') { if (i - b > 17) return false; v = v * 10 + (s[i++] - '0'); }
    return i > b;
  }
};
// not strict: what surrounds the dictionary is not judged
inline Parsed parse(const std::string& f, bool strict = true) {
  Parsed p;
  auto bad = [&](const char* m) { p.error = m; return p; };
  if (f.size() < 10 || memcmp(f.data(), "\x93NUMPY", 6) != 0) return bad("no magic string");
  if (strict && (f[6] != 1 || f[7] != 0)) return bad("unknown version");
  // versions 2.0 and 3.0 have a longer header length, other versions do not exist
  const bool longer = (f[6] == 2 || f[6] == 3) && f[7] == 0;
  if (!longer && (f[6] != 1 || f[7] != 0)) return bad("unknown version");
  const size_t lead = longer ? 12 : 10;
  if (f.size() < lead) return bad("the header is truncated");
  size_t n = (unsigned char)f[8] + 256u * (unsigned char)f[9];
  if (longer) n += 65536u * (unsigned char)f[10] + 16777216u * (unsigned char)f[11];
  if (f.size() < lead + n) return bad("the header is truncated");
  std::string h = f.substr(lead, n);
  p.data = lead + n;
  if (!strict) {
    size_t a = h.find_first_not_of(" "), b = h.rfind('}');
    if (a == std::string::npos || b == std::string::npos) return bad("the header is not a dictionary");
    h = h.substr(a, b - a + 1) + "\n";
  }
  if (h.empty() || h[h.size() - 1] != '\n') return bad("the header does not end with a newline");
  if (strict && (10 + n) % 16 != 0) return bad("the header length is not a multiple of 16");
  h.erase(h.size() - 1);
  for (char c : h) if ((unsigned char)c < 32 || (unsigned char)c > 126) return bad("the header holds a character that is not printable");
  Cur c{h, 0};
  if (!c.lit("{")) return bad("the header is not a dictionary");
  int seen = 0;
  while (true) {
    if (c.lit("}")) break;
    std::string key;
    if (!c.str(key) || !c.lit(":")) return bad("a key is malformed");
    if (key == "descr") { if ((seen & 1) || !c.str(p.descr) || p.descr.size() < 3) return bad("descr is malformed"); seen |= 1; }
    else if (key == "fortran_order") {
      if (seen & 2) return bad("fortran_order twice");
      if (c.lit("True")) p.fortran = true; else if (c.lit("False")) p.fortran = false; else return bad("fortran_order is malformed");
      seen |= 2;
    } else if (key == "shape") {
      if ((seen & 4) || !c.lit("(")) return bad("shape is malformed");
      bool comma = true;
      while (!c.lit(")")) {
        long v;
        if (!comma || !c.num(v)) return bad("shape is malformed");
        p.shape.push_back(v);
        comma = c.lit(",");
      }
      if (p.shape.size() == 1 && !comma) return bad("a shape of one extent needs a comma");
      seen |= 4;
    } else return bad("unknown key");
    if (!c.lit(",")) { if (!c.lit("}")) return bad("the dictionary is malformed"); break; }
  }
  c.ws();
  if (c.i != h.size()) return bad("text after the dictionary");
  if (seen != 7) return bad("a key is missing");
  return p;
}
// a file as numpy writes it (old versions pad to 16, recent ones to 64)
inline std::string file(vf::Rng& r, const std::string& descr, const std::vector<long>& shape, bool fortran, const void* data, size_t bytes) {
  std::string h = "{'descr': '" + descr + "', 'fortran_order': " + (fortran ? "True" : "False") + ", 'shape': (";
  for (size_t i = 0; i < shape.size(); ++i) h += (i ? ", " : "") + std::to_string(shape[i]);
  if (shape.size() == 1) h += ",";
  h += "), }";
  size_t a = r.chance(50) ? 16 : 64;
  if (r.chance(20)) h += std::string((size_t)r.range(0, 30), ' ');  // space kept for growing the file
  while ((10 + h.size() + 1) % a) h += ' ';
  h += '\n';
  std::string f = "\x93NUMPY";
  f += (char)1; f += (char)0; f += (char)(h.size() & 255); f += (char)(h.size() >> 8);
  f += h;
  if (bytes) f.append((const char*)data, bytes);
  return f;
}
}  // namespace npy
#endif
