// Runtime-monitoring support shared by every harness: seeded case generation, event and
// coverage ledger, allocation / descriptor ledger, hang watchdog, crash trail.
#ifndef VF_H
#define VF_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <atomic>
#include <map>
#include <functional>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <exception>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define VF_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#endif
#ifdef VF_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*malloc_hook)(const volatile void*, size_t),
    void (*free_hook)(const volatile void*));
#endif

namespace vf {

struct Fail {
  std::string key, msg;
};

}  // namespace vf
#ifdef VF_TRAP_ABORT
// abort() is replaced in harnesses that check calls which must end the process: inside
// VF_ABORTS the call returns to the harness (objects of the skipped frames are not destroyed).
#include <setjmp.h>
namespace vf {
static jmp_buf g_abort_buf;
static volatile int g_abort_on = 0;
}
extern "C" void abort() noexcept {
  if (vf::g_abort_on) { vf::g_abort_on = 0; longjmp(vf::g_abort_buf, 1); }
  raise(SIGABRT);
  _exit(134);
}
#define VF_ABORTS(stmt)                                                   \
  ([&]() -> bool {                                                        \
    volatile bool rejected_ = false;                                      \
    if (setjmp(vf::g_abort_buf) == 0) {                                   \
      vf::g_abort_on = 1;                                                 \
      try { stmt; } catch (const il::AbortException&) { rejected_ = true; } \
      vf::g_abort_on = 0;                                                 \
    } else {                                                              \
      rejected_ = true;                                                   \
    }                                                                     \
    return rejected_;                                                     \
  }())
#endif
namespace vf {
// ---- ledgers --------------------------------------------------------------
struct State {
  std::map<std::string, uint64_t> events;
  std::set<uint64_t> sigs;
  std::vector<std::string> samples;
  std::vector<std::string> viol;  // JSON lines
  std::set<std::string> viol_keys;
  uint64_t evaluations = 0;
  uint64_t case_sig = 0;
  bool case_nontrivial = false;
  bool want_sample = false;
  std::string case_sample;
  uint64_t cur = 0;
  char* mem = nullptr;  // mmaped crash trail
  size_t trail = 0;
  const char* last_op = "start";
  bool verbose = false;
  bool track_leaks = true;
  bool track_fds = true;
  uint64_t mix = 0;  // per case; decides what needs no generator of its own
};
inline State& st() {
  static State* s = new State;
  return *s;
}
const size_t kTrail = 1 << 16;

static std::atomic<long> g_live(0), g_live_bytes(0), g_allocs(0);
static std::atomic<long> g_peak_req(0);
static thread_local int g_quiet = 0;
#ifdef VF_ASAN
// Live blocks are remembered in a fixed open-addressing table so frees of blocks that were
// allocated while quiet are ignored.
static const size_t kTab = 1 << 20;
static std::atomic<uintptr_t>* g_tab = nullptr;
inline size_t tab_ix(uintptr_t p) { return (p >> 4) * 0x9E3779B97F4A7C15ull >> 44; }
inline void hook_malloc(const volatile void* p, size_t n) {
  if (g_quiet || !p || !g_tab) return;
  ++g_allocs;
  if ((long)n > g_peak_req) g_peak_req = (long)n;
  size_t i = tab_ix((uintptr_t)p);
  for (size_t k = 0; k < 64; ++k) {
    uintptr_t e = g_tab[(i + k) & (kTab - 1)].load();
    if (e == 0 || e == 1) {
      if (g_tab[(i + k) & (kTab - 1)].compare_exchange_strong(e, (uintptr_t)p)) {
        ++g_live;
        return;
      }
    }
  }
}
inline void hook_free(const volatile void* p) {
  if (!p || !g_tab) return;
  size_t i = tab_ix((uintptr_t)p);
  for (size_t k = 0; k < 64; ++k) {
    uintptr_t e = g_tab[(i + k) & (kTab - 1)].load();
    if (e == (uintptr_t)p) {
      if (g_tab[(i + k) & (kTab - 1)].compare_exchange_strong(e, 1)) {
        --g_live;
        return;
      }
    }
    if (e == 0) return;
  }
}
#endif
struct Quiet {
  Quiet() { ++g_quiet; }
  ~Quiet() { --g_quiet; }
};

// ---- randomness -----------------------------------------------------------
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int64_t below(int64_t n) { return n <= 0 ? 0 : (int64_t)(next() % (uint64_t)n); }
  int64_t range(int64_t a, int64_t b) { return a + below(b - a + 1); }  // inclusive
  bool chance(int pct) { return below(100) < pct; }
  double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
  double sym() { return 2 * unit() - 1; }
  // sizes biased to boundaries
  int64_t size(int64_t max) {
    switch (below(8)) {
      case 0: return 0;
      case 1: return std::min<int64_t>(1, max);
      case 2: return std::min<int64_t>(range(0, 4), max);
      case 3: case 4: return range(0, std::min<int64_t>(10, max));
      case 5: { int64_t p = (int64_t)1 << below(12); p += range(-1, 1);
        return p < 0 ? 0 : std::min(p, max); }
      default: return range(0, max);
    }
  }
  // large sizes: around powers of 2 and round numbers, or of any magnitude
  int64_t mark(int64_t max) {
    int64_t p;
    switch (below(4)) {
      case 0: p = ((int64_t)1 << below(18)) + range(-2, 2); break;
      case 1: { static const int64_t e[] = {10, 20, 50, 100, 128, 200, 250, 255, 256, 300, 500, 512, 1000, 1024, 2000, 5000, 10000, 20000, 32768, 50000, 65535, 65536, 100000}; p = e[below(23)] + range(-1, 2); break; }
      case 2: p = max - below(max / 8 + 1); break;
      default: p = (int64_t)std::pow((double)max + 1, unit());
    }
    return p < 0 ? 0 : std::min(p, max);
  }
  template <typename T, size_t N>
  const T& pick(const T (&a)[N]) { return a[below((int64_t)N)]; }
  template <typename T>
  const T& pick(const std::vector<T>& a) { return a[below((int64_t)a.size())]; }
};

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}

// ---- reporting ------------------------------------------------------------
inline std::string fmtv(const char* f, va_list ap) {
  char buf[4096];
  vsnprintf(buf, sizeof buf, f, ap);
  return buf;
}
inline std::string fmt(const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  std::string s = fmtv(f, ap);
  va_end(ap);
  return s;
}
// name must be a literal; the rest describes the arguments
inline void op(const char* name, const char* f = "", ...) {
  State& s = st();
  s.last_op = name;
  if (!s.mem) return;
  char* m = s.mem + 256;
  size_t cap = kTrail - 256;
  strncpy(s.mem + 64, name, 127);
  char buf[400];
  va_list ap;
  va_start(ap, f);
  int n = snprintf(buf, sizeof buf, "%s ", name);
  if (n < 0) n = 0;
  if (n > 390) n = 390;
  vsnprintf(buf + n, sizeof buf - n, f, ap);
  va_end(ap);
  size_t len = strlen(buf);
  uint64_t hn = 1469598103934665603ull;
  for (size_t k = 0; k < len; ++k) hn = (hn ^ (unsigned char)buf[k]) * 1099511628211ull;
  s.case_sig = mix(s.case_sig, hn);
  if (s.trail + len + 2 > cap) {  // keep the second half
    memmove(m, m + cap / 2, s.trail - cap / 2);
    s.trail -= cap / 2;
  }
  memcpy(m + s.trail, buf, len);
  m[s.trail + len] = '\n';
  m[s.trail + len + 1] = 0;
  s.trail += len + 1;
  if (s.verbose) fprintf(stderr, "  op: %s\n", buf);
}
inline void sig(uint64_t v) { st().case_sig = mix(st().case_sig, v); }
inline void nontrivial() { st().case_nontrivial = true; }
inline void event(const char* name, uint64_t n = 1) {
  Quiet q;
  st().events[name] += n;
}
inline void sample(const std::string& s) {
  Quiet q;
  if (st().want_sample) st().case_sample = s;
}
inline bool wantSample() { return st().want_sample; }
[[noreturn]] inline void fail(const char* key, const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  std::string m = fmtv(f, ap);
  va_end(ap);
  throw Fail{key, m};
}
#define VF_CHECK(cond, key, ...)          \
  do {                                    \
    if (!(cond)) vf::fail(key, __VA_ARGS__); \
  } while (0)

inline std::string jesc(const std::string& s) {
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char c = (unsigned char)s[i];
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r;
}

// A02 runs the histories of the other monitors with lifetime-tracked elements only
inline bool lifeOnly() { static bool b = getenv("VF_LIFE") != nullptr; return b; }
inline int countFds() {
  int n = 0;
  for (int fd = 3; fd < 256; ++fd)
    if (fcntl(fd, F_GETFD) != -1) ++n;
  return n;
}
inline void onProf(int) {
  const char m[] = "VF-HANG\n";
  if (write(2, m, sizeof m - 1)) {}
  _exit(97);
}
inline void arm(int seconds) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &it, nullptr);
}

}  // namespace vf

// supplied by each harness
void vf_case(vf::Rng& r, uint64_t idx);
#ifdef VF_HAS_INIT
void vf_init();
#endif
#ifndef VF_EXTRA_CATCH
#define VF_EXTRA_CATCH
#endif

namespace vf {
inline void record(const std::string& key, const std::string& msg) {
  Quiet q;
  State& s = st();
  if (s.verbose) fprintf(stderr, "VIOLATION key=%s: %s\n", key.c_str(), msg.c_str());
  if (!s.viol_keys.insert(key).second) { s.events["violations_same_key"]++; return; }
  std::string trail(s.mem ? s.mem + 256 : "");
  if (trail.size() > 6000) trail = trail.substr(trail.size() - 6000);
  s.viol.push_back(fmt("{\"case\":%llu,\"key\":\"%s\",", (unsigned long long)s.cur, jesc(key).c_str()) +
                   "\"msg\":\"" + jesc(msg) + "\",\"trail\":\"" + jesc(trail) + "\"}");
}
// lets the lifetime monitor name the first cause of a later mismatch
typedef bool (*CauseFn)(std::string&, std::string&);
inline CauseFn& causeOf() { static CauseFn f = nullptr; return f; }
inline bool runOnce(uint64_t seed, uint64_t i) {
  State& s = st();
  {
    Quiet q;
    s.case_sig = mix(0, i & 0);
    s.case_nontrivial = false;
    s.trail = 0;
    s.case_sample.clear();
    if (s.mem) s.mem[256] = 0;
    s.last_op = "start";
    if (s.mem) strcpy(s.mem + 64, "start");
  }
  s.mix = mix(mix(seed, 0x05ed), i);
  Rng r(mix(mix(seed, 0x5eed), i));
  bool ok = true;
  std::string k, m;
  try {
    vf_case(r, i);
  }
  VF_EXTRA_CATCH
  catch (const Fail& f) {
    Quiet q;
    ok = false;
    std::string key = f.key, msg = f.msg;
    if (causeOf()) causeOf()(key, msg);
    record(key, msg);
  }
  catch (const std::exception& e) {
    Quiet q;
    ok = false;
    record(std::string("exception@") + s.last_op, std::string("unexpected exception ") + e.what());
  }
  return ok;
}
inline int run(int argc, char** argv) {
  uint64_t seed = 1, begin = 0, end = 1;
  const char* out = nullptr;
  const char* prog = nullptr;
  int cpu = 30;
  State& s = st();
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--seed") seed = strtoull(argv[++i], nullptr, 10);
    else if (a == "--begin") begin = strtoull(argv[++i], nullptr, 10);
    else if (a == "--end") end = strtoull(argv[++i], nullptr, 10);
    else if (a == "--out") out = argv[++i];
    else if (a == "--prog") prog = argv[++i];
    else if (a == "--cpu") cpu = atoi(argv[++i]);
    else if (a == "--verbose") s.verbose = true;
  }
  if (prog) {
    int fd = open(prog, O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, kTrail)) return 3;
    s.mem = (char*)mmap(nullptr, kTrail, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
  } else {
    s.mem = (char*)calloc(1, kTrail);
  }
  signal(SIGPROF, onProf);
#ifdef VF_ASAN
  g_tab = (std::atomic<uintptr_t>*)mmap(nullptr, kTab * sizeof(std::atomic<uintptr_t>),
                                         PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  __sanitizer_install_malloc_and_free_hooks(hook_malloc, hook_free);
#endif
#ifdef VF_HAS_INIT
  vf_init();
#endif
  for (uint64_t i = begin; i < end; ++i) {
    s.cur = i;
    snprintf(s.mem, 64, "%llu", (unsigned long long)i);
    s.want_sample = (i - begin) < 2;
    arm(cpu);
    long live0 = g_live;
    int fd0 = s.track_fds ? countFds() : 0;
    bool ok = runOnce(seed, i);
    {
      Quiet q;
      ++s.evaluations;
      if (s.case_nontrivial) s.sigs.insert(s.case_sig);
      if (s.want_sample && !s.case_sample.empty()) s.samples.push_back(s.case_sample);
    }
    if (ok && s.track_leaks && g_live > live0) {
      // caches (of LAPACK, of the threads) may grow a few times; a leak grows every time
      bool leak = true;
      long first = g_live - live0;
      for (int k = 0; k < 16 && leak && ok; ++k) {
        long l0 = g_live;
        arm(cpu);
        ok = runOnce(seed, i);
        if (g_live <= l0) leak = false;
      }
      if (leak && ok) record(std::string("leak"), fmt("%ld block(s) still allocated after the case, again on each repetition", first));
    }
    if (ok && s.track_fds) {
      int fd1 = countFds();
      if (fd1 > fd0) {
        ok = runOnce(seed, i);
        if (ok && countFds() > fd1) record("fd-leak", fmt("%d descriptor(s) left open after the case", fd1 - fd0));
      }
    }
    if (s.viol_keys.size() >= 8) break;
  }
  arm(0);
  Quiet q;
  if (out) {
    FILE* f = fopen(out, "w");
    if (!f) return 3;
    fprintf(f, "{\"evaluations\":%llu,\"allocs\":%ld,\"events\":{", (unsigned long long)s.evaluations, (long)g_allocs);
    bool first = true;
    for (auto& e : s.events) {
      fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(e.first).c_str(), (unsigned long long)e.second);
      first = false;
    }
    fprintf(f, "},\"sigs\":[");
    first = true;
    for (uint64_t v : s.sigs) { fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)v); first = false; }
    fprintf(f, "],\"samples\":[");
    first = true;
    for (auto& v : s.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(v).c_str()); first = false; }
    fprintf(f, "],\"violations\":[");
    first = true;
    for (auto& v : s.viol) { fprintf(f, "%s%s", first ? "" : ",\n", v.c_str()); first = false; }
    fprintf(f, "]}\n");
    fclose(f);
  }
  fflush(nullptr);
  _exit(0);
}
}  // namespace vf
#ifndef VF_NO_MAIN
int main(int argc, char** argv) { return vf::run(argc, argv); }
#endif
#endif
