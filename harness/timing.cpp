// T01: timers and benchmark loops on a clock that this program owns: the time they report is compared, to the
// nanosecond, with the time that was made to pass.
#include "vfil.h"
#include <cerrno>
#include <chrono>
#include <ctime>
#include <sched.h>
#include <sys/syscall.h>
#include <unistd.h>
using vf::Rng;

// ---- the clock --------------------------------------------------------------
static bool g_virtual = false;
static int64_t g_now = 0, g_slept = 0;    // nanoseconds
static int g_sleeps = 0;
static Rng* g_r = nullptr;
static int64_t realNow() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000LL + t.tv_nsec; }
static int64_t now() { return g_virtual ? g_now : realNow(); }
static int pass(int64_t ns, timespec* left) {
  ++g_sleeps;
  // a signal may end a sleep early
  if (ns > 1 && g_r && g_r->chance(20)) {
    int64_t done = (int64_t)(g_r->unit() * (double)ns);
    if (done >= ns) done = ns - 1;
    g_now += done; g_slept += done; ns -= done;
    if (left) { left->tv_sec = ns / 1000000000; left->tv_nsec = ns % 1000000000; }
    return EINTR;
  }
  g_now += ns; g_slept += ns;
  return 0;
}
extern "C" int nanosleep(const timespec* t, timespec* left) {
  if (!g_virtual) return (int)syscall(SYS_nanosleep, t, left);
  int e = pass(t->tv_sec * 1000000000LL + t->tv_nsec, left);
  if (e) { errno = e; return -1; }
  return 0;
}
extern "C" int clock_nanosleep(clockid_t c, int flags, const timespec* t, timespec* left) {
  if (!g_virtual) return syscall(SYS_clock_nanosleep, c, flags, t, left) == 0 ? 0 : errno;
  int64_t ns = t->tv_sec * 1000000000LL + t->tv_nsec;
  if (flags & TIMER_ABSTIME) { ns -= g_now; left = nullptr; }
  return ns > 0 ? pass(ns, left) : 0;
}
extern "C" int clock_gettime(clockid_t c, timespec* t) {
  if (!g_virtual) return (int)syscall(SYS_clock_gettime, c, t);
  t->tv_sec = g_now / 1000000000; t->tv_nsec = g_now % 1000000000;
  return 0;
}
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(::now())); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(::now())); }
}}}
#include <il/Timer.h>
#include <il/benchmark/tools/timer/Benchmark.h>

struct Clock {
  Clock(Rng& r) { g_now = r.chance(20) ? r.range(0, 5) : (int64_t)r.below(2000000000) * 1000000000 + (int64_t)r.below(1000000000); g_slept = 0; g_sleeps = 0; g_r = &r; g_virtual = true; }
  ~Clock() { g_virtual = false; g_r = nullptr; }
};
static int64_t duration(Rng& r) {
  switch (r.below(5)) { case 0: return r.range(0, 3); case 1: return r.range(0, 2000); case 2: return r.range(0, 5000000); case 3: return r.range(0, 4000) * 1000000000LL + r.range(0, 999999999); default: return r.range(0, 3000000000LL); }
}
static bool near(double got, long double want_ns, long double slack_ns) { return std::fabs((double)((long double)got * 1e9L - want_ns)) <= (double)(slack_ns + 1e-12L * fabsl(want_ns)); }

static void timers(Rng& r) {
  Clock clock(r);
  il::Timer t[2];
  bool on[2] = {false, false};
  int64_t since[2] = {0, 0}, sum[2] = {0, 0};
  int n[2] = {0, 0};
  auto check = [&](const char* after) {
    for (int k = 0; k < 2; ++k) VF_CHECK(near(t[k].time(), (long double)sum[k], 1e-3L * (n[k] + 1)), "time", "after %s timer %d says %.12g s, %ld ns have passed", after, k, t[k].time(), (long)sum[k]);
  };
  check("construction");
  int steps = (int)r.range(3, 40);
  for (int s = 0; s < steps; ++s) {
    int k = (int)r.below(2);
    if (r.chance(70)) g_now += duration(r);
    switch (r.below(8)) {
      case 0: case 1:
        if (on[k]) continue;
        vf::op("start", "%d", k); t[k].Start(); on[k] = true; since[k] = g_now; vf::event("started"); check("Start"); break;
      case 2: case 3: case 4:
        if (!on[k]) continue;
        vf::op("stop", "%d after %ld ns", k, (long)(g_now - since[k])); t[k].Stop(); on[k] = false; sum[k] += g_now - since[k]; ++n[k]; vf::event("stopped"); if (n[k] > 1) vf::event("accumulated"); check("Stop"); break;
      case 5: if (!r.chance(40)) continue;
        vf::op("reset", "%d %s", k, on[k] ? "running" : "stopped"); t[k].Reset(); on[k] = false; sum[k] = 0; n[k] = 0; vf::event("reset"); check("Reset"); break;
      case 6: {
        if (!on[k]) continue;
        int64_t ns = r.chance(20) ? -duration(r) : duration(r);
        if (r.chance(30)) ns = g_now - since[k] + r.range(-3, 3);
        double until = 1e-9 * (double)ns;
        const int64_t before = g_now, slept = g_slept; const int sleeps = g_sleeps;
        vf::op("sleepUntil", "%d until %ld ns, %ld passed", k, (long)ns, (long)(before - since[k]));
        t[k].sleepUntil(until);
        const long double slack = 2 + 1e-15L * fabsl((long double)ns) * 4;
        VF_CHECK((long double)(g_now - since[k]) >= (long double)ns - slack, "woke-early", "asleep until %ld ns after the start, awake after %ld ns", (long)ns, (long)(g_now - since[k]));
        const long double left = (long double)ns - (long double)(before - since[k]);
        VF_CHECK((long double)(g_slept - slept) <= (left > 0 ? left : 0) + slack, "overslept", "%ld ns were left, %ld ns were slept", (long)left, (long)(g_slept - slept));
        vf::event(left > 3 ? "slept" : "no-time-left"); if (g_sleeps > sleeps + 1) vf::event("interrupted-sleep");
        check("sleepUntil"); break;
      }
      default: {
        if (!r.chance(40)) continue;
        vf::op("copy", "%d", k);
        t[1 - k] = il::Timer(t[k]); on[1 - k] = on[k]; since[1 - k] = since[k]; sum[1 - k] = sum[k]; n[1 - k] = n[k]; vf::event("copied"); check("copy");
      }
    }
    vf::sig((uint64_t)(s * 8 + k) + (uint64_t)sum[k]); vf::nontrivial();
  }
  int64_t ns = duration(r), before = g_now;
  if (r.chance(10)) ns = -ns;
  vf::op("sleep", "%ld ns", (long)ns);
  il::sleep(1e-9 * (double)ns);
  const long double slack = 2 + 1e-15L * fabsl((long double)ns) * 4;
  VF_CHECK((long double)(g_now - before) >= (long double)ns - slack, "woke-early", "sleep of %ld ns took %ld ns", (long)ns, (long)(g_now - before));
  VF_CHECK((long double)(g_now - before) <= (long double)(ns > 0 ? ns : 0) + slack, "overslept", "sleep of %ld ns took %ld ns", (long)ns, (long)(g_now - before));
  vf::event("sleep");
}
#ifndef NDEBUG
template <typename F> static void reject(const char* what, F f) {
  vf::op("misuse", "%s", what);
  bool ok = false;
  try { f(); } catch (const il::AbortException&) { ok = true; }
  VF_CHECK(ok, "misuse-accepted", "%s is accepted", what);
  vf::event("misuse-rejected");
}
static void misuse(Rng& r) {
  Clock clock(r);
  il::Timer t{};
  reject("Stop of a timer that does not run", [&] { t.Stop(); });
  reject("sleepUntil of a timer that does not run", [&] { t.sleepUntil(1.0); });
  t.Start(); int64_t d = duration(r); g_now += d;
  reject("Start of a timer that runs", [&] { t.Start(); });
  g_now += 1000; d += 1000;
  vf::op("stop", ""); t.Stop();
  VF_CHECK(near(t.time(), (long double)d, 1e-2L), "time", "a rejected Start changed the time: %.12g s instead of %ld ns", t.time(), (long)d);
  reject("Stop of a timer that was stopped", [&] { t.Stop(); });
  t.Start(); t.Reset();
  reject("Stop of a timer that was reset", [&] { t.Stop(); });
  VF_CHECK(t.time() == 0.0, "time", "a rejected Stop changed the time");
  t.Start(); t.Stop();
  VF_CHECK(t.time() == 0.0, "time", "time after Reset");
}
#endif
// a loop of the benchmark runs exactly as often as it is told, and what happens while it is paused is not counted
static void states(Rng& r) {
  Clock clock(r);
  int64_t n = r.chance(10) ? 0 : r.range(1, 60), count = 0, inside = 0;
  il::BState s(n);
  int64_t lead = duration(r); g_now += lead;
  vf::op("timing loop", "%ld rounds", (long)n);
  bool pauses = r.chance(60), open = false;
  int64_t base = 0;
  while (s.keep_running()) {
    VF_CHECK(++count <= n, "rounds", "round %ld of %ld", (long)count, (long)n);
    open = true;
    for (int k = 0; k < (int)r.range(1, 3); ++k) {
      int64_t d = duration(r); g_now += d; if (open) inside += d;
      if (pauses && open && r.chance(40)) { s.pause_timing(); open = false; vf::event("paused"); }
      else if (!open && r.chance(60)) { s.resume_timing(); open = true; }
    }
  }
  (void)base;
  VF_CHECK(count == n, "rounds", "%ld rounds instead of %ld", (long)count, (long)n);
  if (n > 0) VF_CHECK(near(s.time(), (long double)inside / n, 1e-3L), "loop-time", "%.12g s per round, %ld ns have passed in %ld rounds", s.time(), (long)inside, (long)n);
  il::BStateShort q(n); count = 0;
  while (q.keep_running()) VF_CHECK(++count <= n, "rounds", "round %ld of %ld", (long)count, (long)n);
  VF_CHECK(count == n, "rounds", "%ld rounds instead of %ld", (long)count, (long)n);
  vf::event("timing-loop"); vf::sig((uint64_t)inside); vf::nontrivial();
}
// il::benchmark and il::benchmark_short divide the time of their last run by the number of rounds they computed for the next
// run, which never takes place. This is the known finding T01-benchmark-next-count: the cases 0 and 1 report it, the other cases
// accept what this very mistake gives, down to the last bits, and nothing else.
static bool next_count(double got, bool brief, int64_t whole, int64_t inside, int64_t rounds, double goal) {
  const double total = brief ? 1.0e-9 * (1 + whole) : rounds * (1.0e-9 + (1.0e-9 * inside) / rounds);
  for (double q : {1.0, 1.0 - 1e-12, 1.0 + 1e-12}) {
    const double e = q * (goal / (total / rounds));
    const int64_t next = e <= 10.0 * rounds ? (int64_t)e : 10 * rounds, least = next < 10 * rounds ? next : 10 * rounds;
    if (least == 0 ? std::isinf(got) && got > 0 : std::fabs(got - total / least) <= 1e-12 * got) return true;
  }
  return false;
}
static void benchmarks(Rng& r, int which = 2) {
  Clock clock(r);
  const double goal = which < 2 ? 0.15 : std::pow(10.0, -r.unit() * 4);
  const double cost = which < 2 ? 1e6 : goal * 1e9 * std::pow(10.0, r.unit() * 6 - 4.5);      // nanoseconds per round
  const int64_t c = (int64_t)cost + 1, setup = which < 2 ? 0 : r.chance(50) ? duration(r) / 1000 : 0, jitter = which < 2 || r.chance(50) ? 0 : c / 3;
  int64_t rounds = 0, inside = 0, whole = 0; int runs = 0;
  const bool brief = which < 2 ? which == 1 : r.chance(50), with_default = goal > 0.5;
  vf::op(brief ? "benchmark_short" : "benchmark", "goal %g s, %ld ns per round, setup %ld ns", goal, (long)c, (long)setup);
  double got;
  auto loop = [&](bool more) { if (!more) return false; ++rounds; int64_t d = c + (jitter ? r.range(-jitter, jitter) : 0); g_now += d; inside += d; return true; };
  auto begin = [&] { ++runs; rounds = 0; inside = 0; whole = -g_now; g_now += setup; };
  (void)with_default;
  if (brief) got = il::benchmark_short([&](il::io_t, il::BStateShort& s) { begin(); while (loop(s.keep_running())) {} whole += g_now; }, goal);
  else got = il::benchmark([&](il::io_t, il::BState& s) { begin(); while (loop(s.keep_running())) {} g_now += setup; whole += g_now; }, goal);
  const long double want = (long double)(brief ? whole : inside) / (long double)rounds;
  VF_CHECK(rounds > 0 && runs <= 30, "rounds", "%ld rounds in run %d", (long)rounds, runs);
  // rounds of a millisecond and a goal of 0.15 s: 1, 10 and 100 rounds, and 150 rounds would be next
  if (which < 2 && !near(got, want, 1.01L + 1e-9L * want) && next_count(got, brief, whole, inside, rounds, goal))
    vf::fail(brief ? "benchmark-next-count:benchmark_short" : "benchmark-next-count:benchmark", "rounds of %ld ns: %s says %.12g s per round, its last run took %ld ns for %ld rounds", (long)c, brief ? "benchmark_short" : "benchmark", got, (long)(brief ? whole : inside), (long)rounds);
  VF_CHECK(near(got, want, 1.01L + 1e-9L * want) || next_count(got, brief, whole, inside, rounds, goal), "benchmark-time", "%s says %.12g s per round; its last run took %ld ns for %ld rounds", brief ? "benchmark_short" : "benchmark", got, (long)(brief ? whole : inside), (long)rounds);
  VF_CHECK((long double)(brief ? whole : inside) + 2.0L * (rounds + 1) >= 0.4999e9L * goal || runs > 15, "benchmark-length", "the last of %d runs took %ld ns, the goal is %g s", runs, (long)(brief ? whole : inside), goal);
  vf::event(runs == 1 ? "benchmark-one-run" : "benchmark-runs"); vf::event("benchmark"); vf::sig((uint64_t)c); vf::nontrivial();
}
static uint64_t tsc() { unsigned lo, hi; asm volatile("rdtsc" : "=a"(lo), "=d"(hi)); return (uint64_t)lo | ((uint64_t)hi << 32); }
static void cycles(Rng& r) {
  static bool pinned = false;
  if (!pinned) { cpu_set_t s; CPU_ZERO(&s); int c = sched_getcpu(); if (c >= 0) CPU_SET(c, &s); pinned = c >= 0 && sched_setaffinity(0, sizeof s, &s) == 0; if (!pinned) return; }
  vf::op("cycles");
  volatile uint64_t w = 0; int n = (int)r.range(0, 2000);
  uint64_t a = tsc();
  il::TimerCycles t{};
  uint64_t b = tsc();
  for (int k = 0; k < n; ++k) w = w + (uint64_t)k;
  uint64_t c = tsc();
  t.Stop();
  uint64_t d = tsc();
  // the counter is read at most once per boundary and may be read a little early or late
  VF_CHECK((uint64_t)t.cycles() <= d - a + 2000 && (uint64_t)t.cycles() + 2000 >= c - b, "cycles", "%ld cycles, between %lu and %lu", t.cycles(), (unsigned long)(c - b), (unsigned long)(d - a));
  vf::event("cycles");
}
void vf_case(Rng& r, uint64_t idx) {
  if (idx < 2) { benchmarks(r, (int)idx); return; }
  for (int k = (int)r.range(1, 3); k > 0; --k) timers(r);
  states(r);
  benchmarks(r);
  if (r.chance(20)) cycles(r);
#ifndef NDEBUG
  if (r.chance(20)) misuse(r);
#endif
  if (vf::wantSample()) vf::sample("timers, timing loops and benchmarks on a clock of this program");
}
