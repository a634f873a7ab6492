// L04: direct sparse and iterative solvers: residuals in long double, honest statuses, reuse.
#include "vfil.h"
#include <il/Array.h>
#include <il/SparseMatrixCSR.h>
#include <il/linearAlgebra/sparse/factorization/Pardiso.h>
#include <il/linearAlgebra/sparse/factorization/GmresIlu0.h>
#include <il/linearAlgebra/matrixFree/solver/Gmres.h>
#include <il/linearAlgebra/matrixFree/solver/Cg.h>
#include "dense.h"
#include <memory>
#include <new>
typedef long double L;
static const L EPS = 2.220446049250313e-16L;
template <typename N> using Csr = il::SparseMatrixCSR<N, double>;

static bool g_large = false;  // a case with large systems
static I ord(Rng& r, I lo, I n) { return g_large && r.chance(70) ? std::max<I>(lo, r.mark(400)) : r.range(lo, n); }
enum Kind { Dominant, Spd, Permuted };
struct Sys { I n; std::vector<std::vector<std::pair<I, double>>> row; };
static L normA(const Sys& s) { L w = 0; for (auto& x : s.row) { L t = 0; for (auto& e : x) t += std::fabs((L)e.second); w = std::max(w, t); } return w; }
// every diagonal entry is stored (but for Permuted), the columns increase
static Sys system(Rng& r, I n, Kind kind) {
  vf::Quiet q;
  if (n > 60) vf::event("large");
  std::vector<std::vector<double>> d((size_t)n, std::vector<double>((size_t)n, 0.0));
  I extra = r.range(0, 4);
  bool band = r.chance(40);
  for (I i = 0; i < n; ++i) for (I t = 0; t < extra; ++t) {
    I j = band ? i + r.range(-2, 2) : (I)r.below((uint64_t)n);
    if (j < 0 || j >= n || j == i) continue;
    double v = r.chance(20) ? (double)r.range(-3, 3) : r.sym();
    if (kind == Spd) { d[(size_t)i][(size_t)j] = d[(size_t)j][(size_t)i] = v; } else d[(size_t)i][(size_t)j] = v;
  }
  double boost = r.chance(50) ? 1.1 : 1.05 + 2 * r.unit();
  for (I i = 0; i < n; ++i) {
    double t = 0; for (I j = 0; j < n; ++j) t += std::fabs(d[(size_t)i][(size_t)j]);
    d[(size_t)i][(size_t)i] = (t * boost + 0.25) * (kind != Spd && r.chance(30) ? -1 : 1);
  }
  if (r.chance(15) && kind != Spd) for (I i = 0; i < n; ++i) { double f = std::ldexp(1.0, (int)r.range(-6, 6)); for (double& v : d[(size_t)i]) v *= f; }
  std::vector<I> perm; for (I i = 0; i < n; ++i) perm.push_back(i);
  if (kind == Permuted) for (I i = n - 1; i > 0; --i) std::swap(perm[(size_t)i], perm[(size_t)r.below((uint64_t)i + 1)]);
  Sys s; s.n = n; s.row.resize((size_t)n);
  for (I i = 0; i < n; ++i) for (I j = 0; j < n; ++j) { double v = d[(size_t)perm[(size_t)i]][(size_t)j]; if (v != 0 || (kind != Permuted && i == j)) s.row[(size_t)i].push_back({j, v}); }
  return s;
}
// other values on the same pattern: near ones (close) or any
static void shake(Rng& r, Sys& s, double eps) { for (auto& x : s.row) { double f = 1 + eps * r.sym(); for (auto& e : x) e.second *= f; } }
template <typename N> Csr<N> build(const Sys& s) {
  I nnz = 0; for (auto& x : s.row) nnz += (I)x.size();
  il::Array<N> col{nnz}, row{s.n + 1}; il::Array<double> el{nnz};
  I k = 0; row[0] = 0;
  for (I i = 0; i < s.n; ++i) { for (auto& e : s.row[(size_t)i]) { col[k] = (N)e.first; el[k] = e.second; ++k; } row[i + 1] = (N)k; }
  return Csr<N>{s.n, s.n, std::move(col), std::move(row), std::move(el)};
}
template <typename N> void put(Csr<N>& a, const Sys& s) { I k = 0; for (auto& x : s.row) for (auto& e : x) a[k++] = e.second; }
template <typename N> void unchanged(const Csr<N>& a, const Sys& s) {
  I k = 0;
  bool ok = a.size(0) == s.n && a.size(1) == s.n;
  for (I i = 0; i < s.n && ok; ++i) { ok = (I)a.row(i) == k; for (auto& e : s.row[(size_t)i]) { ok = ok && (I)a.column(k) == e.first && a[k] == e.second; ++k; } }
  VF_CHECK(ok && (I)a.row(s.n) == k, "matrix-changed", "the matrix is not the one that was given");
}
static il::Array<double> rhs(Rng& r, I n, bool zero) {
  il::Array<double> y{n};
  int k = (int)r.below(5);
  for (I i = 0; i < n; ++i) y[i] = zero ? 0 : k == 0 ? (i == 0 ? 1 : 0) : k == 1 ? (double)r.range(-4, 4) : r.sym() * (k == 2 ? 1e5 : k == 3 ? 1e-5 : 1);
  if (!zero) { bool z = true; for (I i = 0; i < n; ++i) if (y[i] != 0) z = false; if (z) y[n - 1] = 1; }
  return y;
}
static L norm2(const il::Array<double>& y) { L s = 0; for (I i = 0; i < y.size(); ++i) s += (L)y[i] * y[i]; return std::sqrt(s); }
static L normInf(const il::Array<double>& y) { L s = 0; for (I i = 0; i < y.size(); ++i) { if (!(std::fabs(y[i]) <= 1e300)) return 1e4000L; s = std::max(s, std::fabs((L)y[i])); } return s; }
static L residual2(const Sys& s, const il::Array<double>& x, const il::Array<double>& y) {
  L w = 0;
  for (I i = 0; i < s.n; ++i) { L t = -(L)y[i]; for (auto& e : s.row[(size_t)i]) t += (L)e.second * x[e.first]; w += t * t; }
  return std::sqrt(w);
}
static L floor2(const Sys& s, const il::Array<double>& x, const il::Array<double>& y) { return 100 * EPS * std::sqrt((L)s.n) * (normA(s) * normInf(x) + normInf(y)) * (L)(s.n + 3); }

// y = A.x; writes every coefficient, checks the views it receives
struct Apply : il::FunctorArray<double> {
  const Sys* s; mutable I calls = 0;
  explicit Apply(const Sys& a) : s(&a) {}
  I size(I) const override { return s->n; }
  void operator()(il::ArrayView<double> x, il::io_t, il::ArrayEdit<double> y) const override {
    VF_CHECK(x.size() == s->n && y.size() == s->n, "functor-views", "the functor got views of %ld and %ld coefficients for an order of %ld", (long)x.size(), (long)y.size(), (long)s->n);
    for (I i = 0; i < s->n; ++i) { double t = 0; for (auto& e : s->row[(size_t)i]) t += e.second * x[e.first]; y[i] = t; }
    ++calls;
  }
};
struct Scale : il::FunctorArray<double> {
  std::vector<double> d; mutable I calls = 0;
  I size(I) const override { return (I)d.size(); }
  void operator()(il::ArrayView<double> x, il::io_t, il::ArrayEdit<double> y) const override {
    VF_CHECK(x.size() == (I)d.size() && y.size() == (I)d.size(), "functor-views", "the preconditioner got views of %ld and %ld coefficients for an order of %ld", (long)x.size(), (long)y.size(), (long)d.size());
    for (I i = 0; i < (I)d.size(); ++i) y[i] = d[(size_t)i] * x[i];
    ++calls;
  }
};
static Scale scaling(Rng& r, const Sys& s, bool positive) {
  vf::Quiet q;
  Scale c;
  bool wild = r.chance(25);
  for (I i = 0; i < s.n; ++i) { double v = 1; for (auto& e : s.row[(size_t)i]) if (e.first == i && e.second != 0) v = 1 / e.second; if (wild) v *= std::ldexp(1.0, (int)r.range(-8, 8)); if (positive) v = std::fabs(v); c.d.push_back(v); }
  return c;
}

static void direct(Rng& r) {
  // MKL itself keeps one block for each system of order 1
  bool ones = r.chance(10);
  if (ones) vf::st().track_leaks = false;
  const int kMax = 2;
  struct One { il::Pardiso p; Sys s; il::int_t state = 0; bool stale = false; };
  One o[kMax];
  std::vector<Csr<I>> a((size_t)kMax);
  I steps = r.range(3, 12);
  for (I t = 0; t < steps; ++t) {
    One& w = o[r.below(kMax)];
    size_t k = (size_t)(&w - o);
    int what = (int)r.below(10);
    if (w.state == 0 || what == 0) {
      { vf::Quiet q; w.s = system(r, ones ? r.range(1, 2) : ord(r, 2, 40), r.chance(40) ? Permuted : r.chance(50) ? Spd : Dominant); }
      a[k] = build<I>(w.s);
      vf::op("Pardiso symbolic", "object %zu order %ld", k, (long)w.s.n);
      if (w.state == 2) vf::event("new-pattern");
      w.p.SymbolicFactorization(a[k]);
      w.state = 1;
      if (r.chance(20)) { vf::op("Pardiso symbolic again"); w.p.SymbolicFactorization(a[k]); vf::event("symbolic-again"); }
    } else if (w.state == 1 || what <= 2) {
      if (w.state == 2 || r.chance(30)) { vf::Quiet q; shake(r, w.s, r.chance(50) ? 0.9 : 0.1); put(a[k], w.s); if (w.state == 2) vf::event("new-values"); }
      vf::op("Pardiso numerical", "object %zu", k);
      w.p.NumericalFactorization(a[k]);
      w.state = 2; w.stale = false;
    } else {
      il::Array<double> y = rhs(r, w.s.n, r.chance(8));
      il::Array<double> keep{y};
      bool iter = r.chance(30), none = norm2(y) == 0;
      bool near = iter && !w.stale && r.chance(50);
      if (near) { vf::Quiet q; shake(r, w.s, 0.05); put(a[k], w.s); w.stale = true; }
      if (w.stale && !near) continue;
      vf::op(iter ? none ? "Pardiso solve iteratively for zero" : "Pardiso solve iteratively" : "Pardiso solve", "object %zu%s", k, near ? " near values" : "");
      const Csr<I>& c = a[k];
      il::Array<double> x = iter ? w.p.SolveIterative(c, y) : w.p.Solve(c, y);
      vf::Quiet q;
      unchanged(a[k], w.s);
      for (I i = 0; i < y.size(); ++i) VF_CHECK(y[i] == keep[i], "rhs-changed", "the right-hand side has changed");
      VF_CHECK(x.size() == w.s.n, "size", "%ld unknowns", (long)x.size());
      L res = residual2(w.s, x, y), lim = near ? 0.2L * norm2(y) : 1e5L * floor2(w.s, x, y);
      VF_CHECK(res <= lim, iter && none ? "iterative-zero" : near ? "iterative" : "residual", "residual %.3Lg for a limit of %.3Lg (|y| = %.3Lg)", res, lim, norm2(y));
      vf::event(near ? "near-values" : iter ? "iterative" : "direct");
    }
    vf::sig((uint64_t)w.s.n * 16 + (uint64_t)what);
  }
  vf::nontrivial();
}

// an object built where other data were
template <typename T> struct Reused {
  alignas(T) unsigned char room[sizeof(T)];
  T* p;
  template <typename... A> Reused(Rng& r, const A&... a) {
    unsigned char b = (unsigned char)r.below(256); double d = r.chance(50) ? 1e300 : 0.5;
    bool bytes = r.chance(50);
    for (size_t i = 0; i < sizeof(T); ++i) room[i] = b;
    if (!bytes) for (size_t i = 0; i + 8 <= sizeof(T); i += 8) std::memcpy(room + i, &d, 8);
    p = new (room) T{a...};
  }
  ~Reused() { p->~T(); }
  Reused(const Reused&) = delete;
};

static void ilu(Rng& r) {
  if (r.chance(15)) {
    Sys s; { vf::Quiet q; s = system(r, ord(r, 1, 40), r.chance(50) ? Spd : Dominant); }
    Csr<int> a = build<int>(s);
    il::Array<double> y = rhs(r, s.n, false), x[2];
    I its[2];
    bool set = r.chance(50);
    double prec = std::pow(10.0, -(double)r.range(1, 11));
    vf::op("preconditioned solvers built where other data were", "order %ld%s", (long)s.n, set ? " precision set" : "");
    for (int k = 0; k < 2; ++k) {
      Reused<il::GmresIlu0> g(r);
      if (set) g.p->setRelativePrecision(prec);
      g.p->computePreconditionner(il::io, a);
      x[k] = g.p->solve(y, il::io, a);
      its[k] = g.p->nbIterations();
    }
    vf::Quiet q;
    VF_CHECK(its[0] == its[1], "defaults", "%ld and %ld iterations for the same system", (long)its[0], (long)its[1]);
    L d = 0; for (I i = 0; i < s.n; ++i) d = std::max(d, std::fabs((L)x[0][i] - x[1][i]));
    VF_CHECK(d <= 1e-9L * norm2(x[0]), "defaults", "the solutions of the same system differ by %.3Lg", d);
    vf::event("ilu-defaults"); vf::nontrivial(); vf::sig((uint64_t)s.n);
    return;
  }
  il::GmresIlu0 g;
  Sys s; Csr<int> a;
  I n = r.chance(10) ? 1 : ord(r, 1, 40);
  double prec = std::pow(10.0, -(double)r.range(1, 11));
  int maxit = (int)r.range(1, 100), restart = (int)r.range(1, 30);
  if (r.chance(50)) g = il::GmresIlu0{prec, maxit, restart}; else { g.setRelativePrecision(prec); g.setMaxNbIteration(maxit); g.setRestartIteration(restart); }
  for (I turn = 0, e = r.range(1, 3); turn < e; ++turn) {
    if (turn == 0 || r.chance(30)) { { vf::Quiet q; s = system(r, turn && r.chance(50) ? ord(r, 1, 40) : n, r.chance(50) ? Spd : Dominant); } a = build<int>(s); }
    else { vf::Quiet q; shake(r, s, 0.5); put(a, s); }
    vf::op("preconditioner", "order %ld", (long)s.n);
    g.computePreconditionner(il::io, a);
    unchanged(a, s);
    for (I u = 0, f = r.range(1, 3); u < f; ++u) {
      if (u > 0 && r.chance(30)) { vf::Quiet q; shake(r, s, 0.2); put(a, s); vf::event("old-preconditioner"); }
      il::Array<double> y = rhs(r, s.n, r.chance(8));
      il::Array<double> keep{y};
      vf::op("solve with a preconditioner", "order %ld precision %g at most %d restart %d", (long)s.n, prec, maxit, restart);
      il::Array<double> x = g.solve(y, il::io, a);
      vf::Quiet q;
      unchanged(a, s);
      for (I i = 0; i < y.size(); ++i) VF_CHECK(y[i] == keep[i], "rhs-changed", "the right-hand side has changed");
      VF_CHECK(x.size() == s.n, "size", "%ld unknowns", (long)x.size());
      VF_CHECK(g.nbIterations() >= 0 && g.nbIterations() <= maxit, "iterations", "%ld iterations of %d", (long)g.nbIterations(), maxit);
      L res = residual2(s, x, y), lim = prec * norm2(y) * (1 + 1e-6L) + floor2(s, x, y);
      if (g.nbIterations() < maxit) { VF_CHECK(res <= lim, "precision", "residual %.3Lg for %.3Lg after %ld iterations of %d", res, lim, (long)g.nbIterations(), maxit); vf::event("ilu-converged"); }
      else { VF_CHECK(res <= norm2(y) * (1 + 1e-9L), "diverged", "residual %.3Lg above %.3Lg", res, norm2(y)); vf::event("ilu-stopped"); }
    }
    vf::sig((uint64_t)s.n * 64 + (uint64_t)restart); vf::sig((uint64_t)maxit);
  }
  vf::nontrivial();
}

static void gmres(Rng& r) {
  Sys s; { vf::Quiet q; s = system(r, r.chance(10) ? 1 : ord(r, 1, 30), r.chance(30) ? Spd : Dominant); }
  if (r.chance(8)) { vf::Quiet q; for (I i = 0; i < s.n; ++i) s.row[(size_t)i] = {{i, 2.0}}; }
  I n = s.n, krylov = r.chance(50) ? n + r.range(0, 3) : r.range(1, n);
  Apply f(s);
  bool cond = r.chance(40);
  Scale c; { vf::Quiet q; c = scaling(r, s, false); }
  il::Gmres<double> g = cond ? il::Gmres<double>{f, c, krylov} : il::Gmres<double>{f, krylov};
  for (I turn = 0, e = r.range(1, 4); turn < e; ++turn) {
    il::Array<double> y = rhs(r, n, r.chance(8));
    il::Array<double> keep{y};
    if (r.chance(60)) {
      double prec = std::pow(10.0, -(double)r.range(0, 11)) * (r.chance(50) ? 1 : 0.3);
      I maxit = r.chance(30) ? r.range(1, 4) : r.range(1, 200);
      bool junk = r.chance(50);
      il::Array<double> x{n, junk ? (r.chance(50) ? 7.5 : std::numeric_limits<double>::quiet_NaN()) : 0.0};
      il::Status st{}; vf::used(st);
      vf::op("Gmres solve", "order %ld krylov %ld precision %g at most %ld%s%s", (long)n, (long)krylov, prec, (long)maxit, cond ? " preconditioned" : "", junk ? " into a used array" : "");
      f.calls = c.calls = 0;
      g.Solve(y.view(), prec, maxit, il::io, x.Edit(), st);
      vf::Quiet q;
      bool ok = st.Ok();
      for (I i = 0; i < y.size(); ++i) VF_CHECK(y[i] == keep[i], "rhs-changed", "the right-hand side has changed");
      VF_CHECK(g.nbIterations() >= 0 && g.nbIterations() <= maxit, "iterations", "%ld iterations of %ld", (long)g.nbIterations(), (long)maxit);
      VF_CHECK(!cond || g.nbIterations() == 0 || c.calls > 0, "preconditioner", "the preconditioner is not used");
      L res = residual2(s, x, y), want = prec * norm2(y), sl = floor2(s, x, y);
      if (ok) { VF_CHECK(res <= want * (1 + 1e-6L) + sl, "precision", "success with a residual of %.3Lg for %.3Lg", res, want); vf::event("gmres-converged"); }
      else {
        VF_CHECK(!(res < want * (1 - 1e-6L) - sl), "reported-failure", "failure with a residual of %.3Lg for %.3Lg", res, want);
        VF_CHECK((cond && prec < 1e-6) || g.nbIterations() == maxit, "gave-up", "failure after %ld iterations of %ld", (long)g.nbIterations(), (long)maxit);
        if (!cond) VF_CHECK(res <= norm2(y) * (1 + 1e-9L), "diverged", "residual %.3Lg above %.3Lg", res, norm2(y));
        vf::event("gmres-reported");
      }
      if (!cond && krylov >= n && maxit >= n + 3 && prec >= 1e-9) VF_CHECK(ok, "not-solved", "a well-conditioned system of order %ld is not solved in %ld iterations without restart", (long)n, (long)maxit);
    } else {
      bool zero = true; for (I i = 0; i < n; ++i) if (y[i] != 0) zero = false;
      if (zero) continue;
      vf::op("Gmres step by step", "order %ld krylov %ld%s", (long)n, (long)krylov, cond ? " preconditioned" : "");
      if (r.chance(50)) g.SetToSolve(y); else g.SetToSolve(y.view());
      VF_CHECK(g.nbIterations() == 0, "iterations", "%ld iterations before the first", (long)g.nbIterations());
      L last = norm2(y);
      VF_CHECK(std::fabs((L)g.normResidual() - last) <= 1e-12L * last, "residual-norm", "residual norm %.17g before the first iteration, instead of %.17Lg", g.normResidual(), last);
      for (I i = 1, most = r.range(1, 60); i <= most && g.normResidual() > (cond ? 1e-6L : 1e-10L) * norm2(y); ++i) {
        g.Next();
        VF_CHECK(g.nbIterations() == i, "iterations", "%ld iterations after %ld", (long)g.nbIterations(), (long)i);
        bool look = r.chance(60);
        if (look) {
          il::Array<double> x{n};
          if (r.chance(50)) g.getSolution(il::io, x); else g.getSolution(il::io, x.Edit());
          vf::Quiet q;
          L res = residual2(s, x, y), sl = floor2(s, x, y);
          VF_CHECK(std::fabs(res - (L)g.normResidual()) <= 1e-9L * (res + norm2(y)) + sl, "residual-norm", "iteration %ld: norm %.17g but the residual of the solution is %.17Lg", (long)i, g.normResidual(), res);
          vf::event("steps-looked-at");
        }
        VF_CHECK((cond && last <= 1e-6L * norm2(y)) || (L)g.normResidual() <= last * (1 + 1e-9L) + 1e-9L * norm2(y), "diverged", "iteration %ld: residual %.17g after %.17Lg", (long)i, g.normResidual(), last);
        last = g.normResidual();
        if (i > krylov) vf::event("restarted");
        vf::event("steps");
      }
    }
    vf::sig((uint64_t)n * 64 + (uint64_t)krylov);
  }
  vf::nontrivial();
}

static void cg(Rng& r) {
  Sys s; { vf::Quiet q; s = system(r, r.chance(10) ? 1 : ord(r, 1, 30), Spd); }
  I n = s.n;
  Apply f(s);
  bool cond = r.chance(45);
  Scale c; { vf::Quiet q; c = scaling(r, s, true); }
  Reused<il::Cg<double>>* one = cond ? new Reused<il::Cg<double>>(r, f, c) : new Reused<il::Cg<double>>(r, f);
  Reused<il::Cg<double>>* two = cond ? new Reused<il::Cg<double>>(r, f, c) : new Reused<il::Cg<double>>(r, f);
  std::unique_ptr<Reused<il::Cg<double>>> holdOne(one), holdTwo(two);
  il::Cg<double>& g = *one->p;
  VF_CHECK(g.relativePrecision() == two->p->relativePrecision() && g.absolutePrecision() == two->p->absolutePrecision() && g.maxNbIterations() == two->p->maxNbIterations(), "defaults", "the settings of a new object depend on what the memory contained: %g %g %ld and %g %g %ld",
           g.relativePrecision(), g.absolutePrecision(), (long)g.maxNbIterations(), two->p->relativePrecision(), two->p->absolutePrecision(), (long)two->p->maxNbIterations());
  holdTwo.reset();
  for (I turn = 0, e = r.range(1, 4); turn < e; ++turn) {
    il::Array<double> y = rhs(r, n, r.chance(8));
    il::Array<double> keep{y};
    if (r.chance(65)) {
      double prec = std::pow(10.0, -(double)r.range(0, 11)), abs = r.chance(25) ? (double)norm2(y) * std::pow(10.0, -(double)r.range(1, 8)) : 0;
      I maxit = r.chance(30) ? r.range(1, 4) : r.range(1, 200);
      bool plain = turn == 0 && r.chance(25);
      if (plain) { prec = g.relativePrecision(); abs = g.absolutePrecision(); maxit = g.maxNbIterations(); vf::event("cg-defaults"); }
      else { g.SetRelativePrecision(prec); g.SetMaxNbIterations(maxit); g.SetAbsolutionPrecision(abs); }
      VF_CHECK(g.relativePrecision() == prec && g.absolutePrecision() == abs && g.maxNbIterations() == maxit, "settings", "the settings are not those that were set");
      il::Status st{}; vf::used(st);
      vf::op("Cg solve", "order %ld precision %g and %g at most %ld%s", (long)n, prec, abs, (long)maxit, cond ? " preconditioned" : "");
      c.calls = 0;
      il::Array<double> x = g.Solve(y, il::io, st);
      vf::Quiet q;
      bool ok = st.Ok();
      for (I i = 0; i < y.size(); ++i) VF_CHECK(y[i] == keep[i], "rhs-changed", "the right-hand side has changed");
      VF_CHECK(x.size() == n, "size", "%ld unknowns", (long)x.size());
      VF_CHECK(g.nbIterations() >= 0 && g.nbIterations() <= maxit, "iterations", "%ld iterations of %ld", (long)g.nbIterations(), (long)maxit);
      VF_CHECK(!cond || g.nbIterations() == 0 || c.calls > 0, "preconditioner", "the preconditioner is not used");
      L res = residual2(s, x, y), want = prec * norm2(y) + abs, sl = floor2(s, x, y) + 1e-13L * norm2(y);
      VF_CHECK(std::fabs(res - (L)g.trueResidualNorm()) <= 1e-6L * res + sl, "residual-norm", "norm %.17g but the residual is %.17Lg", g.trueResidualNorm(), res);
      if (ok) { VF_CHECK(res <= want * (1 + 1e-6L) + sl, "precision", "success with a residual of %.3Lg for %.3Lg", res, want); vf::event("cg-converged"); }
      else {
        VF_CHECK(!(res < want * (1 - 1e-6L) - sl), "reported-failure", "failure with a residual of %.3Lg for %.3Lg", res, want);
        VF_CHECK(g.nbIterations() == maxit, "gave-up", "failure after %ld iterations of %ld", (long)g.nbIterations(), (long)maxit);
        vf::event("cg-reported");
      }
      if (!cond && maxit >= 4 * n + 10 && prec >= 1e-9) VF_CHECK(ok, "not-solved", "a well-conditioned system of order %ld is not solved in %ld iterations", (long)n, (long)maxit);
    } else {
      bool zero = true; for (I i = 0; i < n; ++i) if (y[i] != 0) zero = false;
      if (zero) continue;
      vf::op("Cg step by step", "order %ld%s", (long)n, cond ? " preconditioned" : "");
      g.SetToSolve(y.view());
      for (I i = 0; i < y.size(); ++i) y[i] = -77;
      VF_CHECK(g.nbIterations() == 0, "iterations", "%ld iterations before the first", (long)g.nbIterations());
      VF_CHECK(std::fabs((L)g.trueResidualNorm() - norm2(keep)) <= 1e-12L * norm2(keep), "residual-norm", "residual norm %.17g before the first iteration, instead of %.17Lg", g.trueResidualNorm(), norm2(keep));
      for (I i = 1, most = r.range(1, 60); i <= most && g.trueResidualNorm() > 1e-10L * norm2(keep); ++i) {
        g.Next();
        VF_CHECK(g.nbIterations() == i, "iterations", "%ld iterations after %ld", (long)g.nbIterations(), (long)i);
        if (r.chance(60)) {
          il::Array<double> x{n};
          g.getSolution(il::io, x.Edit());
          vf::Quiet q;
          L res = residual2(s, x, keep), sl = floor2(s, x, keep);
          VF_CHECK(std::fabs(res - (L)g.trueResidualNorm()) <= 1e-8L * (res + norm2(keep)) + sl, "residual-norm", "iteration %ld: norm %.17g but the residual of the solution is %.17Lg", (long)i, g.trueResidualNorm(), res);
          vf::event("cg-steps-looked-at");
        }
        vf::event("cg-steps");
      }
    }
    vf::sig((uint64_t)n * 64 + (uint64_t)turn);
  }
  vf::nontrivial();
}

#ifndef VF_PART
void vf_case(Rng& r, uint64_t) {
  g_xerbla = 0;
  vf::st().track_leaks = true;
  g_large = r.below(60) == 0;
  switch (r.below(8)) {
    case 0: direct(r); break;
    case 1: case 2: ilu(r); break;
    case 3: case 4: case 5: gmres(r); break;
    default: cg(r);
  }
  VF_CHECK(g_xerbla == 0, "blas-argument", "argument %d of %s is wrong", g_xerbla, g_xname);
}
#else
template <typename F> static bool refused(F f) { try { f(); } catch (const il::AbortException&) { return true; } return false; }
void vf_case(Rng& r, uint64_t) {
  I n = r.range(2, 12);
  int w = (int)r.below(13);
  Sys s; { vf::Quiet q; s = system(r, n, Dominant); }
  Csr<I> a = build<I>(s), b = build<I>(s);
  Csr<int> c = build<int>(s), d = build<int>(s);
  il::Array<double> y = rhs(r, n, false), z = rhs(r, n + (r.chance(50) ? 1 : -1), false);
  vf::op("solver misuse", "%d order %ld", w, (long)n);
  bool bad = false;
  il::Pardiso p; il::GmresIlu0 g; Apply f(s);
  switch (w) {
    case 0: bad = refused([&] { p.NumericalFactorization(a); }); break;
    case 1: bad = refused([&] { p.Solve(a, y); }); break;
    case 2: p.SymbolicFactorization(a); bad = refused([&] { if (r.chance(50)) p.Solve(a, y); else p.SolveIterative(a, y); }); break;
    case 3: p.SymbolicFactorization(a); bad = refused([&] { p.NumericalFactorization(b); }); break;
    case 4: p.SymbolicFactorization(a); p.NumericalFactorization(a); bad = refused([&] { if (r.chance(50)) p.Solve(b, y); else p.SolveIterative(b, y); }); break;
    case 5: p.SymbolicFactorization(a); p.NumericalFactorization(a); bad = refused([&] { if (r.chance(50)) p.Solve(a, z); else p.SolveIterative(a, z); }); break;
    case 6: p.SymbolicFactorization(a); p.NumericalFactorization(a); p.SymbolicFactorization(a); bad = refused([&] { p.Solve(a, y); }); break;
    case 7: bad = refused([&] { g.solve(y, il::io, c); }); break;
    case 8: g.computePreconditionner(il::io, c); bad = refused([&] { g.solve(y, il::io, d); }); break;
    case 9: g.computePreconditionner(il::io, c); bad = refused([&] { g.solve(z, il::io, c); }); break;
    case 10: { il::Gmres<double> h{f, 3}; il::Array<double> x{r.chance(50) ? n : z.size(), 1.0}; il::Status st{}; vf::used(st);
      bad = refused([&] { if (x.size() == n) h.Solve(z.view(), 1e-3, 10, il::io, x.Edit(), st); else h.Solve(y.view(), 1e-3, 10, il::io, x.Edit(), st); }); break; }
    case 11: { il::Gmres<double> h{f, 3}; bad = refused([&] { h.SetToSolve(z.view()); }); break; }
    default: { il::Cg<double> h{f}; il::Status st{}; vf::used(st); bad = refused([&] { if (r.chance(50)) h.Solve(z, il::io, st); else h.SetToSolve(z.view()); }); }
  }
  VF_CHECK(bad, "accepted", "a call that the solver cannot serve is not refused");
  vf::event("rejections"); vf::event("contract-solvers");
  vf::sig((uint64_t)(w * 100 + n));
  vf::nontrivial();
}
#endif
