// N02: quasi-random points of every dimension fill their dyadic boxes exactly.
#include "vfil.h"
#include <il/random/sobol.h>
using vf::Rng;
void vf_case(Rng& r, uint64_t) {
  int k = (int)r.range(1, 9);
  il::int_t n = ((il::int_t)1 << k) - 1, dim = (il::int_t)r.range(1, 12);
  double a = r.chance(50) ? 0.0 : r.sym() * 100, len = r.chance(50) ? 1.0 : r.unit() * 50 + 0.1;
  vf::op("sobol", "%ld points, dimension %ld, [%g, %g)", (long)n, (long)dim, a, a + len);
  il::Array2C<double> A = il::sobol(n, dim, a, a + len);
  VF_CHECK(A.size(0) == n && A.size(1) == dim, "shape", "%ld x %ld", (long)A.size(0), (long)A.size(1));
  for (il::int_t j = 0; j < dim; ++j) {
    std::vector<double> v;
    for (il::int_t i = 0; i < n; ++i) v.push_back(A(i, j));
    std::sort(v.begin(), v.end());
    for (il::int_t i = 0; i < n; ++i) {
      double w = a + len * (double)(i + 1) / (double)(n + 1);
      VF_CHECK(std::fabs(v[(size_t)i] - w) <= 1e-8 * (len + std::fabs(a)), "stratified", "coordinate %ld of %ld points: sorted value %ld is %.12g, the Sobol net has %.12g", (long)j, (long)n, (long)i, v[(size_t)i], w);
    }
  }
  vf::event("sobol-points", (uint64_t)n);
  if (vf::wantSample()) vf::sample(vf::fmt("%ld points of dimension %ld", (long)n, (long)dim));
  vf::nontrivial();
}
