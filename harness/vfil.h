// Common header of harnesses that include the library.
#ifndef VFIL_H
#define VFIL_H
#include <il/core.h>
#define VF_EXTRA_CATCH                                                             \
  catch (const il::AbortException&) {                                              \
    vf::Quiet q;                                                                   \
    ok = false;                                                                    \
    record(std::string("rejected@") + s.last_op,                                   \
           "a valid call was rejected by the library's own checks");               \
  }
#include "vf.h"
namespace vf {
// What is handed to the library to be filled in: new, or carrying the outcome of an earlier operation that was examined.
template <typename S> void used(S& s) {
  uint64_t& m = st().mix;
  m = m * 6364136223846793005ull + 1442695040888963407ull;
  switch (m >> 62) {
    case 0: case 1: return;
    case 2: s.SetOk(); break;
    default: s.SetError(static_cast<decltype(s.error())>(4)); s.SetInfo("line", 12345); s.setSource("harness", 7);
  }
  (void)s.Ok();
  event("status-used-before");
}
}  // namespace vf
#endif
