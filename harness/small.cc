// The small-footprint library behind a plain interface (this file is compiled
// with -Dh265nal=h265nal_small -DSMALL_FOOTPRINT).
#include "api_impl.h"

#if defined(FDUMP_DEFINE) || defined(RTP_DEFINE)
#error "small.cc needs the small-footprint configuration"
#endif

namespace small_api {
void* open() { return new h265nal::ApiSession; }
void close(void* s) { delete static_cast<h265nal::ApiSession*>(s); }
std::string run(void* s, int op, const uint8_t* d, size_t n, const std::vector<uint64_t>& p) {
  return h265nal::api_run(*static_cast<h265nal::ApiSession*>(s), op, d, n, p);
}
}  // namespace small_api
