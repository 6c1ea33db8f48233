// libFuzzer target of C01: the input is a program of deliveries (hostile.h).
#include "hostile.h"
using namespace h265nal;

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=512:handle_abort=1:malloc_context_size=4:"
         "quarantine_size_mb=16:detect_stack_use_after_return=0";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }
extern "C" int LLVMFuzzerInitialize(int*, char***) {
  FILE* f = fopen("/dev/null", "w");
  if (f) stderr = f;  // the library's own messages
  return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
  Exerciser e;
  e.run(Exerciser::decode(d, n));
  if (!e.why.empty()) {
    dprintf(2, "PROPERTY C01 violated: %s\n", e.why.c_str());
    abort();
  }
  return 0;
}
