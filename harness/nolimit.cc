// Address space limits and sanitizers do not go together.
#include <sys/resource.h>
extern "C" int setrlimit(__rlimit_resource_t, const struct rlimit*) noexcept { return 0; }
