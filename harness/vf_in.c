#include <stdint.h>
#ifdef VF_CBMC
uint64_t VF_IN[4096]; unsigned VF_N;
#endif
