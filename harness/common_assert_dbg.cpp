#undef NDEBUG
#undef SM_ALWAYS_ASSERT
#define MODE "debug build"
#define DBG_ACTIVE true
#define PART C03_debug
#include "common_assert.inc"
