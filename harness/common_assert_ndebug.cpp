#undef SM_ALWAYS_ASSERT
#define NDEBUG
#define MODE "release build"
#define DBG_ACTIVE false
#define PART C03_release
#include "common_assert.inc"
