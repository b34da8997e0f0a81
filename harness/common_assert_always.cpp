#define NDEBUG
#define SM_ALWAYS_ASSERT
#define MODE "release build with SM_ALWAYS_ASSERT"
#define DBG_ACTIVE true
#define PART C03_always
#include "common_assert.inc"
