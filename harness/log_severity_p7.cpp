#define MINSEV 7
#define SM_PACKAGE_NAME "sm.x"
#include "log_severity.inc"
