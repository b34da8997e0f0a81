#define MINSEV 0
#define SM_PACKAGE_NAME "pkg"
#include "log_severity.inc"
