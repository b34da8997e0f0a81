#define MINSEV 1
#include "log_severity.inc"
