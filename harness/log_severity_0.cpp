#define MINSEV 0
#include "log_severity.inc"
