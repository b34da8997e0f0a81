#define MINSEV 11
#include "log_severity.inc"
