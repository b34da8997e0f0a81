#define MINSEV 8
#include "log_severity.inc"
