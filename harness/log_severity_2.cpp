#define MINSEV 2
#include "log_severity.inc"
