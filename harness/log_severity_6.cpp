#define MINSEV 6
#include "log_severity.inc"
