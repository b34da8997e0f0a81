#define MINSEV 3
#include "log_severity.inc"
