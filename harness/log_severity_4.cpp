#define MINSEV 4
#include "log_severity.inc"
