#define MINSEV 7
#include "log_severity.inc"
