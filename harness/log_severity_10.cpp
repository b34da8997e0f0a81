#define MINSEV 10
#include "log_severity.inc"
