#define MINSEV 5
#include "log_severity.inc"
