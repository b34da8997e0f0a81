#define MINSEV 9
#include "log_severity.inc"
