#include "conv_probe.h"
PROBE4("ulong", unsigned long);
PROBE4("llong", long long);
PROBE4("ullong", unsigned long long);
PROBE4("float", float);
