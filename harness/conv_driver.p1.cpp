#include "conv_probe.h"
PROBE4("char", char);
PROBE4("schar", signed char);
PROBE4("uchar", unsigned char);
PROBE4("short", short);
