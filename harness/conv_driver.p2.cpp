#include "conv_probe.h"
PROBE4("ushort", unsigned short);
PROBE4("int", int);
PROBE4("uint", unsigned);
PROBE4("long", long);
