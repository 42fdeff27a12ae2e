#include "conv_probe.h"
PROBE4("double", double);
PROBE4("ldouble", long double);
PROBE("bool", bool);
PROBE("opt.bool", std::optional<bool>);
PROBE4("string", coil::String);
