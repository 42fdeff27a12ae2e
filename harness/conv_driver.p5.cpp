#include "conv_probe.h"
PROBE4("sview", coil::StringView);
PROBE4("stdstr", std::string);
PROBE4("stdview", std::string_view);
PROBE4("value", coil::Value);
