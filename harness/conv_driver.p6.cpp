#include "conv_probe.h"
PROBE4("color", Color);
PROBE4("point", Point);
PROBE("vec.bool", std::vector<bool>);
PROBE("vec.vec.int", std::vector<std::vector<int>>);
PROBE("vec.vec.stdstr", std::vector<std::vector<std::string>>);
