#include "conv_probe.h"
PROBE("opt.vec.int", std::optional<std::vector<int>>);
PROBE("opt.vec.string", std::optional<std::vector<coil::String>>);
PROBE("vec.opt.int", std::vector<std::optional<int>>);
PROBE("vec.opt.color", std::vector<std::optional<Color>>);
PROBE("opt.opt.int", std::optional<std::optional<int>>);
