#include "conv_probe.h"
PROBE("opt.opt.stdstr", std::optional<std::optional<std::string>>);
PROBE("opt.vec.opt.uchar", std::optional<std::vector<std::optional<unsigned char>>>);
PROBE("vec.opt.vec.int", std::vector<std::optional<std::vector<int>>>);
PROBE("vec.vec.vec.short", std::vector<std::vector<std::vector<short>>>);
PROBE("opt.vec.point", std::optional<std::vector<Point>>);
