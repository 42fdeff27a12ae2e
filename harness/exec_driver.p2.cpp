#include "exec_core.h"
using namespace ex;
using coil::String;
using coil::Value;
SHAPE(5, true, std::vector<int>, std::vector<int> const&, std::optional<int>);
SHAPE(6, false, int);
SHAPE(7, true, bool, bool, double, coil::StringView);
SHAPE(8, true, Color, Color, Point const&);
SHAPE(9, false, int const&, int const&, int const&);
SHAPE(21, true, std::optional<Bomb>, std::vector<Bomb>, Value const&);
SHAPE(25, false, coil::String, int, coil::String&&, bool, int, coil::String const&, int, coil::String, bool, int const&, int, coil::String&&, int, int, int&&, bool);
