#include "exec_core.h"
using namespace ex;
using coil::String;
using coil::Value;
SHAPE(0, true, void);
SHAPE(1, true, int, int);
SHAPE(2, false, void, int);
SHAPE(3, true, String, String const&, int);
SHAPE(4, true, Value, Value const&);
SHAPE(20, true, Bomb, Bomb const&);
SHAPE(24, true, int, int, int, int, int, int, int, int, int, int, int, int, int);
