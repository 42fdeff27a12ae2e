#include "exec_core.h"
using namespace ex;
using coil::String;
using coil::Value;
SHAPE(15, true, char const*);
SHAPE(16, false, Point, Point, std::vector<Color>);
SHAPE(17, true, unsigned char, unsigned char, long long, unsigned short);
SHAPE(18, false, String const&, String const&);
SHAPE(19, true, Value const&, Value const&, int);
SHAPE(23, true, coil::StringView, coil::StringView, coil::StringView const&);
COIL_VARIABLE_TEMPLATE(int);
COIL_ARGUMENT_TEMPLATE(int);
COIL_NAMED_ARGS_TEMPLATE(int);
COIL_VARIABLE_TEMPLATE(double);
COIL_ARGUMENT_TEMPLATE(double);
COIL_NAMED_ARGS_TEMPLATE(double);
COIL_ARGUMENT_TEMPLATE(bool);
COIL_FUNCTION_ARGS_TEMPLATE();
COIL_FUNCTION_ARGS_TEMPLATE(int);
COIL_FUNCTION_ARGS_TEMPLATE(coil::Context, int);
COIL_FUNCTION_ARGS_TEMPLATE(int const&, int const&);
