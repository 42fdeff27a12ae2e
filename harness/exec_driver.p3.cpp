#include "exec_core.h"
using namespace ex;
using coil::String;
using coil::Value;
SHAPE(10, true, void, int, int, int);
SHAPE(11, true, std::string, std::string const&, std::string, std::string_view, String);
SHAPE(12, true, void, int, int const&, int, int const&, int);
SHAPE(13, true, std::optional<String>, std::optional<String>, std::vector<coil::StringView> const&);
SHAPE(14, true, int*, Value const&);
SHAPE(22, true, std::string_view, std::string_view, std::string_view);
SHAPE(26, true, std::optional<int>, coil::String&&, std::vector<int> const&);
