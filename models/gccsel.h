// The sources choose between two number parsers by compiler; the build of this codebase uses gcc, so take that branch.
#if __has_include("common/helpers.h")
#include <algorithm>
#include <numeric>
#include <cctype>
#include <string>
#include <sstream>
#include <memory>
#include <iostream>
#include <variant>
#include <vector>
#include <string_view>
#include <charconv>
#include <optional>
#include <functional>
#include <map>
#include <cstdint>
#pragma push_macro("__clang__")
#undef __clang__
#include "common/helpers.h"
#pragma pop_macro("__clang__")
#endif
