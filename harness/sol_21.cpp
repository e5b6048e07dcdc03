#include "sol_impl.hpp"
static bool reg = sol::Instantiate<2, 1>();
