#include "sol_impl.hpp"
static bool reg = sol::Instantiate<3, 2>();
