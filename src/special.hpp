// Special values, and what it takes to be the same one.
#pragma once
#include "duo.hpp"
#include <cmath>
#include <limits>
namespace special {
typedef std::numeric_limits<F> L;
static const F value[] = {F(0), F(-0.0), L::quiet_NaN(), L::infinity(), -L::infinity(), L::denorm_min(), -L::denorm_min(), L::min() / 4, L::min(), sizeof(F) == 8 ? F(1e-301) : F(1e-37), L::max(), L::lowest(), F(1.5), F(-1)};
enum { N = sizeof value / sizeof *value };
inline bool equal(F a, F b) { return a != a ? b != b : a == b && std::signbit(a) == std::signbit(b); }
inline std::string text(F v) { return v == 0 && std::signbit(v) ? "-0" : vf::show(v); }
}
