#pragma once
#include <algorithm>
#include <cstring>
#include <cstdint>
#include <stdexcept>
#include <vector>
#include "frn/lib/math/fp.h"
#include "frn/lib/math/p.h"

using F = frn::lib::math::FpElement<frn::lib::math::Mp61>;
using G = frn::lib::math::FpElement<frn::lib::math::Mp127>;
using V = std::vector<F>;
using Bytes = std::vector<unsigned char>;
