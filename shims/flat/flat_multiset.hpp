#pragma once
#include <flat/flat_shim.hpp>
