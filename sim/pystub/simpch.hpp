#pragma once
#include "simmain.hpp"
#include "pybind11/pybind11.h"
#include <algorithm>
