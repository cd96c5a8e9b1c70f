#pragma once
#include "eigenpy/eigenpy.hpp"
