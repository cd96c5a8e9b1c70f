#pragma once
#include <pinocchio/stub.hpp>
