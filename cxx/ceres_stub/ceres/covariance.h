#pragma once
#include <ceres/solver.h>
