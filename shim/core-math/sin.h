#pragma once
// Stand-in for CORE-MATH (not installed); see core_math.cpp.
extern "C" double cr_sin(double x);
