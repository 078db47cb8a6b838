// Stand-in for CORE-MATH's correctly rounded sine and cosine: results that have
// 50 more bits than a double, rounded to double.
#include "core-math/cos.h"
#include "core-math/sin.h"
#include "sin_cos_oracle.h"
extern "C" double cr_sin(double x) {
  if (!(x - x == 0) || x == 0) { return x - x; }
  __float128 s, c;
  principia_verif::Oracle(x, s, c);
  return static_cast<double>(s);
}
extern "C" double cr_cos(double x) {
  if (!(x - x == 0)) { return x - x; }
  __float128 s, c;
  principia_verif::Oracle(x, s, c);
  return static_cast<double>(c);
}
