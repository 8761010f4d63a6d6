// Replaces src/tp.h: the protocol over the dual numbers GF(2^31-1)[e]/(e^2), so that every message carries its derivative.
#ifndef TP_H
#define TP_H
#include <vector>
#include "scl.h"
#include "h/dual.h"
namespace tp {
  using FF = scl::details::FF<64, Dual>;
  using Shr = FF;
  using Poly = scl::details::EvPolynomial<FF>;
  using Vec = scl::Vec<FF>;
  template<typename T> using vec = std::vector<T>;
}
#endif
