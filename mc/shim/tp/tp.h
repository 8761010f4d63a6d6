// Replaces src/tp.h: the protocol over the small prime field GF(TP_P), so that it can be explored exhaustively.
#ifndef TP_H
#define TP_H
#include <vector>
#include "scl.h"
#include "h/gfp.h"
namespace tp {
  using FF = GF<TP_P>;
  using Shr = FF;
  using Poly = scl::details::EvPolynomial<FF>;
  using Vec = scl::Vec<FF>;
  template<typename T> using vec = std::vector<T>;
}
#endif
