// C09: the generic modular routines, exhaustively over all operands of small primes.
#include "mc.h"
#include "scl/math/fields/details.h"
#include "scl/math/ring.h"
#include "gfp.h"
using mc::fmt;
namespace {
// A field made of the library's own generic routines.
template <class T, class Sg> void small(mc::Ctx& c, unsigned P, const char* w) {
  using namespace scl::details;
  for (unsigned a = 0; a < P; ++a) {
    T t = (T)a; NegateSimpleType(t, (T)P); c.one();
    if (t != (T)((P - a) % P)) c.fail(fmt("generic/%s/negate", w), fmt("p=%u a=%u", P, a));
    T v = (T)a; T out = (T)a;
    int o = mc::outcome_of([&] { InverseModPrimeSimpleType<T, Sg>(out, v, (T)P); }); c.ops();
    if (a == 0) { if (o != 1) c.fail(fmt("generic/%s/inverse-zero", w), fmt("p=%u", P)); }
    else if (o || (unsigned)out >= P || (unsigned)out * a % P != 1) c.fail(fmt("generic/%s/inverse", w), fmt("p=%u a=%u -> %u", P, a, (unsigned)out));
    T al = (T)a; if (a) { InverseModPrimeSimpleType<T, Sg>(al, al, (T)P); if (al != out) c.fail(fmt("generic/%s/inverse-alias", w), fmt("p=%u a=%u", P, a)); }
    for (unsigned b = 0; b < P; ++b) {
      c.cases(); c.ops(3); c.checked(3);
      t = (T)a; AddSimpleType(t, (T)b, (T)P); if ((unsigned)t != (a + b) % P) c.fail(fmt("generic/%s/add", w), fmt("p=%u %u+%u=%u", P, a, b, (unsigned)t));
      t = (T)a; SubtractSimpleType(t, (T)b, (T)P); if ((unsigned)t != (a + P - b) % P) c.fail(fmt("generic/%s/sub", w), fmt("p=%u %u-%u=%u", P, a, b, (unsigned)t));
      if (EqualSimpleType((T)a, (T)b) != (a == b)) c.fail(fmt("generic/%s/equal", w), fmt("%u %u", a, b));
      c.outcome(t);
    }
  }
}
}
MC_SECTION(generic, 1, 1) {
  for (unsigned P : {2u, 3u, 5u, 7u, 11u, 13u, 31u, 61u, 127u, 251u}) { small<uint64_t, int64_t>(c, P, "u64"); small<unsigned __int128, __int128>(c, P, "u128"); small<uint32_t, int32_t>(c, P, "u32"); }
  if (c.thorough) for (unsigned P : {257u, 509u, 1021u}) small<uint64_t, int64_t>(c, P, "u64");
}
