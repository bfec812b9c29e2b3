// S08: d(eng, parm) is what a distribution holding parm would return, leaves d's own parameters alone, draws only from eng.
//UNITS: INTD REAL NORM BIN BIH GAM GAM2 GAM3 LST LST2 DISC
#include "dists.hpp"
#include "draws.hpp"
template<class C, class G, bool Held> void apply(int B) {
  typedef typename C::D D; typedef typename D::param_type P; va_bound(B); va_values_only();
  D d(C::template mk<D>(10)), o(C::template mk<D>(11)); const P p(C::template mk<P>(10)); const P before(o.param());
  G g, h;
  typename D::result_type x = Held ? d(g) : d(g, p), y = o(h, p);
  va_check(eqr(x, y), "a value drawn with explicit parameters depends on the parameters and the engine only");
  va_check(g == h, "drawing with explicit parameters advances the engine as far whatever distribution it is applied to");
  va_check(o.param() == before, "drawing with explicit parameters leaves the distribution's own parameters alone");
  va_check(p == d.param(), "drawing leaves the parameters of the distribution alone");
}
#define X(id) SCEN(S08_##id##_Gfull) { apply<C_##id, Gfull, true>(3); } SCEN(S08_##id##_Gmin) { apply<C_##id, Gmin, true>(3); } SCEN(S08_##id##_G64) { apply<C_##id, G64, true>(3); }
#ifdef UNIT_DISC
#undef X
// discrete_distribution uses two algorithms: with explicit parameters it scans the weights instead of using its table
#define X(id) SCEN(S08_##id##_Gfull) { apply<C_##id, Gfull, false>(10); } SCEN(S08_##id##_Gmin) { apply<C_##id, Gmin, false>(10); } SCEN(S08_##id##_G64) { apply<C_##id, G64, false>(10); }
#endif
#include "dunits.hpp"
