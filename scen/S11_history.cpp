// S11: what a distribution returns next depends on its parameters and the engine only: resetting, copying, re-parameterising.
//UNITS: INTD REAL NORM BIN BIH GAM GAM2 GAM3 LST LST2 DISC
#include "dists.hpp"
#include "draws.hpp"
template<class C, class G> void history(int B) {
  typedef typename C::D D; typedef typename D::param_type P; va_bound(B); va_values_only();
  D used(C::template mk<D>(10)); const D fresh(C::template mk<D>(10));
  G g; used(g); D copy(used); G h(g), k(g), l(g);
  va_check(used.param() == fresh.param(), "drawing leaves the parameters of the distribution alone");
  typename D::result_type c = copy(k), x = used(g);
  va_check(eqr(c, x) & (k == g), "a copy of a used distribution continues exactly like the original");
  used.reset(); D f(fresh); va_check(used == fresh, "a distribution that has been reset equals a newly constructed one");
  G m(h); typename D::result_type y = used(m), z = f(l);
  va_check(eqr(y, z), "after reset() the values do not depend on earlier draws");
  va_check(m == l, "after reset() the draws do not depend on earlier draws");
}
template<class C, class G> void reparam(int B) {
  typedef typename C::D D; typedef typename D::param_type P; va_bound(B); va_values_only();
  D used(C::template mk<D>(11)); D fresh(C::template mk<D>(10)); const P p(C::template mk<P>(10));
  G g; used(g); used.param(p); used.reset(); G h(g); typename D::result_type x = used(g), y = fresh(h);
  va_check(eqr(x, y) & (g == h), "a distribution given other parameters and reset draws like a new one with those parameters");
}
#define X(id) SCEN(S11_##id##_Gfull) { history<C_##id, Gfull>(2); } SCEN(S11_##id##_Gmin) { history<C_##id, Gmin>(2); } SCEN(S11_##id##_re) { reparam<C_##id, Gfull>(2); }
#include "dunits.hpp"
