// Every public template of the library instantiated over opaque generators, sources and streams: input of the IR passes.
#include "../scen/engines.hpp"
#include "../scen/dists.hpp"
#include <boost/random/generate_canonical.hpp>
#include <boost/random/random_number_generator.hpp>
#include <boost/random/seed_seq.hpp>
#include <boost/random/sobol.hpp>
#include <boost/random/faure.hpp>
#include <boost/random/niederreiter_base2.hpp>
#include <sstream>
extern "C" { u64 va_draw(); double va_drawf(); u64 va_ext(int); double va_extd(int); }
template<class R, R Lo, R Hi> struct Og { typedef R result_type; static constexpr R min() { return Lo; } static constexpr R max() { return Hi; } result_type operator()() { return (R)va_draw(); } };
struct Ogd { typedef double result_type; static constexpr double min() { return 0; } static constexpr double max() { return 1; } double operator()() { return va_drawf(); } };
struct Oseq { typedef u32 result_type; template<class I> void generate(I f, I l) const { for (; f != l; ++f) *f = (u32)va_ext(1); } };
typedef Og<u32, 0, ~0u> O32; typedef Og<u32, 1, 2147483646u> Om; typedef Og<u64, 0, ~0ull> O64; typedef Og<int, -5, 5> Os; typedef Og<unsigned char, 0, 255> O8;
template<class E> void engine() {
  E e; E s((u32)va_ext(2)); Oseq q; E t(q); std::vector<u32> v(2000); const u32* f = v.data(); E c(e); c = t; if constexpr (!std::is_same<E, br::splitmix64>::value) { E u(f, f + 2000); c = u; u.seed(f, f + 2000); } e.seed(); e.seed((u32)va_ext(3)); e.seed(q);
  volatile typename E::result_type r = e(); r = (e.min)(); r = (e.max)(); e.discard(va_ext(4)); u32 a[7]; e.generate(a, a + 7);
  std::stringstream ss; ss << e; ss >> c; volatile bool b = e == c; b = e != c; }
#define X(id, ...) void e_##id() { engine<__VA_ARGS__ >(); }
G_LCG(X) G_MT(X) G_MTB(X) G_SWC(X) G_LF(X) G_RLX(X) G_CMB(X) G_SHO(X) G_INV(X) G_IB(X) G_MIX(X)
#undef X
template<class D> void use(const D&) {} 
volatile char sink;
template<class T> void eat(const T& t) { std::stringstream s; s << t; }
template<class T> void eat(const std::vector<T>& v) { for (auto& x : v) sink = (char)x; }
template<class D, class G> void draw1(D& d, const typename D::param_type& p) { G g; eat(d(g)); eat(d(g, p)); }
template<class C> void dist() { typedef typename C::D D; D d(C::template mk<D>(1)); D e; typename D::param_type p = C::template mk<typename D::param_type>(2); draw1<D, O32>(d, p); draw1<D, Om>(d, p); draw1<D, O64>(d, p); draw1<D, Ogd>(d, p); draw1<D, O8>(d, p); draw1<D, Os>(d, p);
  d.reset(); d.param(p); D c(d); c = d; volatile bool b = c == d; b = c != d; b = p == d.param(); b = p != d.param(); std::stringstream ss; ss << d << p; ss >> d >> p; b = C::acc(d, 1); eat((d.min)()); eat((d.max)()); }
#define X(id) void d_##id() { dist<C_##id>(); }
D_INT(X) D_REAL(X) D_NORM(X) D_BIN(X) D_BIH(X) D_GAM(X) D_GAM2(X) D_GAM3(X) D_LST(X) D_DISC(X)
template<class Q> void qrng() { Q q(3); Q r(5); q.seed(); q.seed((u32)va_ext(5)); q.discard(va_ext(6)); volatile auto x = q(); volatile auto n = q.dimension(); volatile auto lo = q.min(); volatile auto hi = q.max(); std::stringstream ss; ss << q; ss >> r; Q c(q); c = r; volatile bool b = c == q; b = c != q; u32 a[7]; q.generate(a, a + 7); (void)x; (void)n; (void)lo; (void)hi; }
void q_sobol() { qrng<br::sobol>(); } void q_nied() { qrng<br::niederreiter_base2>(); }
void q_faure() { typedef br::faure Q; Q q(3); Q r(5); q.seed(); q.seed((u32)va_ext(5)); q.discard(va_ext(6)); volatile double x = q(); std::stringstream ss; ss << q; ss >> r; volatile bool b = r == q; (void)x; (void)b; }
template<class G> void canon() { G g; volatile double d = br::generate_canonical<double, 53>(g); volatile float f = br::generate_canonical<float, 24>(g); br::uniform_01<double> u; d = u(g); boost::uniform_01<G> v(g); d = v(); boost::uniform_01<G&> w(g); d = w(); (void)d; (void)f; }
void x_canon() { canon<O32>(); canon<Om>(); canon<O64>(); canon<Ogd>(); canon<O8>(); canon<Os>(); }
void x_seq() { std::vector<u32> v(5); br::seed_seq s(v); br::seed_seq t(v.begin(), v.end()); br::seed_seq z; u32 a[20]; s.generate(a, a + (va_ext(7) % 20)); std::vector<u32> o(9); t.param(o.begin()); volatile std::size_t n = t.size(); (void)n; br::mt19937 e(s); }
void x_var() { typedef boost::variate_generator<O32&, br::normal_distribution<> > V; O32 g; V v(g, br::normal_distribution<>(1, 2)); volatile double d = v(); d = v.min(); d = v.max(); v.engine(); v.distribution(); boost::variate_generator<O32, br::uniform_int_distribution<> > w(g, br::uniform_int_distribution<>(1, 6)); d = w(); boost::variate_generator<O32*, br::uniform_smallint<> > y(&g, br::uniform_smallint<>(1, 6)); d = y(); br::random_number_generator<O32, long> rng(g); d = rng((long)va_ext(8)); (void)d; }
