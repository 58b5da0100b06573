#include "vp.hpp"
#include "ComputeCauchyStress.hpp"
#include "ComputeDeviatoricStrain.hpp"
#include "ComputeDeviatoricStress.hpp"
#include "ComputeElasticWork.hpp"
#include "ComputeStabilization.hpp"
#include "DotProduct.hpp"
#include "DoubleDotProduct2ndOrderTensor.hpp"
#include "VonMisesYieldFunction.hpp"
#include "IsotropicMaterialUtilities.hpp"
using namespace Plato;
#define K(D) \
HV(h_cs##D, int n, double k, double g, const V2& e, const V2& s) { ComputeCauchyStress<D> f; CELLS(n, f(i, k, g, e, s)); } EV \
HV(h_de##D, int n, const V2& e, const V2& s) { ComputeDeviatoricStrain<D> f; CELLS(n, f(i, e, s)); } EV \
HV(h_ds##D, int n, double g, const V2& e, const V2& s) { ComputeDeviatoricStress<D> f; CELLS(n, f(i, g, e, s)); } EV \
HV(h_ew##D, int n, double g, double k, const V2& e, const V2& d, const V1& o) { ComputeElasticWork<D> f; CELLS(n, f(i, g, k, e, d, o)); } EV \
HV(h_st##D, int n, double s, double g, const V1& v, const V2& p, const V2& q, const V2& o) { ComputeStabilization<D> f(s, g); CELLS(n, f(i, v, p, q, o)); } EV \
HV(h_dd##D, int n, const V2& a, const V2& b, const V1& o) { DoubleDotProduct2ndOrderTensor<D> f; CELLS(n, f(i, a, b, o)); } EV \
HV(h_vm##D, int n, const V2& s, const V1& o) { VonMisesYieldFunction<D> f; CELLS(n, f(i, s, o)); } EV
K(1) K(2) K(3)
// chained: deviatoric stress, its norm, elastic work
#define CH(D) HV(h_ch##D, int n, double k, double g, const V2& e, const V2& d, const V2& s, const V1& w) { ComputeDeviatoricStrain<D> f; ComputeDeviatoricStress<D> h; ComputeElasticWork<D> q; CELLS(n, f(i, e, d); h(i, g, e, s); q(i, g, k, e, d, w)); } EV
CH(1) CH(2) CH(3)
HV(h_dot1, int n, const V2& a, const V2& b, const V1& o) { DotProduct<1> f; CELLS(n, f(i, a, b, o)); } EV
HV(h_dot4, int n, const V2& a, const V2& b, const V1& o) { DotProduct<4> f; CELLS(n, f(i, a, b, o)); } EV
HV(h_dot6, int n, const V2& a, const V2& b, const V1& o) { DotProduct<6> f; CELLS(n, f(i, a, b, o)); } EV
HR(h_shear, double e, double v) { return compute_shear_modulus(e, v); } ER
HR(h_bulk, double e, double v) { return compute_bulk_modulus(e, v); } ER
