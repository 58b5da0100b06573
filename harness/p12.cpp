#include "vp.hpp"
#include "InertialForces.hpp"
#include "ComplexRayleighDamping.hpp"
#include "RayleighDamping.hpp"
#include "AdjointComplexRayleighDamping.hpp"
#include "ComplexElasticEnergy.hpp"
#include "ComplexInertialEnergy.hpp"
#include "StructuralDynamicsCellResidual.hpp"
#include "ComputeFrequencyResponseMisfit.hpp"
#include "StateValues.hpp"
using namespace Plato;
typedef Teuchos::ParameterList PL;
static void fill(PL& l, bool hm, double m, bool hk, double k) { if(hm) l.set("Rayleigh Mass Damping", m); if(hk) l.set("Rayleigh Stiffness Damping", k); }
HV(h_if, int n, double d, const V1& v, const V1& b, const V2& s, const V2& o) { InertialForces f(d); CELLS(n, f(i, v, b, s, o)); } EV
#define K(D) \
HV(h_cd##D, int n, double m, double k, const V2& e, const V2& q, const V2& o) { ComplexRayleighDamping<D> f(m, k); CELLS(n, f(i, e, q, o)); } EV \
HV(h_cdl##D, int n, bool hm, double m, bool hk, double k, const V2& e, const V2& q, const V2& o) { PL l; fill(l, hm, m, hk, k); ComplexRayleighDamping<D> f(l); CELLS(n, f(i, e, q, o)); } EV \
HV(h_ad##D, int n, double m, double k, const V2& e, const V2& q, const V2& o) { AdjointComplexRayleighDamping<D> f(m, k); CELLS(n, f(i, e, q, o)); } EV \
HV(h_adl##D, int n, bool hm, double m, bool hk, double k, const V2& e, const V2& q, const V2& o) { PL l; fill(l, hm, m, hk, k); AdjointComplexRayleighDamping<D> f(l); CELLS(n, f(i, e, q, o)); } EV \
HV(h_bi##D, int n, double m, double k, const V2& x, const V2& y, const V2& o, const V2& p) { ComplexRayleighDamping<D> f(m, k); AdjointComplexRayleighDamping<D> g(m, k); CELLS(n, f(i, x, x, o); g(i, y, y, p)); } EV \
HV(h_ie##D, int n, double w, double d, const V1& v, const V2& s, const V1& o) { ComplexInertialEnergy<D> f(w, d); CELLS(n, f(i, v, s, o)); } EV \
HV(h_fm##D, int n, const V2& x, const V2& t, const V1& o) { ComputeFrequencyResponseMisfit<D> f; CELLS(n, f(i, x, t, o)); } EV
K(1) K(2) K(3)
#define R(N) \
HV(h_rd##N, int n, double m, double k, const V2& e, const V2& q, const V2& o) { RayleighDamping<N> f(m, k); CELLS(n, f(i, e, q, o)); } EV \
HV(h_rdl##N, int n, bool hm, double m, bool hk, double k, const V2& e, const V2& q, const V2& o) { PL l; fill(l, hm, m, hk, k); RayleighDamping<N> f(l); CELLS(n, f(i, e, q, o)); } EV \
HV(h_cr##N, int n, double w, const V2& e, const V2& d, const V2& q, const V2& o) { CELLS(n, (structural_dynamics_cell_residual<N, double>(i, w, e, d, q, o))); } EV \
HV(h_ee##N, int n, const V3& s, const V3& e, const V1& o) { ComplexElasticEnergy<N> f; CELLS(n, f(i, s, e, o)); } EV
R(1) R(3) R(6)
HV(h_sv, int n, const V1& b, const V2& s, const V2& o) { StateValues f; CELLS(n, f(i, b, s, o)); } EV
