#include "mesh.hpp"
#include "SimplexMechanics.hpp"
#include "Strain.hpp"
#include "SimplexStabilizedMechanics.hpp"
#include "SimplexThermomechanics.hpp"
#include "SimplexElectromechanics.hpp"
#include "Kinematics.hpp"
#include "TMKinematics.hpp"
#include "EMKinematics.hpp"
#include "ComplexStrain.hpp"
#include "PressureGradient.hpp"
#include "InterpolateFromNodal.hpp"
#include "StrainDivergence.hpp"
using namespace Plato;
#define K(D) \
HV(h_stab##D, int n, const V2& e, const V2& g, const V2& u, const V3& b) { StabilizedKinematics<D> f; CELLS(n, f(i, e, g, u, b)); } EV \
HV(h_tm##D, int n, const V2& e, const V2& g, const V2& u, const V3& b) { TMKinematics<D> f; CELLS(n, f(i, e, g, u, b)); } EV \
HV(h_stm##D, int n, const V2& e, const V2& p, const V2& g, const V2& u, const V3& b) { StabilizedTMKinematics<D> f; CELLS(n, f(i, e, p, g, u, b)); } EV \
HV(h_em##D, int n, const V2& e, const V2& g, const V2& u, const V3& b) { EMKinematics<D> f; CELLS(n, f(i, e, g, u, b)); } EV \
HV(h_cplx##D, int n, const V2& u, const V3& b, const V3& e) { ComplexStrain<D, 2*D> f; CELLS(n, f(i, u, b, e)); } EV \
HV(h_cplx##D##m, int n, const V2& u, const V3& b, const V3& e) { ComplexStrain<D, 2*D+1> f; CELLS(n, f(i, u, b, e)); } EV \
HV(h_pgrad##D, int n, double s, const V2& g, const V2& p, const V3& b) { PressureGradient<D> f(s); CELLS(n, f(i, g, p, b)); } EV \
HV(h_sdiv##D, int n, const V2& e, const V1& o) { StrainDivergence<D> f; CELLS(n, f(i, e, o)); } EV
K(1) K(2) K(3)
HV(h_interp211, int n, const V1& b, const V2& u, const V1& o) { InterpolateFromNodal<2,1,0> f; CELLS(n, f(i, b, u, o)); } EV
HV(h_interp332, int n, const V1& b, const V2& u, const V1& o) { InterpolateFromNodal<3,4,2> f; CELLS(n, f(i, b, u, o)); } EV
HV(h_interpv2, int n, const V1& b, const V2& u, const V2& o) { InterpolateFromNodal<2,2,0,2> f; CELLS(n, f(i, b, u, o)); } EV
HV(h_interpv3, int n, const V1& b, const V2& u, const V2& o) { InterpolateFromNodal<3,5,1,3> f; CELLS(n, f(i, b, u, o)); } EV
#include "InterpolateGradientFromScalarNodal.hpp"
#define NG(D, N, O) HV(h_ig##D##N##O, int n, const V3& g, const V2& s, const V2& o) { Plato::InterpolateGradientFromScalarNodal<D, N, O> f; CELLS(n, f(i, g, s, o)); } EV
NG(1, 1, 0) NG(2, 1, 0) NG(3, 1, 0) NG(2, 3, 2) NG(3, 4, 3) NG(3, 5, 1)
// strain of a displacement among other unknowns, and the one that takes the strain-displacement matrix
#define ST(D, N) HV(h_st##D##N, int n, const V2& e, const V2& u, const V3& b) { Strain<D, N> f; CELLS(n, f(i, e, u, b)); } EV
ST(1, 1) ST(2, 2) ST(3, 3) ST(1, 2) ST(2, 3) ST(3, 5)
#define SB(D, W) HV(h_sb##D, int n, const V2& e, const V2& u, const V2& g) { Strain<D> f; Omega_h::Vector<W> m[D*(D+1)]; for(int k = 0; k < D*(D+1); k++) for(int j = 0; j < W; j++) m[k][j] = g(k, j); CELLS(n, f(i, e, u, m)); } EV
SB(1, 1) SB(2, 3) SB(3, 6)
