#include "vp.hpp"
#include "SimplexMechanics.hpp"
#include "StressDivergence.hpp"
#include "FluxDivergence.hpp"
#include "PressureDivergence.hpp"
#include "ProjectToNode.hpp"
#include "ComplexStressDivergence.hpp"
using namespace Plato;
#define SD(NM, ...) HV(h_sd##NM, int n, double s, const V2& o, const V2& t, const V3& b, const V1& v) { StressDivergence<__VA_ARGS__> f; CELLS(n, f(i, o, t, b, v, s)); } EV
SD(100, 1, 1, 0) SD(220, 2, 2, 0) SD(231, 2, 3, 1) SD(330, 3, 3, 0) SD(340, 3, 4, 0) SD(352, 3, 5, 2)
HV(h_sdd, int n, const V2& o, const V2& t, const V3& b, const V1& v) { StressDivergence<2> f; CELLS(n, f(i, o, t, b, v)); } EV
#define FD(NM, ...) HV(h_fd##NM, int n, double s, const V2& o, const V2& t, const V3& b, const V1& v) { FluxDivergence<__VA_ARGS__> f; CELLS(n, f(i, o, t, b, v, s)); } EV
FD(110, 1, 1, 0) FD(210, 2, 1, 0) FD(232, 2, 3, 2) FD(310, 3, 1, 0) FD(343, 3, 4, 3)
HV(h_fdd, int n, const V2& o, const V2& t, const V3& b, const V1& v) { FluxDivergence<2, 3, 2> f; CELLS(n, f(i, o, t, b, v)); } EV
#define PD(NM, ...) HV(h_pd##NM, int n, double s, const V2& o, const V1& t, const V3& b, const V1& v) { PressureDivergence<__VA_ARGS__> f; CELLS(n, f(i, o, t, b, v, s)); } EV
PD(110, 1, 1, 0) PD(220, 2, 2, 0) PD(230, 2, 3, 0) PD(351, 3, 5, 1)
HV(h_pdd, int n, const V2& o, const V1& t, const V3& b, const V1& v) { PressureDivergence<2, 3, 0> f; CELLS(n, f(i, o, t, b, v)); } EV
#define PN(NM, ...) HV(h_pn##NM, int n, double s, const V1& v, const V1& b, const V2& t, const V2& o) { ProjectToNode<__VA_ARGS__> f; CELLS(n, f(i, v, b, t, o, s)); } EV \
 HV(h_ps##NM, int n, double s, const V1& v, const V1& b, const V1& t, const V2& o) { ProjectToNode<__VA_ARGS__> f; CELLS(n, f(i, v, b, t, o, s)); } EV
PN(110, 1, 1, 0) PN(220, 2, 2, 0) PN(232, 2, 3, 2) PN(353, 3, 5, 3)
HV(h_pnd, int n, const V1& v, const V1& b, const V2& t, const V2& o) { ProjectToNode<2, 3, 2> f; CELLS(n, f(i, v, b, t, o)); } EV
HV(h_psd, int n, const V1& v, const V1& b, const V1& t, const V2& o) { ProjectToNode<2, 3, 2> f; CELLS(n, f(i, v, b, t, o)); } EV
HV(h_cd1, int n, const V1& v, const V3& b, const V3& t, const V2& o) { ComplexStressDivergence<1, 2> f; CELLS(n, f(i, v, b, t, o)); } EV
HV(h_cd1m, int n, const V1& v, const V3& b, const V3& t, const V2& o) { ComplexStressDivergence<1, 3> f; CELLS(n, f(i, v, b, t, o)); } EV
HV(h_cd2, int n, const V1& v, const V3& b, const V3& t, const V2& o) { ComplexStressDivergence<2, 4> f; CELLS(n, f(i, v, b, t, o)); } EV
HV(h_cd2m, int n, const V1& v, const V3& b, const V3& t, const V2& o) { ComplexStressDivergence<2, 5> f; CELLS(n, f(i, v, b, t, o)); } EV
HV(h_cd3, int n, const V1& v, const V3& b, const V3& t, const V2& o) { ComplexStressDivergence<3, 6> f; CELLS(n, f(i, v, b, t, o)); } EV
HV(h_cd3m, int n, const V1& v, const V3& b, const V3& t, const V2& o) { ComplexStressDivergence<3, 7> f; CELLS(n, f(i, v, b, t, o)); } EV
#include "ComplexStrain.hpp"
#include "SimplexStabilizedMechanics.hpp"
#include "Kinematics.hpp"
// virtual work of the assembled force of one cell over a displacement = volume * stress : strain of that displacement
#define VW(D) HV(h_vw##D, int n, const V2& u, const V3& b, const V3& e, const V3& t, const V1& v, const V2& o) { \
  ComplexStrain<D, 2*D> f; ComplexStressDivergence<D, 2*D> g; CELLS(n, f(i, u, b, e); g(i, v, b, t, o)); } EV
VW(2) VW(3)
