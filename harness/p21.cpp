#include "mesh.hpp"
#include "WorksetBase.hpp"
#include "SimplexThermal.hpp"
#include "SimplexThermomechanics.hpp"
#include "SimplexElectromechanics.hpp"
#include "SimplexStabilizedMechanics.hpp"
#include "SimplexPlasticity.hpp"
#include "SimplexThermoPlasticity.hpp"
using namespace Plato;
#define MA int ne, int nv, const I1& conn, const V1& x
#define MM(D) Omega_h::Mesh m; vp_mesh(m, D, ne, nv, conn, x)
#define DA MA, const I1& cells
#define DD(D) Domain dm(D, ne, nv, conn, x, cells); auto s = dm.get(); auto& m = dm.m
#define N0 ((int)o.extent(0))
// values and derivatives of a workset of AD type F into o(i,k) and d(i,k,j)
#define OUT2(F) CELLS(N0, for(int k = 0; k < (int)o.extent(1); ++k) { o(i, k) = w(i, k).val(); for(int j = 0; j < (int)d.extent(2); ++j) d(i, k, j) = w(i, k).dx(j); })
template<class P> using FT = SimplexFadTypes<P>;
#define GATHER(TAG, P, D, WHAT, FAD) \
HV(h_##TAG, MA, const V1& u, V2& o) { MM(D); WorksetBase<P> b(m); b.workset##WHAT(u, o); } EV \
HV(h_##TAG##d, DA, const V1& u, V2& o) { DD(D); WorksetBase<P> b(m); b.workset##WHAT(u, o, s); } EV \
HV(h_##TAG##f, MA, const V1& u, V2& o, V3& d) { MM(D); WorksetBase<P> b(m); using F = typename FT<P>::FAD; ScalarMultiVectorT<F> w("w", o.extent(0), o.extent(1)); b.workset##WHAT(u, w); OUT2(F); } EV \
HV(h_##TAG##df, DA, const V1& u, V2& o, V3& d) { DD(D); WorksetBase<P> b(m); using F = typename FT<P>::FAD; ScalarMultiVectorT<F> w("w", o.extent(0), o.extent(1)); b.workset##WHAT(u, w, s); OUT2(F); } EV
#define CTRL(TAG, P, D) GATHER(TAG##c, P, D, Control, ControlFad)
#define STATE(TAG, P, D) GATHER(TAG##u, P, D, State, StateFad)
#define NODE(TAG, P, D) GATHER(TAG##n, P, D, NodeState, NodeStateFad)
#define LOCAL(TAG, P, D) GATHER(TAG##l, P, D, LocalState, LocalStateFad)
#define OUTX CELLS(N0, for(int k = 0; k <= DIM; ++k) for(int a = 0; a < DIM; ++a) { o(i, k, a) = w(i, k, a).val(); for(int j = 0; j < (DIM + 1) * DIM; ++j) d(i, k * DIM + a, j) = w(i, k, a).dx(j); })
#define CONF(TAG, P, D) \
HV(h_##TAG##x, MA, V3& o) { MM(D); WorksetBase<P> b(m); b.worksetConfig(o); } EV \
HV(h_##TAG##xd, DA, V3& o) { DD(D); WorksetBase<P> b(m); b.worksetConfig(o, s); } EV \
HV(h_##TAG##xf, MA, V3& o, V3& d) { MM(D); WorksetBase<P> b(m); using F = typename FT<P>::ConfigFad; constexpr int DIM = D; ScalarArray3DT<F> w("w", o.extent(0), DIM + 1, DIM); b.worksetConfig(w); OUTX; } EV \
HV(h_##TAG##xdf, DA, V3& o, V3& d) { DD(D); WorksetBase<P> b(m); using F = typename FT<P>::ConfigFad; constexpr int DIM = D; ScalarArray3DT<F> w("w", o.extent(0), DIM + 1, DIM); b.worksetConfig(w, s); OUTX; } EV
#define CU(TAG, P, D) CTRL(TAG, P, D) STATE(TAG, P, D)
CU(m1, SimplexMechanics<1>, 1) CONF(m1, SimplexMechanics<1>, 1)
CU(m2, SimplexMechanics<2>, 2) CONF(m2, SimplexMechanics<2>, 2)
CU(m3, SimplexMechanics<3>, 3) CONF(m3, SimplexMechanics<3>, 3)
STATE(t3, SimplexThermal<3>, 3) STATE(tm2, SimplexThermomechanics<2>, 2) STATE(em2, SimplexElectromechanics<2>, 2)
STATE(sm2, SimplexStabilizedMechanics<2>, 2) NODE(sm2, SimplexStabilizedMechanics<2>, 2)
STATE(p2, SimplexPlasticity<2>, 2) NODE(p2, SimplexPlasticity<2>, 2) LOCAL(p2, SimplexPlasticity<2>, 2) CTRL(p2, SimplexPlasticity<2>, 2)
NODE(p3, SimplexPlasticity<3>, 3) LOCAL(p3, SimplexPlasticity<3>, 3)
STATE(tp2, SimplexThermoPlasticity<2>, 2) LOCAL(tp2, SimplexThermoPlasticity<2>, 2)
