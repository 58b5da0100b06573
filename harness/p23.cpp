#include "mesh.hpp"
#include "ImplicitFunctors.hpp"
using namespace Plato;
#define MA int ne, int nv, const I1& conn, const V1& x
#define MM(D) Omega_h::Mesh m; vp_mesh(m, D, ne, nv, conn, x)
#define G(D) \
HV(h_gw##D, const V3& x, V3& g, V1& v) { ComputeGradientWorkset<D> f; CELLS((int)x.extent(0), f(i, g, x, v)); } EV \
HV(h_cv##D, const V3& x, V1& v) { ComputeCellVolume<D> f; CELLS((int)x.extent(0), double t; f(i, x, t); v(i) = t); } EV \
HV(h_jd##D, MA, V1& v) { MM(D); JacobianDet<D> f(&m); CELLS(ne, v(i) = f(i)); } EV \
HV(h_cg##D, MA, V3& g, V1& v) { MM(D); NodeCoordinate<D> n(&m); ComputeGradient<D> f(n); CELLS(ne, Omega_h::Vector<D> t[D + 1]; double w; f(i, t, w); v(i) = w; for(int k = 0; k <= D; ++k) for(int a = 0; a < D; ++a) g(i, k, a) = t[k][a]); } EV \
HV(h_vo##D, MA, V1& v) { MM(D); NodeCoordinate<D> n(&m); ComputeVolume<D> f(n); CELLS(ne, v(i) = f(i)); } EV
G(1) G(2) G(3)
HV(h_sa3, const V3& x, int a, int b, int c, V1& v) { ComputeSurfaceArea<3> f; CELLS((int)x.extent(0), int l[3] = {a, b, c}; double t; f(i, l, x, t); v(i) = t); } EV
#define GM(D, NV) HV(h_gm##D, const V3& g, V3& o) { ComputeGradientMatrix<D> f; CELLS((int)g.extent(0), Omega_h::Vector<D> t[D + 1]; Omega_h::Vector<NV> m[D * (D + 1)]; for(int k = 0; k <= D; ++k) for(int a = 0; a < D; ++a) t[k][a] = g(i, k, a); \
  f(t, m); for(int k = 0; k < D * (D + 1); ++k) for(int a = 0; a < NV; ++a) o(i, k, a) = m[k][a]); } EV
GM(1, 1) GM(2, 3) GM(3, 6)
#include "BodyLoads.hpp"
#define MP(D) HV(h_mp##D, MA, const I1& cells, const V2& p, V3& o) { Domain dm(D, ne, nv, conn, x, cells); auto s = dm.get(); mapPoints<D>(s, p, o); } EV
MP(1) MP(2) MP(3)
