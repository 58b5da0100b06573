#include "mesh.hpp"
#include "WorksetBase.hpp"
using namespace Plato;
#define MA int ne, int nv, const I1& conn, const V1& x
#define MM(D) Omega_h::Mesh m; vp_mesh(m, D, ne, nv, conn, x)
#define DA MA, const I1& cells
#define DD(D) Domain dm(D, ne, nv, conn, x, cells); auto s = dm.get(); auto& m = dm.m
#define RES(D) \
HV(h_r##D, MA, const V2& w, V1& o) { MM(D); WorksetBase<SimplexMechanics<D>> b(m); b.assembleResidual(w, o); } EV \
HV(h_rd##D, DA, const V2& w, V1& o) { DD(D); WorksetBase<SimplexMechanics<D>> b(m); b.assembleResidual(w, o, s); } EV
RES(1) RES(2) RES(3)
template<int N> using Fd = Sacado::Fad::SFad<double, N>;
#define F1(N) ScalarVectorT<Fd<N>> w("w", d.extent(0)); CELLS((int)d.extent(0), Fd<N> t(N, 0.0); for(int j = 0; j < N; ++j) t.fastAccessDx(j) = d(i, j); w(i) = t)
#define F1V(N) ScalarVectorT<Fd<N>> w("w", d.extent(0)); CELLS((int)d.extent(0), Fd<N> t(N, val(i)); for(int j = 0; j < N; ++j) t.fastAccessDx(j) = d(i, j); w(i) = t)
#define F2(R, N) ScalarMultiVectorT<Fd<N>> w("w", d.extent(0), R); CELLS((int)d.extent(0), for(int k = 0; k < R; ++k) { Fd<N> t(N, 0.0); for(int j = 0; j < N; ++j) t.fastAccessDx(j) = d(i, k, j); w(i, k) = t; })
#define GR(D) \
HV(h_gu##D, MA, const V2& w, V1& o) { MM(D); WorksetBase<SimplexMechanics<D>> b(m); b.assembleVectorGradientU(w, o); } EV \
HV(h_gx##D, MA, const V2& w, V1& o) { MM(D); WorksetBase<SimplexMechanics<D>> b(m); b.assembleVectorGradientX(w, o); } EV \
HV(h_gz##D, MA, const V2& w, V1& o) { MM(D); WorksetBase<SimplexMechanics<D>> b(m); b.assembleScalarGradientZ(w, o); } EV \
HV(h_guf##D, MA, const V2& d, V1& o) { MM(D); WorksetBase<SimplexMechanics<D>> b(m); F1((D*(D+1))); b.assembleVectorGradientFadU(w, o); } EV \
HV(h_gxf##D, MA, const V2& d, V1& o) { MM(D); WorksetBase<SimplexMechanics<D>> b(m); F1((D*(D+1))); b.assembleVectorGradientFadX(w, o); } EV \
HV(h_gzf##D, MA, const V2& d, V1& o) { MM(D); WorksetBase<SimplexMechanics<D>> b(m); F1((D+1)); b.assembleScalarGradientFadZ(w, o); } EV \
HV(h_gufd##D, DA, const V2& d, V1& o) { DD(D); VectorEntryOrdinal<D, D> e(&m); F1((D*(D+1))); assemble_vector_gradient_fad<D + 1, D>(s, e, w, o); } EV \
HV(h_gzfd##D, DA, const V2& d, V1& o) { DD(D); VectorEntryOrdinal<D, 1> e(&m); F1((D+1)); assemble_scalar_gradient_fad<D + 1>(s, e, w, o); } EV
GR(1) GR(2) GR(3)
HR(h_sum, int n, const V1& v) { return local_result_sum<double>(n, v); } ER
HR(h_val, int n, const V1& val, const V2& d) { F1V(3); return assemble_scalar_func_value<double>(n, w); } ER
HV(h_flat, int n, V2& w, V1& o) { flatten_vector_workset<4>(n, w, o); } EV
HV(h_flatd, DA, V2& w, V1& o) { DD(2); flatten_vector_workset<4>(s, w, o); } EV
HV(h_avw, DA, V2& w, V2& o) { DD(2); assemble_vector_workset<4>(s, w, o); } EV
HV(h_pod2, const V2& d, V2& o) { F1(3); transform_ad_type_to_pod_2Dview<3>(w, o); } EV
HV(h_pod2d, DA, const V2& d, V2& o) { DD(2); F1(3); transform_ad_type_to_pod_2Dview<3>(s, w, o); } EV
#define CP3 CELLS((int)o.extent(0), for(int k = 0; k < 2; ++k) for(int j = 0; j < 3; ++j) o(i, k, j) = q(i, k, j))
HV(h_pod3, int n, const V3& d, V3& o) { F2(2, 3); V3 q("q", o.extent(0), 2, 3); transform_ad_type_to_pod_3Dview<2, 3>(n, w, q); CP3; } EV
HV(h_pod3d, DA, const V3& d, V3& o) { DD(2); F2(2, 3); V3 q("q", o.extent(0), 2, 3); transform_ad_type_to_pod_3Dview<2, 3>(s, w, q); CP3; } EV
struct Look { I1 t; int r, c; DEVICE_TYPE int operator()(int e, int i, int j) const { return t((e * r + i) * c + j); } };
HV(h_jac, MA, const I1& tab, const V3& w, V1& o) { MM(2); WorksetBase<SimplexMechanics<2>> b(m); Look l{tab, (int)w.extent(1), (int)w.extent(2)}; b.assembleJacobian(l.r, l.c, l, w, o); } EV
HV(h_jact, int ne, const I1& tab, const V3& w, V1& o) { Look l{tab, (int)w.extent(2), (int)w.extent(1)}; assemble_jacobian_transpose_pod(ne, l.c, l.r, l, w, o); } EV
HV(h_jacf, MA, const I1& tab, const V3& d, V1& o) { MM(2); WorksetBase<SimplexMechanics<2>> b(m); Look l{tab, 2, 3}; F2(2, 3); b.assembleJacobianFad(2, 3, l, w, o); } EV
HV(h_jacfd, DA, const I1& tab, const V3& d, V1& o) { DD(2); WorksetBase<SimplexMechanics<2>> b(m); Look l{tab, 2, 3}; F2(2, 3); b.assembleJacobianFad(2, 3, l, w, o, s); } EV
HV(h_jactf, MA, const I1& tab, const V3& d, V1& o) { MM(2); WorksetBase<SimplexMechanics<2>> b(m); Look l{tab, 3, 2}; F2(2, 3); b.assembleTransposeJacobian(2, 3, l, w, o); } EV
HV(h_jactfd, DA, const I1& tab, const V3& d, V1& o) { DD(2); WorksetBase<SimplexMechanics<2>> b(m); Look l{tab, 3, 2}; F2(2, 3); b.assembleTransposeJacobian(2, 3, l, w, o, s); } EV

static auto mat(const I1& rm, const I1& ci, int I, int J) { return Teuchos::rcp(new CrsMatrixType(rm, ci, V1("e", 0), 0, 0, I, J)); }
#define LA MA, const I1& rm, const I1& ci, int e, int k, int l
#define LOOK(D, I, J) HI(h_lk##D##I##J, LA) { MM(D); BlockMatrixEntryOrdinal<D, I, J> f(mat(rm, ci, I, J), &m); return f(e, k, l); } EI
LOOK(2, 2, 2) LOOK(3, 3, 3) LOOK(2, 3, 1) LOOK(1, 1, 1) LOOK(3, 4, 3)
#define LOOKT(D, I) HI(h_lt##D##I, LA) { MM(D); BlockMatrixTransposeEntryOrdinal<D, I> f(mat(rm, ci, I, I), &m); return f(e, k, l); } EI
LOOKT(2, 2) LOOKT(3, 4)
#define LOOKM(D, I) HI(h_lm##D##I, LA) { MM(D); MatrixEntryOrdinal<D, I> f(mat(rm, ci, 1, 1), &m); return f(e, k, l); } EI
LOOKM(2, 2) LOOKM(3, 1)
