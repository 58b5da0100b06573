#include "mesh.hpp"
#include "SimplexMechanics.hpp"
#include "SimplexThermal.hpp"
#include "alg/Basis.cpp"
#include "alg/Cubature.cpp"
#include "LinearElasticMaterial.cpp"
#include "IsotropicLinearElasticMaterial.cpp"
#include "CubicLinearElasticMaterial.cpp"
#include "OrthotropicLinearElasticMaterial.cpp"
#include "ExpressionEvaluator.cpp"
#include "CustomMaterial.cpp"
#include "CustomLinearElasticMaterial.cpp"
#include "MaterialModel.cpp"
#include "Rank4Voigt.cpp"
#include "IsotropicStiffness.cpp"
#include "elliptic/Volume.hpp"
#include "elliptic/ThermostaticResidual.hpp"
#include "elliptic/ElastostaticResidual.hpp"
#include "elliptic/InternalElasticEnergy.hpp"
#include "elliptic/InternalThermalEnergy.hpp"
#include "elliptic/FluxPNorm.hpp"
#include "elliptic/StressPNorm.hpp"
#include "elliptic/EffectiveEnergy.hpp"
#include "parabolic/ExpInstMacros.hpp"
#undef PLATO_PARABOLIC_EXPL_DEC
#define PLATO_PARABOLIC_EXPL_DEC(C, T, D)     // the templates are instantiated here
#include "parabolic/HeatEquationResidual.hpp"
#include "parabolic/InternalThermalEnergy.hpp"
#include "parabolic/TemperatureAverage.hpp"
#include "geometric/Volume.hpp"
#include "geometric/GeometricSimplexFadTypes.hpp"
using namespace Plato;
typedef Teuchos::ParameterList PL;
// cells of the mesh in the block; the mesh itself only supplies the number of cells
#define DA int ne, const I1& cells
#define DD(D) V3 x = place<D>(xa); DE(D)
#define DX(D) V3 x = placed<D>(xa); DE(D)
#define DE(D) I1 conn("conn", ne * (D + 1)); V1 xx("x", 1); Domain dm(D, ne, 1, conn, xx, cells); auto s = dm.get(); DataMap dmap; PL pl; PL pen; std::string fn("f"); PL& mat = pl.sublist("Material Models").sublist("mat"); pl.sublist("Elliptic")
#define PEN pen.set<double>("Exponent", pp(0)); pen.set<double>("Minimum Value", pp(1))
#define CUBIC PL& q = mat.sublist("Cubic Linear Elastic"); q.set<double>("C11", m(0)); q.set<double>("C12", m(1)); q.set<double>("C44", m(2))
#define CONDUCT PL& q = mat.sublist("Thermal Conduction"); q.set<double>("Thermal Conductivity", m(0))
#define CONDUCTT PL& q = mat.sublist("Thermal Conduction"); q.set<bool>("Temperature Dependent", true); PL& w = q.sublist("Thermal Conductivity"); w.set<double>("c011", m(0)); w.set<double>("c111", m(1)); w.set<double>("c211", m(2)); w.set<double>("c022", m(0)); w.set<double>("c122", m(1)); w.set<double>("c222", m(2)); w.set<double>("c033", m(0)); w.set<double>("c133", m(1)); w.set<double>("c233", m(2))
#define MASS PL& b = mat.sublist("Thermal Mass"); b.set<double>("Mass Density", m(3)); b.set<double>("Specific Heat", m(4))
#define MASST PL& b = mat.sublist("Thermal Mass"); b.set<bool>("Temperature Dependent", true); PL& b1 = b.sublist("Mass Density"); b1.set<double>("c0", m(3)); b1.set<double>("c1", m(4)); b1.set<double>("c2", m(5)); PL& b2 = b.sublist("Specific Heat"); b2.set<double>("c0", m(6)); b2.set<double>("c1", m(7)); b2.set<double>("c2", m(8))
#define ARG DA, const V1& m, const V1& pp, const V2& u, const V2& z, const V3& xa
// cells with the last vertex at the origin, the first on an axis (and in 3D the second in a plane): any cell, up to a rigid motion
template<int D> static V3 placed(const V3& h) { V3 x("x", h.extent(0), D + 1, D); CELLS((int)h.extent(0), for(int k = 0; k < D; ++k) for(int d = 0; d <= k; ++d) x(i, k, d) = h(i, 0, k * (k + 1) / 2 + d)); return x; }
template<int D> static V3 place(const V3& x) { return x; }
template<> V3 place<3>(const V3& h) { return placed<3>(h); }
template<int N, class S> static ScalarMultiVectorT<S> seed2(const V2& v) { ScalarMultiVectorT<S> o("s", v.extent(0), v.extent(1)); CELLS((int)v.extent(0), for(int k = 0; k < N; ++k) o(i, k) = S(N, k, v(i, k))); return o; }
template<int NN, int D, class S> static ScalarArray3DT<S> seed3(const V3& v) { ScalarArray3DT<S> o("s", v.extent(0), v.extent(1), v.extent(2)); CELLS((int)v.extent(0), for(int k = 0; k < NN; ++k) for(int j = 0; j < D; ++j) o(i, k, j) = S(NN * D, k * D + j, v(i, k, j))); return o; }
// a vector function: its value, its derivative with respect to the state and with respect to the control
#define VEC(TAG, C, PHY, D, SETUP) \
HV(h_##TAG, ARG, V2& r) { DD(D); PEN; SETUP; typedef Elliptic::ResidualTypes<PHY> E; C<E, MSIMP> f(s, dmap, pl, pen); f.evaluate(u, z, x, r); } EV \
HV(h_##TAG##U, ARG, V2& r, V3& d) { DD(D); PEN; SETUP; typedef Elliptic::JacobianTypes<PHY> E; typedef E::ResultScalarType S; const int N = PHY::mNumDofsPerCell; C<E, MSIMP> f(s, dmap, pl, pen); auto us = seed2<N, S>(u); ScalarMultiVectorT<S> rs("r", r.extent(0), r.extent(1)); f.evaluate(us, z, x, rs); \
  CELLS((int)r.extent(0), for(int k = 0; k < N; ++k) { r(i, k) = rs(i, k).val(); for(int j = 0; j < N; ++j) d(i, k, j) = rs(i, k).dx(j); }); } EV \
HV(h_##TAG##Z, ARG, V2& r, V3& d) { DX(D); PEN; SETUP; typedef Elliptic::GradientZTypes<PHY> E; typedef E::ResultScalarType S; const int N = PHY::mNumDofsPerCell; C<E, MSIMP> f(s, dmap, pl, pen); auto zs = seed2<D + 1, S>(z); ScalarMultiVectorT<S> rs("r", r.extent(0), r.extent(1)); f.evaluate(u, zs, x, rs); \
  CELLS((int)r.extent(0), for(int k = 0; k < N; ++k) { r(i, k) = rs(i, k).val(); for(int j = 0; j < D + 1; ++j) d(i, k, j) = rs(i, k).dx(j); }); } EV \
HV(h_##TAG##X, ARG, V2& r, V3& d) { DX(D); PEN; SETUP; typedef Elliptic::GradientXTypes<PHY> E; typedef E::ResultScalarType S; const int N = PHY::mNumDofsPerCell; C<E, MSIMP> f(s, dmap, pl, pen); auto xs = seed3<D + 1, D, S>(x); ScalarMultiVectorT<S> rs("r", r.extent(0), r.extent(1)); f.evaluate(u, z, xs, rs); \
  CELLS((int)r.extent(0), for(int k = 0; k < N; ++k) { r(i, k) = rs(i, k).val(); for(int j = 0; j < D * (D + 1); ++j) d(i, k, j) = rs(i, k).dx(j); }); } EV
// a criterion
#define SCA(TAG, C, PHY, D, SETUP) \
HV(h_##TAG, ARG, V1& r) { DD(D); PEN; SETUP; typedef Elliptic::ResidualTypes<PHY> E; C<E, MSIMP> f(s, dmap, pl, pen, fn); f.evaluate(u, z, x, r); } EV \
HV(h_##TAG##U, ARG, V1& r, V2& d) { DD(D); PEN; SETUP; typedef Elliptic::JacobianTypes<PHY> E; typedef E::ResultScalarType S; const int N = PHY::mNumDofsPerCell; C<E, MSIMP> f(s, dmap, pl, pen, fn); auto us = seed2<N, S>(u); ScalarVectorT<S> rs("r", r.extent(0)); f.evaluate(us, z, x, rs); \
  CELLS((int)r.extent(0), r(i) = rs(i).val(); for(int j = 0; j < N; ++j) d(i, j) = rs(i).dx(j)); } EV \
HV(h_##TAG##Z, ARG, V1& r, V2& d) { DX(D); PEN; SETUP; typedef Elliptic::GradientZTypes<PHY> E; typedef E::ResultScalarType S; C<E, MSIMP> f(s, dmap, pl, pen, fn); auto zs = seed2<D + 1, S>(z); ScalarVectorT<S> rs("r", r.extent(0)); f.evaluate(u, zs, x, rs); \
  CELLS((int)r.extent(0), r(i) = rs(i).val(); for(int j = 0; j < D + 1; ++j) d(i, j) = rs(i).dx(j)); } EV \
HV(h_##TAG##X, ARG, V1& r, V2& d) { DX(D); PEN; SETUP; typedef Elliptic::GradientXTypes<PHY> E; typedef E::ResultScalarType S; C<E, MSIMP> f(s, dmap, pl, pen, fn); auto xs = seed3<D + 1, D, S>(x); ScalarVectorT<S> rs("r", r.extent(0)); f.evaluate(u, z, xs, rs); \
  CELLS((int)r.extent(0), r(i) = rs(i).val(); for(int j = 0; j < D * (D + 1); ++j) d(i, j) = rs(i).dx(j)); } EV

// criteria of a transient problem, and those of the geometry alone
#define PAR ARG, const V2& v
#define PVEC(TAG, C, PHY, D, SETUP) \
HV(h_##TAG, PAR, V2& r) { DD(D); PEN; SETUP; typedef Parabolic::ResidualTypes<PHY> E; C<E, MSIMP> f(s, dmap, pl, pen); f.evaluate(u, v, z, x, r, 0.5); } EV \
HV(h_##TAG##U, PAR, V2& r, V3& d) { DD(D); PEN; SETUP; typedef Parabolic::GradientUTypes<PHY> E; typedef E::ResultScalarType S; const int N = PHY::mNumDofsPerCell; C<E, MSIMP> f(s, dmap, pl, pen); auto us = seed2<N, S>(u); ScalarMultiVectorT<S> rs("r", r.extent(0), r.extent(1)); f.evaluate(us, v, z, x, rs, 0.5); \
  CELLS((int)r.extent(0), for(int k = 0; k < N; ++k) { r(i, k) = rs(i, k).val(); for(int j = 0; j < N; ++j) d(i, k, j) = rs(i, k).dx(j); }); } EV \
HV(h_##TAG##V, PAR, V2& r, V3& d) { DD(D); PEN; SETUP; typedef Parabolic::GradientVTypes<PHY> E; typedef E::ResultScalarType S; const int N = PHY::mNumDofsPerCell; C<E, MSIMP> f(s, dmap, pl, pen); auto vs = seed2<N, S>(v); ScalarMultiVectorT<S> rs("r", r.extent(0), r.extent(1)); f.evaluate(u, vs, z, x, rs, 0.5); \
  CELLS((int)r.extent(0), for(int k = 0; k < N; ++k) { r(i, k) = rs(i, k).val(); for(int j = 0; j < N; ++j) d(i, k, j) = rs(i, k).dx(j); }); } EV \
HV(h_##TAG##Z, PAR, V2& r, V3& d) { DX(D); PEN; SETUP; typedef Parabolic::GradientZTypes<PHY> E; typedef E::ResultScalarType S; const int N = PHY::mNumDofsPerCell; C<E, MSIMP> f(s, dmap, pl, pen); auto zs = seed2<D + 1, S>(z); ScalarMultiVectorT<S> rs("r", r.extent(0), r.extent(1)); f.evaluate(u, v, zs, x, rs, 0.5); \
  CELLS((int)r.extent(0), for(int k = 0; k < N; ++k) { r(i, k) = rs(i, k).val(); for(int j = 0; j < D + 1; ++j) d(i, k, j) = rs(i, k).dx(j); }); } EV
#define PSCA(TAG, C, PHY, D, SETUP) \
HV(h_##TAG, PAR, V1& r) { DD(D); PEN; SETUP; typedef Parabolic::ResidualTypes<PHY> E; C<E, MSIMP> f(s, dmap, pl, pen, fn); f.evaluate(u, v, z, x, r, 0.5); } EV \
HV(h_##TAG##U, PAR, V1& r, V2& d) { DD(D); PEN; SETUP; typedef Parabolic::GradientUTypes<PHY> E; typedef E::ResultScalarType S; const int N = PHY::mNumDofsPerCell; C<E, MSIMP> f(s, dmap, pl, pen, fn); auto us = seed2<N, S>(u); ScalarVectorT<S> rs("r", r.extent(0)); f.evaluate(us, v, z, x, rs, 0.5); \
  CELLS((int)r.extent(0), r(i) = rs(i).val(); for(int j = 0; j < N; ++j) d(i, j) = rs(i).dx(j)); } EV \
HV(h_##TAG##Z, PAR, V1& r, V2& d) { DX(D); PEN; SETUP; typedef Parabolic::GradientZTypes<PHY> E; typedef E::ResultScalarType S; C<E, MSIMP> f(s, dmap, pl, pen, fn); auto zs = seed2<D + 1, S>(z); ScalarVectorT<S> rs("r", r.extent(0)); f.evaluate(u, v, zs, x, rs, 0.5); \
  CELLS((int)r.extent(0), r(i) = rs(i).val(); for(int j = 0; j < D + 1; ++j) d(i, j) = rs(i).dx(j)); } EV
#define GSCA(TAG, C, PHY, D, SETUP) \
HV(h_##TAG, ARG, V1& r) { DD(D); PEN; SETUP; typedef Geometric::ResidualTypes<PHY> E; C<E, MSIMP> f(s, dmap, pl, pen, fn); f.evaluate(z, x, r); } EV \
HV(h_##TAG##Z, ARG, V1& r, V2& d) { DX(D); PEN; SETUP; typedef Geometric::GradientZTypes<PHY> E; typedef E::ResultScalarType S; C<E, MSIMP> f(s, dmap, pl, pen, fn); auto zs = seed2<D + 1, S>(z); ScalarVectorT<S> rs("r", r.extent(0)); f.evaluate(zs, x, rs); \
  CELLS((int)r.extent(0), r(i) = rs(i).val(); for(int j = 0; j < D + 1; ++j) d(i, j) = rs(i).dx(j)); } EV \
HV(h_##TAG##X, ARG, V1& r, V2& d) { DX(D); PEN; SETUP; typedef Geometric::GradientXTypes<PHY> E; typedef E::ResultScalarType S; C<E, MSIMP> f(s, dmap, pl, pen, fn); auto xs = seed3<D + 1, D, S>(x); ScalarVectorT<S> rs("r", r.extent(0)); f.evaluate(z, xs, rs); \
  CELLS((int)r.extent(0), r(i) = rs(i).val(); for(int j = 0; j < D * (D + 1); ++j) d(i, j) = rs(i).dx(j)); } EV
#define EXPO pl.sublist("Criteria").sublist("f").set<double>("Exponent", m(3))
template<int N> static void assumed(PL& pl, const V1& m) { Teuchos::Array<double> a(N, 0.0); for(int k = 0; k < N; ++k) a[k] = m(3 + k); pl.sublist("Criteria").sublist("f").set("Assumed Strain", a); }
// a homogenisation problem: the unit strain of the given column, for the residual and for the effective energy
#define HOM(D) \
HV(h_hr##D, ARG, int col, V2& r) { DD(D); PEN; CUBIC; pl.sublist("Cell Problem Forcing").set<int>("Column Index", col); typedef Elliptic::ResidualTypes<SimplexMechanics<D>> E; Elliptic::ElastostaticResidual<E, MSIMP> f(s, dmap, pl, pen); f.evaluate(u, z, x, r); } EV \
HV(h_he##D, ARG, int col, V1& r) { DD(D); PEN; CUBIC; pl.sublist("Cell Problem Forcing").set<int>("Column Index", col); assumed<SimplexMechanics<D>::mNumVoigtTerms>(pl, m); typedef Elliptic::ResidualTypes<SimplexMechanics<D>> E; Elliptic::EffectiveEnergy<E, MSIMP> f(s, dmap, pl, pen, fn); f.evaluate(u, z, x, r); } EV \
HV(h_he##D##U, ARG, int col, V1& r, V2& d) { DD(D); PEN; CUBIC; pl.sublist("Cell Problem Forcing").set<int>("Column Index", col); assumed<SimplexMechanics<D>::mNumVoigtTerms>(pl, m); typedef Elliptic::JacobianTypes<SimplexMechanics<D>> E; typedef E::ResultScalarType S; const int N = D * (D + 1); Elliptic::EffectiveEnergy<E, MSIMP> f(s, dmap, pl, pen, fn); auto us = seed2<N, S>(u); ScalarVectorT<S> rs("r", r.extent(0)); f.evaluate(us, z, x, rs); \
  CELLS((int)r.extent(0), r(i) = rs(i).val(); for(int j = 0; j < N; ++j) d(i, j) = rs(i).dx(j)); } EV
// body loads inside a residual: the mesh matters
#define BODY(TAG, C, PHY, D, SETUP) \
HV(h_##TAG, int ne, int nv, const I1& conn, const V1& xx, const I1& cells, const V1& m, const V1& pp, const V2& u, const V2& z, const V3& x, const V1& k, V2& r) { Domain dm(D, ne, nv, conn, xx, cells); auto s = dm.get(); DataMap dmap; PL pl; PL pen; PL& mat = pl.sublist("Material Models").sublist("mat"); pl.sublist("Elliptic"); PEN; SETUP; \
  double* c = Omega_h::expr_coef(); for(int i = 0; i < 4; ++i) c[i] = k(i); PL& bl = pl.sublist("Body Loads").sublist("L"); bl.set<int>("Index", 0); bl.set<std::string>("Function", "f"); typedef Elliptic::ResidualTypes<PHY> E; C<E, MSIMP> f(s, dmap, pl, pen); f.evaluate(u, z, x, r); } EV
#define ALL(D) \
VEC(th##D, Elliptic::ThermostaticResidual, SimplexThermal<D>, D, CONDUCT) \
VEC(tt##D, Elliptic::ThermostaticResidual, SimplexThermal<D>, D, CONDUCTT) \
VEC(el##D, Elliptic::ElastostaticResidual, SimplexMechanics<D>, D, CUBIC) \
SCA(vo##D, Elliptic::Volume, SimplexMechanics<D>, D, ) \
SCA(ee##D, Elliptic::InternalElasticEnergy, SimplexMechanics<D>, D, CUBIC) \
SCA(te##D, Elliptic::InternalThermalEnergy, SimplexThermal<D>, D, CONDUCT) \
SCA(ts##D, Elliptic::InternalThermalEnergy, SimplexThermal<D>, D, CONDUCTT) \
SCA(fp##D, Elliptic::FluxPNorm, SimplexThermal<D>, D, CONDUCT; EXPO) \
SCA(fs##D, Elliptic::FluxPNorm, SimplexThermal<D>, D, CONDUCTT; EXPO) \
SCA(sp##D, Elliptic::StressPNorm, SimplexMechanics<D>, D, CUBIC; EXPO) \
PVEC(he##D##q, Parabolic::HeatEquationResidual, SimplexThermal<D>, D, CONDUCT; MASS) \
PVEC(ht##D##q, Parabolic::HeatEquationResidual, SimplexThermal<D>, D, CONDUCTT; MASST) \
PSCA(pe##D, Parabolic::InternalThermalEnergy, SimplexThermal<D>, D, CONDUCT) \
PSCA(ps##D, Parabolic::InternalThermalEnergy, SimplexThermal<D>, D, CONDUCTT) \
PSCA(ta##D, Parabolic::TemperatureAverage, SimplexThermal<D>, D, ) \
GSCA(gv##D, Geometric::Volume, SimplexMechanics<D>, D, ) HOM(D)
ALL(1) ALL(2) ALL(3)
BODY(bt2, Elliptic::ThermostaticResidual, SimplexThermal<2>, 2, CONDUCT) BODY(be2, Elliptic::ElastostaticResidual, SimplexMechanics<2>, 2, CUBIC) BODY(be1, Elliptic::ElastostaticResidual, SimplexMechanics<1>, 1, CUBIC)
