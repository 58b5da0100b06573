#include "vp.hpp"
#include "SimplexMechanics.hpp"
#include "SimplexElectromechanics.hpp"
#include "SimplexPlasticity.hpp"
#include "SimplexProjection.hpp"
#include "SimplexStabilizedMechanics.hpp"
#include "SimplexStructuralDynamics.hpp"
#include "SimplexThermal.hpp"
#include "SimplexThermoPlasticity.hpp"
#include "SimplexThermomechanics.hpp"
#include "SimplexFadTypes.hpp"
using namespace Plato;
template<class T> static int wid() { return std::is_same<T, double>::value ? -1 : (int)Sacado::StaticSize<T>::value; }
template<class S> static void counts(int* x) { x[0] = S::mNumSpatialDims; x[1] = S::mNumNodesPerCell; x[2] = S::mNumDofsPerNode; x[3] = S::mNumDofsPerCell; x[4] = S::mNumControl; x[5] = S::mNumNodeStatePerNode; x[6] = S::mNumLocalDofsPerCell; }
template<class S> static void fads(int* x) { typedef SimplexFadTypes<S> F; x[0] = wid<typename F::StateFad>(); x[1] = wid<typename F::LocalStateFad>(); x[2] = wid<typename F::ControlFad>(); x[3] = wid<typename F::ConfigFad>(); x[4] = wid<typename F::NodeStateFad>(); }
template<class E> static void kind(int* x) {
  x[0] = wid<typename E::StateScalarType>(); x[1] = wid<typename E::PrevStateScalarType>(); x[2] = wid<typename E::LocalStateScalarType>(); x[3] = wid<typename E::PrevLocalStateScalarType>();
  x[4] = wid<typename E::NodeStateScalarType>(); x[5] = wid<typename E::ControlScalarType>(); x[6] = wid<typename E::ConfigScalarType>(); x[7] = wid<typename E::ResultScalarType>();
}
template<class S> static void all(const I1& o) {
  int x[76]; counts<S>(x); fads<S>(x + 7); typedef Evaluation<S> E;
  kind<typename E::Residual>(x + 12); kind<typename E::Jacobian>(x + 20); kind<typename E::JacobianP>(x + 28); kind<typename E::JacobianN>(x + 36);
  kind<typename E::LocalJacobian>(x + 44); kind<typename E::LocalJacobianP>(x + 52); kind<typename E::GradientZ>(x + 60); kind<typename E::GradientX>(x + 68);
  CELLS(1, for(int k = 0; k < 76; k++) o(k) = x[k]);
}
#define L(nm, S) HV(h_lay_##nm, int D, const I1& o) { if(D == 1) all<S<1> >(o); if(D == 2) all<S<2> >(o); if(D == 3) all<S<3> >(o); } EV
L(mech, SimplexMechanics) L(em, SimplexElectromechanics) L(plas, SimplexPlasticity) L(stab, SimplexStabilizedMechanics) L(dyn, SimplexStructuralDynamics) L(th, SimplexThermal)
L(thplas, SimplexThermoPlasticity) L(tm, SimplexThermomechanics) L(stm, SimplexStabilizedThermomechanics)
template<int D> struct Proj : public SimplexProjection<D, D + 1, D, 1> {};
L(proj, Proj)
#define O2(nm, S) HV(h_off_##nm, int D, const I1& o) { int x[5]; if(D == 1) off_##nm<S<1> >(x); if(D == 2) off_##nm<S<2> >(x); if(D == 3) off_##nm<S<3> >(x); CELLS(1, for(int k = 0; k < 5; k++) o(k) = x[k]); } EV
template<class S> static void off_mech(int* x) { x[0] = S::mNumVoigtTerms; x[1] = x[2] = x[3] = x[4] = 0; }
template<class S> static void off_em(int* x) { off_mech<S>(x); }
template<class S> static void off_dyn(int* x) { off_mech<S>(x); x[1] = S::mComplexSpaceDim; }
template<class S> static void off_tm(int* x) { off_mech<S>(x); x[1] = S::mTDofOffset; }
template<class S> static void off_stab(int* x) { off_mech<S>(x); x[1] = S::mPressureDofOffset; x[2] = S::mNumNodeStatePerCell; }
template<class S> static void off_stm(int* x) { off_mech<S>(x); x[1] = S::mPressureDofOffset; x[2] = S::mTDofOffset; x[3] = S::mNumNodeStatePerCell; }
template<class S> static void off_plas(int* x) { x[0] = S::mNumVoigtTerms; x[1] = S::mNumStressTerms; x[2] = S::mDisplacementDofOffset; x[3] = S::mPressureDofOffset; x[4] = S::mTemperatureDofOffset; }
template<class S> static void off_thplas(int* x) { off_plas<S>(x); }
O2(mech, SimplexMechanics) O2(em, SimplexElectromechanics) O2(dyn, SimplexStructuralDynamics) O2(tm, SimplexThermomechanics) O2(stab, SimplexStabilizedMechanics) O2(stm, SimplexStabilizedThermomechanics) O2(plas, SimplexPlasticity) O2(thplas, SimplexThermoPlasticity)
