#include "vp.hpp"
#include "J2PlasticityUtilities.hpp"
#include "ThermoPlasticityUtilities.hpp"
using namespace Plato;
#define K(D) \
HV(h_up##D, int n, double h, const V2& p, const V2& y, const V2& s) { J2PlasticityUtilities<D> f; CELLS(n, f.updatePlasticStrainAndBackstressPlasticStep(i, p, y, h, s)); } EV \
HV(h_ue##D, int n, const V2& p, const V2& s) { J2PlasticityUtilities<D> f; CELLS(n, f.updatePlasticStrainAndBackstressElasticStep(i, p, s)); } EV \
HV(h_yn##D, int n, const V2& d, const V2& s, const V2& y, const V1& m) { J2PlasticityUtilities<D> f; CELLS(n, f.computeDeviatoricStressMinusBackstressNormalized(i, d, s, y, m)); } EV \
HV(h_mi##D, int n, const V2& a, const V2& b, const V2& o) { J2PlasticityUtilities<D> f; CELLS(n, f.computePlasticStrainMisfit(i, a, b, o)); } EV \
HV(h_rp##D, int n, double h, const V2& s, const V2& p, const V2& y, const V2& r) { J2PlasticityUtilities<D> f; CELLS(n, f.fillPlasticStrainTensorResidualPlasticStep(i, s, p, y, r); f.fillBackstressTensorResidualPlasticStep(i, h, s, p, y, r)); } EV \
HV(h_re##D, int n, const V2& s, const V2& p, const V2& r) { J2PlasticityUtilities<D> f; CELLS(n, f.fillPlasticStrainTensorResidualElasticStep(i, s, p, r); f.fillBackstressTensorResidualElasticStep(i, s, p, r)); } EV \
HV(h_ga##D, int n, const V2& s, const V1& o) { J2PlasticityUtilities<D> f; CELLS(n, f.getAccumulatedPlasticStrain(i, s, o)); } EV \
HV(h_gm##D, int n, const V2& s, const V1& o) { J2PlasticityUtilities<D> f; CELLS(n, f.getPlasticMultiplierIncrement(i, s, o)); } EV \
HV(h_gp##D, int n, const V2& s, const V2& o) { J2PlasticityUtilities<D> f; CELLS(n, f.getPlasticStrainTensor(i, s, o)); } EV \
HV(h_gb##D, int n, const V2& s, const V2& o) { J2PlasticityUtilities<D> f; CELLS(n, f.getBackstressTensor(i, s, o)); } EV \
HV(h_ep##D, int n, double a, double t, double c, const V2& u, const V2& s, const V1& b, const V2& e, const V2& o) { ThermoPlasticityUtilities<D, SimplexPlasticity<D>> f(a, t, c); CELLS(n, f.computeElasticStrain(i, u, s, b, e, o)); } EV \
HV(h_et##D, int n, double a, double t, double c, const V2& u, const V2& s, const V1& b, const V2& e, const V2& o) { ThermoPlasticityUtilities<D, SimplexThermoPlasticity<D>> f(a, t, c); CELLS(n, f.computeElasticStrain(i, u, s, b, e, o)); } EV \
/* histories: update, then residual of the updated state */ \
HV(h_cp##D, int n, double h, const V2& d, const V2& p, const V2& y, const V1& m, const V2& s, const V2& r) { J2PlasticityUtilities<D> f; CELLS(n, \
  f.computeDeviatoricStressMinusBackstressNormalized(i, d, p, y, m); f.updatePlasticStrainAndBackstressPlasticStep(i, p, y, h, s); \
  f.fillPlasticStrainTensorResidualPlasticStep(i, s, p, y, r); f.fillBackstressTensorResidualPlasticStep(i, h, s, p, y, r)); } EV \
HV(h_ce##D, int n, const V2& p, const V2& s, const V2& r) { J2PlasticityUtilities<D> f; CELLS(n, f.updatePlasticStrainAndBackstressElasticStep(i, p, s); \
  f.fillPlasticStrainTensorResidualElasticStep(i, s, p, r); f.fillBackstressTensorResidualElasticStep(i, s, p, r)); } EV
K(2) K(3)
