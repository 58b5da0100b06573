#include "vp.hpp"
#include "Plato_Cylinder.hpp"
#include "Plato_AlgebraicRocketModel.hpp"
#include "Plato_RocketMocks.hpp"
using namespace Plato;
static ProblemParams par(double L, double R, double b, double rho) {
  ProblemParams p; p.mPropellantDensity = rho; p.mGeometry.push_back(0.0); p.mGeometry.push_back(L); p.mGeometry.push_back(R); p.mRefBurnRate.push_back(b); p.mRefBurnRate.push_back(0.0); return p;
}
HV(h_cyl, double L, double R, double b, double rho, double dt, double m, const V1& o) {
  Cylinder c; c.initialize(par(L, R, b, rho));
  std::vector<double> g(2); c.gradient(g);
  double x[11] = {c.radius(), c.length(), c.area(), c.referenceMassProductionRate(), g[0], g[1], 0, 0, 0, 0, 0};
  c.evolveGeometry(dt, m); x[6] = c.radius(); x[7] = c.length(); x[8] = c.area(); x[9] = c.referenceMassProductionRate();
  c.updateGeometry(par(R, L, rho, b)); x[10] = c.area();
  CELLS(1, for(int k = 0; k < 11; k++) o(k) = x[k]);
} EV
static void give(const std::vector<double>& t, const std::vector<double>& f, const std::vector<double>& p, const V1& o) {
  int n = t.size(); CELLS(1, for(int k = 0; k < n; k++) { o(1 + 3 * k) = t[k]; o(2 + 3 * k) = f[k]; o(3 + 3 * k) = p[k]; } o(0) = n + 0.0 * f.size());
}
HV(h_rocket, double L, double R, double b, double rho, double al, double dt, double pr, double tot, double dia, double tol, double amb, double cs, int mx, int again, const V1& o) {
  AlgebraicRocketInputs in; in.mAlpha = al; in.mDeltaTime = dt; in.mRefPressure = pr; in.mTotalBurnTime = tot; in.mThroatDiameter = dia; in.mNewtonTolerance = tol; in.mAmbientPressure = amb; in.mCharacteristicVelocity = cs; in.mMaxNumNewtonItr = mx;
  std::shared_ptr<Cylinder> g = std::make_shared<Cylinder>();
  AlgebraicRocketModel m(in, g); m.disableOutput();
  ProblemParams p = par(L, R, b, rho);
  for(int k = 0; k <= again; k++) { m.initialize(p); m.solve(); }
  give(m.getTimeProfile(), m.getThrustProfile(), m.getPressuresProfile(), o);
} EV
HV(h_rocket_set, double L, double R, double b, double rho, double al, double dt, double pr, double tot, double dia, double tol, double amb, double cs, int mx, const V1& o) {
  AlgebraicRocketInputs in; in.mNewtonTolerance = tol;
  std::shared_ptr<Cylinder> g = std::make_shared<Cylinder>();
  AlgebraicRocketModel m(in, g); m.disableOutput(); m.setMaxNumIterations(mx); m.setRefPressure(pr); m.setBurnRateExponent(al); m.setThroatDiameter(dia); m.setCharacteristicVelocity(cs); m.setAmbientPressure(amb); m.setBurnTimeStep(dt); m.setTotalBurnTime(tot);
  ProblemParams p = par(L, R, b, rho); m.initialize(p); m.solve();
  give(m.getTimeProfile(), m.getThrustProfile(), m.getPressuresProfile(), o);
} EV
