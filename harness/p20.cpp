#include "vp.hpp"
#include <map>
#include <string>
#include <iostream>
#include <sstream>
#include <Sacado.hpp>
#include "Simp.hpp"
#include "Ramp.hpp"
#include "Heaviside.hpp"
#include "NoPenalty.hpp"
#include "HeavisideProjection.hpp"
#include "HyperbolicTangentProjection.hpp"
#include "MaterialModel.hpp"
#include "MaterialModel.cpp"
#include "Rank4Voigt.cpp"
#include "IsotropicMaterialUtilities.hpp"
using namespace Plato;
typedef Sacado::Fad::SFad<double, 2> F;
// k: 0 the value, 1 and 2 the derivatives along two directions
static F in(double x, double a, double b) { F z(x); z.fastAccessDx(0) = a; z.fastAccessDx(1) = b; return z; }
static double out(const F& r, int k) { return k == 0 ? r.val() : r.fastAccessDx(k - 1); }
HR(h_simp, double p, double m, double x, double a, double b, int k) { MSIMP f(p, m); F z = in(x, a, b); F r = f(z); return out(r, k); } ER
HR(h_ramp, double x, double a, double b, int k) { RAMP f; F z = in(x, a, b); F r = f(z); return out(r, k); } ER
HR(h_heav, double p, double l, double m, double x, double a, double b, int k) { Heaviside f(p, l, m); F z = in(x, a, b); F r = f(z); return out(r, k); } ER
HR(h_nopen, double x, double a, double b, int k) { NoPenalty f; F z = in(x, a, b); F r = f(z); return out(r, k); } ER
HR(h_hproj, double t, double x, double a, double b, int k) { HeavisideProjection f(t); F z = in(x, a, b); F r = f.apply(z); return out(r, k); } ER
HR(h_tproj, double t, double e, double x, double a, double b, int k) { HyperbolicTangentProjection f(t, e); F z = in(x, a, b); F r = f.apply(z); return out(r, k); } ER
HR(h_scf, double c0, double c1, double c2, double x, double a, double b, int k)
{ Teuchos::ParameterList l; l.set("c0", c0); l.set("c1", c1); l.set("c2", c2); ScalarFunctor f(l); F z = in(x, a, b); F r = f(z); return out(r, k); } ER
#define TF(name, CLS) \
HR(name, double c0, double c1, double c2, double x, double a, double b, int k) \
{ Teuchos::ParameterList l; l.set("c012", c0); l.set("c112", c1); l.set("c212", c2); l.set("c011", 1.0); l.set("c022", 1.0); l.set("c033", 1.0); CLS<2> f(l); F z = in(x, a, b); F r = f(z, 1, 0); return out(r, k); } ER
TF(h_tf, TensorFunctor)
TF(h_rf, Rank4VoigtFunctor)
// every way of giving a law its parameters
HR(h_simp2, int how, double p, double m, double x, double a, double b, int k) { Teuchos::ParameterList l; l.set("Exponent", p); l.set("Minimum Value", m); std::map<std::string, double> q; q["Exponent"] = p; q["Minimum Value"] = m; \
  MSIMP f(1.0, 0.0); if(how == 0) f = MSIMP(l); else if(how == 1) f.setParameters(q); else { f.setPenalty(p); f.setMinimumErsatzMaterial(m); } F z = in(x, a, b); F r = f(z); return out(r, k); } ER
HR(h_ramp2, int how, double p, double m, double x, double a, double b, int k) { Teuchos::ParameterList l; l.set("Exponent", p); l.set("Minimum Value", m); std::map<std::string, double> q; q["Exponent"] = p; q["Minimum Value"] = m; \
  RAMP f; if(how == 0) f = RAMP(l); else f.setParameters(q); F z = in(x, a, b); F r = f(z); return out(r, k); } ER
HR(h_heav2, int how, double p, double l, double m, double x, double a, double b, int k) { Teuchos::ParameterList q; q.set("Exponent", p); q.set("Regularization Length", l); q.set("Minimum Value", m); std::map<std::string, double> u; u["Exponent"] = p; u["Regularization Length"] = l; u["Minimum Value"] = m; \
  Heaviside f; if(how == 0) f = Heaviside(q); else f.setParameters(u); F z = in(x, a, b); F r = f(z); return out(r, k); } ER
HR(h_hproj2, double t, double x, double a, double b, int k) { HeavisideProjection f; f.setCurvatureParameterBeta(t); F z = in(x, a, b); F r = f.apply(z); return out(r, k); } ER
HR(h_tproj2, int how, double t, double e, double x, double a, double b, int k) { HyperbolicTangentProjection f; if(how == 0) f.setProjectionParameters(t, e); else if(how == 1) { f.setCurvatureParameterBeta(t); f.setTresholdLevelParameterEta(e); } else { Teuchos::ParameterList l; l.set("Beta", t); l.set("Eta", e); f = HyperbolicTangentProjection(l); } F z = in(x, a, b); F r = f.apply(z); return out(r, k); } ER
HR(h_tproj3, double t, double e, double x, double a, double b, int k) { HyperbolicTangentProjection f; f.setTresholdLevelParameterEta(e); f.setCurvatureParameterBeta(t); F z = in(x, a, b); F r = f.apply(z); return out(r, k); } ER
HR(h_heav0, double x, double a, double b, int k) { Heaviside f; F z = in(x, a, b); F r = f(z); return out(r, k); } ER
HR(h_scf0, double c0, double x, double a, double b, int k) { ScalarFunctor f(c0); F z = in(x, a, b); F r = f(z); return out(r, k); } ER
HR(h_scf1, double c0, double x, double a, double b, int k) { Teuchos::ParameterList l; l.set("c0", c0); ScalarFunctor f(l); F z = in(x, a, b); F r = f(z); return out(r, k); } ER
HR(h_tf0, int i, int j, double x, double a, double b, int k) { TensorFunctor<3> f; F z = in(x, a, b); F r = f(z, i, j); return out(r, k); } ER
HR(h_tf1, double c0, int i, int j, double x, double a, double b, int k) { TensorFunctor<3> f(c0); F z = in(x, a, b); F r = f(z, i, j); return out(r, k); } ER
HR(h_tf2, double c0, double c1, double c2, int i, int j, double x, double a, double b, int k) { Teuchos::ParameterList l; l.set("c011", c0); l.set("c111", c1); l.set("c211", c2); TensorFunctor<3> f(l); F z = in(x, a, b); F r = f(z, i, j); return out(r, k); } ER
HR(h_tc0, int i, int j) { TensorConstant<3> f; return f(i, j); } ER
HR(h_tc1, double c0, int i, int j) { TensorConstant<3> f(c0); return f(i, j); } ER
HR(h_rf0, int i, int j, double x, double a, double b, int k) { Rank4VoigtFunctor<3> f; F z = in(x, a, b); F r = f(z, i, j); return out(r, k); } ER
HR(h_rc0, int i, int j) { Rank4VoigtConstant<3> f; return f(i, j); } ER
