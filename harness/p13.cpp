#include "vp.hpp"
#include <sstream>
#include "AnalyzeMacros.hpp"
#include "MaterialModel.cpp"
#include "Rank4Voigt.cpp"
#include "IsotropicStiffness.cpp"
#include "IsotropicMaterialUtilities.hpp"
#include "VoigtMap.hpp"
#include "ThermalConductivityMaterial.hpp"
#include "ThermalMassMaterial.hpp"
#include "ThermoelasticMaterial.hpp"
#include "ThermalFlux.hpp"
#include "ThermalContent.hpp"
using namespace Plato;
typedef Teuchos::ParameterList PL;
static void fill(PL& l, const char* const* nm, int n, const I1& h, const V1& x) { for(int k = 0; k < n; k++) if(h(k) != 0) l.set(nm[k], (double)x(k)); }
static const char* tf1[] = {"c011", "c111", "c211"};
static const char* tf2[] = {"c011", "c111", "c211", "c022", "c122", "c222", "c012", "c112", "c212"};
static const char* tf3[] = {"c011", "c111", "c211", "c022", "c122", "c222", "c012", "c112", "c212", "c033", "c133", "c233", "c013", "c113", "c213", "c023", "c123", "c223"};
static const char* tc1[] = {"c11"};
static const char* tc2[] = {"c11", "c22", "c12"};
static const char* tc3[] = {"c11", "c22", "c12", "c33", "c13", "c23"};
static const char* rf1[] = {"c011", "c111", "c211"};
static const char* rf2[] = {"c011", "c111", "c211", "c022", "c122", "c222", "c012", "c112", "c212", "c033", "c133", "c233"};
static const char* rf3[] = {"c011", "c111", "c211", "c022", "c122", "c222", "c012", "c112", "c212", "c033", "c133", "c233", "c013", "c113", "c213", "c023", "c123", "c223",
                            "c044", "c144", "c244", "c055", "c155", "c255", "c066", "c166", "c266"};
static const char* rc1[] = {"c11"};
static const char* rc2[] = {"c11", "c22", "c12", "c33"};
static const char* rc3[] = {"c11", "c22", "c12", "c33", "c13", "c23", "c44", "c55", "c66"};
static const char* sf[] = {"c0", "c1", "c2"};
static const char* ev[] = {"Youngs Modulus", "Poissons Ratio"};
template<int V, class F> static void all(const F& f, double t, const V1& o) { CELLS(1, for(int a = 0; a < V; a++) for(int b = 0; b < V; b++) o(a * V + b) = f(t, a, b)); }
template<int V, class F> static void allc(const F& f, const V1& o) { CELLS(1, for(int a = 0; a < V; a++) for(int b = 0; b < V; b++) o(a * V + b) = f(a, b)); }
#define NF(a) (int)(sizeof(a) / sizeof(a[0]))
#define N(D, V) \
HV(h_tf##D, const I1& h, const V1& x, double t, const V1& o) { PL l; fill(l, tf##D, NF(tf##D), h, x); TensorFunctor<D> f(l); all<D>(f, t, o); } EV \
HV(h_tfs##D, double v, double t, const V1& o) { TensorFunctor<D> f(v); all<D>(f, t, o); } EV \
HV(h_tcs##D, double v, const V1& o) { TensorConstant<D> f(v); allc<D>(f, o); } EV \
HV(h_tc##D, const I1& h, const V1& x, const V1& o) { PL l; fill(l, tc##D, NF(tc##D), h, x); TensorConstant<D> f(l); allc<D>(f, o); } EV \
HV(h_rf##D, const I1& h, const V1& x, double t, const V1& o) { PL l; fill(l, rf##D, NF(rf##D), h, x); Rank4VoigtFunctor<D> f(l); all<V>(f, t, o); } EV \
HV(h_rc##D, const I1& h, const V1& x, const V1& o) { PL l; fill(l, rc##D, NF(rc##D), h, x); Rank4VoigtConstant<D> f(l); allc<V>(f, o); } EV \
HV(h_if##D, bool hv, double v, const I1& h, const V1& x, double t, const V1& o) { PL l; if(hv) l.set("Poissons Ratio", v); fill(l.sublist("Youngs Modulus"), sf, 3, h, x); IsotropicStiffnessFunctor<D> f(l); all<V>(f, t, o); } EV \
HV(h_ic##D, const I1& h, const V1& x, const V1& o) { PL l; fill(l, ev, 2, h, x); IsotropicStiffnessConstant<D> f(l); allc<V>(f, o); } EV \
HI(h_ty##D, bool h, bool b) { PL l; if(h) l.set("Temperature Dependent", b); MaterialModel<D> m(l); return m.type() == MaterialModelType::Nonlinear ? 1 : 0; } EI \
/* conduction: kind 0 nothing, 1 scalar, 2 full table of constants */ \
HV(h_fl##D, bool dep, bool hs, double v, bool ht, const I1& h, const V1& x, const I1& hf, const V1& xf, const V2& q, const V2& g, const V1& T) { PL l; if(dep) l.set("Temperature Dependent", true); \
  if(hs) l.set("Thermal Conductivity", v); else if(ht) { PL& s = l.sublist("Thermal Conductivity"); fill(s, tc##D, NF(tc##D), h, x); fill(s, tf##D, NF(tf##D), hf, xf); } \
  Teuchos::RCP<MaterialModel<D>> m = Teuchos::rcp(new ThermalConductionModel<D>(l)); ThermalFlux<D> f(m); int n = T.extent(0); CELLS(n, f(i, q, g, T)); } EV \
HV(h_fc##D, double v, const V2& q, const V2& g) { PL l; l.set("Thermal Conductivity", v); \
  Teuchos::RCP<MaterialModel<D>> m = Teuchos::rcp(new ThermalConductionModel<D>(l)); ThermalFlux<D> f(m); int n = q.extent(0); CELLS(n, f(i, q, g)); } EV
N(1, 1) N(2, 3) N(3, 6)
HR(h_sf, const I1& h, const V1& x, double t) { PL l; fill(l, sf, 3, h, x); ScalarFunctor f(l); return f(t); } ER
HR(h_sfc, double v, double t) { ScalarFunctor f(v); return f(t); } ER
HR(h_sfd, double t) { ScalarFunctor f; return f(t); } ER
/* scalar entry of a material: absent, number or table of coefficients */
static void sc(PL& l, const char* n, bool num, double v, bool tab, const I1& h, const V1& x) { if(num) l.set(n, v); else if(tab) fill(l.sublist(n), sf, 3, h, x); }
HV(h_tm, bool dep, bool n1, double v1, bool t1, const I1& h1, const V1& x1, bool n2, double v2, bool t2, const I1& h2, const V1& x2, const V1& o, const V1& r, const V1& T) { PL l; if(dep) l.set("Temperature Dependent", true);
  sc(l, "Mass Density", n1, v1, t1, h1, x1); sc(l, "Specific Heat", n2, v2, t2, h2, x2);
  Teuchos::RCP<MaterialModel<2>> m = Teuchos::rcp(new ThermalMassMaterial<2>(l)); ThermalContent<2> f(m); int n = T.extent(0); CELLS(n, f(i, o, r, T)); } EV
HV(h_tmc, double v1, double v2, const V1& o, const V1& r) { PL l; l.set("Mass Density", v1); l.set("Specific Heat", v2);
  Teuchos::RCP<MaterialModel<2>> m = Teuchos::rcp(new ThermalMassMaterial<2>(l)); ThermalContent<2> f(m); int n = o.extent(0); CELLS(n, f(i, o, r)); } EV
static void mods(PL& l, bool s, bool he, double e, bool hv, double v) { PL& m = l.sublist("Material Model"); if(s) { PL& q = m.sublist("Isotropic Linear Elastic"); if(he) q.set("Youngs Modulus", e); if(hv) q.set("Poissons Ratio", v); } }
HR(h_bulk, bool s, bool he, double e, bool hv, double v) { PL l; mods(l, s, he, e, hv, v); return compute_bulk_modulus(l); } ER
HR(h_shear, bool s, bool he, double e, bool hv, double v) { PL l; mods(l, s, he, e, hv, v); return compute_shear_modulus(l); } ER
HR(h_psc, bool h, double v, double d) { PL l; if(h) l.set("a", v); MaterialModel<2> m; m.parseScalarConstant("a", l, d); return m.getScalarConstant("a"); } ER
HR(h_psr, bool h, double v) { PL l; if(h) l.set("a", v); MaterialModel<2> m; m.parseScalarConstant("a", l); return m.getScalarConstant("a"); } ER
HR(h_gsp, bool s, bool h, double v, double d) { PL l; if(s) { PL& q = l.sublist("S"); if(h) q.set("a", v); } return ParseTools::getSubParam<double>(l, "S", "a", d); } ER
HI(h_gsi, bool s, bool h, int v, int d) { PL l; if(s) { PL& q = l.sublist("S"); if(h) q.set("a", v); } return ParseTools::getSubParam<int>(l, "S", "a", d); } EI
HR(h_gp, bool h, double v, double d) { PL l; if(h) l.set("a", v); return ParseTools::getParam<double>(l, "a", d); } ER
HR(h_gr, bool h, double v) { PL l; if(h) l.set("a", v); return ParseTools::getParam<double>(l, "a"); } ER
HI(h_vi1, int k) { VoigtMap<1> m; return m.I[k]; } EI
HI(h_vj1, int k) { VoigtMap<1> m; return m.J[k]; } EI
HI(h_vi2, int k) { VoigtMap<2> m; return m.I[k]; } EI
HI(h_vj2, int k) { VoigtMap<2> m; return m.J[k]; } EI
HI(h_vi3, int k) { VoigtMap<3> m; return m.I[k]; } EI
HI(h_vj3, int k) { VoigtMap<3> m; return m.J[k]; } EI

/* a thermoelastic material through its factory: stiffness from moduli, expansivity and conductivity as numbers, reference temperature and scaling optional */
#define TE(D, V) \
HI(h_te##D, bool models, bool named, bool te, double E, double nu, double al, double K, bool ht, double t0, bool hs, double sc, const V1& o) { PL l; if(models) { PL& q = l.sublist("Material Models").sublist(named ? "m" : "n"); if(te) { PL& u = q.sublist("Thermoelastic"); \
  PL& st = u.sublist("Elastic Stiffness"); st.set("Youngs Modulus", E); st.set("Poissons Ratio", nu); u.set("Thermal Expansivity", al); u.set("Thermal Conductivity", K); if(ht) u.set("Reference Temperature", t0); if(hs) u.set("Temperature Scaling", sc); } } \
  ThermoelasticModelFactory<D> f(l); auto m = f.create("m"); if(m == Teuchos::null) return 0; \
  allc<V>(m->getRank4VoigtConstant("Elastic Stiffness"), o); auto a = m->getTensorConstant("Thermal Expansivity"); auto k = m->getTensorConstant("Thermal Conductivity"); \
  CELLS(1, for(int i = 0; i < D; i++) for(int j = 0; j < D; j++) { o(V * V + i * D + j) = a(i, j); o(V * V + D * D + i * D + j) = k(i, j); }); \
  o(V * V + 2 * D * D) = m->getScalarConstant("Reference Temperature"); o(V * V + 2 * D * D + 1) = m->getScalarConstant("Temperature Scaling"); return 1; } EI \
HV(h_tf_te##D, double e0, double e1, double e2, double nu, double al, double K, double t, const V1& o) { PL u; u.set("Temperature Dependent", true); PL& y = u.sublist("Elastic Stiffness").sublist("Youngs Modulus"); y.set("c0", e0); y.set("c1", e1); y.set("c2", e2); u.sublist("Elastic Stiffness").set("Poissons Ratio", nu); \
  u.set("Thermal Expansivity", al); u.set("Thermal Conductivity", K); ThermoelasticMaterial<D> m(u); all<V>(m.getRank4VoigtFunctor("Elastic Stiffness"), t, o); auto a = m.getTensorFunctor("Thermal Expansivity"); auto k = m.getTensorFunctor("Thermal Conductivity"); \
  CELLS(1, for(int i = 0; i < D; i++) for(int j = 0; j < D; j++) { o(V * V + i * D + j) = a(t, i, j); o(V * V + D * D + i * D + j) = k(t, i, j); }); } EV
#define TG(D, V) \
HV(h_tg##D, const I1& h, const V1& x, double al, const V1& o) { PL u; fill(u.sublist("Elastic Stiffness"), rc##D, NF(rc##D), h, x); u.set("Thermal Expansivity", al); u.set("Thermal Conductivity", al); ThermoelasticMaterial<D> m(u); allc<V>(m.getRank4VoigtConstant("Elastic Stiffness"), o); } EV \
HV(h_th##D, const I1& h, const V1& x, double al, double t, const V1& o) { PL u; u.set("Temperature Dependent", true); fill(u.sublist("Elastic Stiffness"), rf##D, NF(rf##D), h, x); u.set("Thermal Expansivity", al); u.set("Thermal Conductivity", al); ThermoelasticMaterial<D> m(u); all<V>(m.getRank4VoigtFunctor("Elastic Stiffness"), t, o); } EV
TE(1, 1) TE(2, 3) TE(3, 6) TG(1, 1) TG(2, 3) TG(3, 6)
