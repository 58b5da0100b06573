#include "mesh.hpp"
#include "SimplexMechanics.hpp"
#include "LinearElasticMaterial.cpp"
#include "IsotropicLinearElasticMaterial.cpp"
#include "CubicLinearElasticMaterial.cpp"
#include "OrthotropicLinearElasticMaterial.cpp"
#include "ExpressionEvaluator.cpp"
#include "CustomMaterial.cpp"
#include "CustomLinearElasticMaterial.cpp"
#include "ElasticModelFactory.hpp"
#include "LinearElectroelasticMaterial.cpp"
#include "LinearThermoelasticMaterial.cpp"
#include "MaterialModel.cpp"
#include "Rank4Voigt.cpp"
#include "IsotropicStiffness.cpp"
#include "ThermoelasticMaterial.hpp"
#include "LinearStress.hpp"
#include "CellForcing.hpp"
#include "HomogenizedStress.hpp"
#include "hyperbolic/InertialContent.hpp"
#include "ComplexLinearStress.hpp"
#include "EMKinetics.hpp"
#include "TMKinetics.hpp"
#include "Kinetics.hpp"
#include "ScalarGrad.hpp"
#include "ScalarProduct.hpp"
using namespace Plato;
typedef Teuchos::ParameterList PL;
static void fill(PL& l, const char* const* nm, int n, const I1& h, const V1& x) { for(int k = 0; k < n; k++) if(h(k) != 0) l.set(nm[k], (double)x(k)); }
#define NF(a) (int)(sizeof(a) / sizeof(a[0]))
// common optional entries, then the entries of the kind
static const char* el1[] = {"e11", "RayleighA", "RayleighB", "Pressure Scaling", "Mass Density", "Youngs Modulus", "Poissons Ratio", "E", "v", "C11", "C12", "C44"};
static const char* el2[] = {"e11", "e22", "e12", "RayleighA", "RayleighB", "Pressure Scaling", "Mass Density", "Youngs Modulus", "Poissons Ratio", "E", "v", "C11", "C12", "C44",
                            "Youngs Modulus X", "Youngs Modulus Y", "Shear Modulus XY", "Poissons Ratio XY"};
static const char* el3[] = {"e11", "e22", "e33", "e23", "e13", "e12", "RayleighA", "RayleighB", "Pressure Scaling", "Mass Density", "Youngs Modulus", "Poissons Ratio", "E", "v", "C11", "C12", "C44",
                            "Youngs Modulus X", "Youngs Modulus Y", "Youngs Modulus Z", "Shear Modulus XY", "Shear Modulus XZ", "Shear Modulus YZ", "Poissons Ratio XY", "Poissons Ratio XZ", "Poissons Ratio YZ"};
template<int D, int V> static void dump(const LinearElasticMaterial<D>& m, const V1& o) { auto c = m.getStiffnessMatrix(); auto e = m.getReferenceStrain();
  CELLS(1, for(int a = 0; a < V; a++) for(int b = 0; b < V; b++) o(a * V + b) = c(a, b); for(int a = 0; a < V; a++) o(V * V + a) = e(a));
  o(V * V + V) = m.getMassDensity(); o(V * V + V + 1) = m.getPressureScaling(); o(V * V + V + 2) = m.getRayleighA(); o(V * V + V + 3) = m.getRayleighB(); }
static const char* em[] = {"Alpha", "Youngs Modulus", "Poissons Ratio", "e15", "e31", "e33", "p11", "p33"};
static const char* tl[] = {"Reference Temperature", "Mass Density", "Specific Heat", "Temperature Scaling", "Pressure Scaling", "Youngs Modulus", "Poissons Ratio", "Thermal Expansion Coefficient", "Thermal Conductivity Coefficient", "a11", "a22", "a33", "k11", "k22", "k33"};
template<int D, int V> static void dumpt(const LinearThermoelasticMaterial<D>& m, const V1& o) { auto c = m.getStiffnessMatrix(); auto a = m.getThermalExpansion(); auto k = m.getThermalConductivity(); int q = 0;
  for(int i = 0; i < V; i++) for(int j = 0; j < V; j++) o(q++) = c(i, j); for(int i = 0; i < D; i++) o(q++) = a(i); for(int i = 0; i < D; i++) for(int j = 0; j < D; j++) o(q++) = k(i, j);
  o(q++) = m.getMassDensity(); o(q++) = m.getSpecificHeat(); o(q++) = m.getReferenceTemperature(); o(q++) = m.getTemperatureScaling(); o(q++) = m.getPressureScaling(); }
template<int D, int V> static void dumpe(const LinearElectroelasticMaterial<D>& m, const V1& o) { auto c = m.getStiffnessMatrix(); auto e = m.getPiezoMatrix(); auto p = m.getPermittivityMatrix(); int q = 0;
  for(int i = 0; i < V; i++) for(int j = 0; j < V; j++) o(q++) = c(i, j); for(int i = 0; i < D; i++) for(int j = 0; j < V; j++) o(q++) = e(i, j); for(int i = 0; i < D; i++) for(int j = 0; j < D; j++) o(q++) = p(i, j); o(q++) = m.getAlpha(); }
template<int D, int V> static Omega_h::Matrix<V, V> mat(const V1& s) { Omega_h::Matrix<V, V> c; for(int i = 0; i < V; i++) for(int j = 0; j < V; j++) c(i, j) = s(i * V + j); return c; }
// a model with arbitrary constants, to drive the element laws
template<int D, int V> struct AnyElastic : public LinearElasticMaterial<D> { AnyElastic(const V1& s) : LinearElasticMaterial<D>() { int q = 0; for(int i = 0; i < V; i++) for(int j = 0; j < V; j++) this->mCellStiffness(i, j) = s(q++);
  for(int i = 0; i < V; i++) this->mReferenceStrain(i) = s(q++); this->mCellDensity = s(q++); this->mPressureScaling = s(q++); this->mRayleighA = s(q++); this->mRayleighB = s(q++); } };
template<int D, int V> struct AnyElectro : public LinearElectroelasticMaterial<D> { AnyElectro(const V1& s) : LinearElectroelasticMaterial<D>() { int q = 0; for(int i = 0; i < V; i++) for(int j = 0; j < V; j++) this->mCellStiffness(i, j) = s(q++);
  for(int i = 0; i < D; i++) for(int j = 0; j < V; j++) this->mCellPiezoelectricCoupling(i, j) = s(q++); for(int i = 0; i < D; i++) for(int j = 0; j < D; j++) this->mCellPermittivity(i, j) = s(q++); this->mAlpha = s(q++); } };
static PL reft() { PL l; l.set("Reference Temperature", 0.0); return l; }
template<int D, int V> struct AnyThermo : public LinearThermoelasticMaterial<D> { AnyThermo(const V1& s) : LinearThermoelasticMaterial<D>(reft()) { int q = 0; for(int i = 0; i < V; i++) for(int j = 0; j < V; j++) this->mCellStiffness(i, j) = s(q++);
  for(int i = 0; i < D; i++) this->mCellThermalExpansionCoef(i) = s(q++); for(int i = 0; i < D; i++) for(int j = 0; j < D; j++) this->mCellThermalConductivity(i, j) = s(q++);
  this->mCellDensity = s(q++); this->mCellSpecificHeat = s(q++); this->mCellReferenceTemperature = s(q++); this->mTemperatureScaling = s(q++); this->mPressureScaling = s(q++); } };
static const char* tc1[] = {"c11"};
static const char* tc2[] = {"c11", "c22", "c12"};
static const char* tc3[] = {"c11", "c22", "c12", "c33", "c13", "c23"};
static const char* rc1[] = {"c11"};
static const char* rc2[] = {"c11", "c22", "c12", "c33"};
static const char* rc3[] = {"c11", "c22", "c12", "c33", "c13", "c23", "c44", "c55", "c66"};
template<int N> static void put(PL& l, const char* const* nm, const V1& x) { for(int k = 0; k < N; k++) l.set(nm[k], (double)x(k)); }
static void putc(PL& l, const std::string& a, double v0, double v1, double v2) { l.set("c0" + a, v0); l.set("c1" + a, v1); l.set("c2" + a, v2); }

#define MATS(D, V) \
HV(h_iso##D, const I1& h, const V1& x, V1& o) { PL l; fill(l, el##D, NF(el##D), h, x); IsotropicLinearElasticMaterial<D> m(l); dump<D, V>(m, o); } EV \
HV(h_isov##D, double E, double v, V1& o) { IsotropicLinearElasticMaterial<D> m(E, v); dump<D, V>(m, o); } EV \
HV(h_cub##D, const I1& h, const V1& x, V1& o) { PL l; fill(l, el##D, NF(el##D), h, x); CubicLinearElasticMaterial<D> m(l); dump<D, V>(m, o); } EV \
HV(h_ort##D, const I1& h, const V1& x, V1& o) { PL l; fill(l, el##D, NF(el##D), h, x); OrthotropicLinearElasticMaterial<D> m(l); dump<D, V>(m, o); } EV \
HV(h_cus##D, const I1& h, const V1& x, V1& o) { PL l; fill(l, el##D, NF(el##D), h, x); l.set<std::string>("Equation", "E*v"); CustomLinearElasticMaterial<D> m(l); dump<D, V>(m, o); } EV \
HV(h_fac##D, const char* kind, const I1& h, const V1& x, V1& o) { PL l; fill(l.sublist("Material Models").sublist("steel").sublist(kind), el##D, NF(el##D), h, x); ElasticModelFactory<D> f(l); auto m = f.create("steel"); dump<D, V>(*m, o); } EV \
HI(h_fno##D, int kind) { PL l; if(kind > 0) l.sublist("Material Models"); if(kind > 1) l.sublist("Material Models").sublist("steel"); ElasticModelFactory<D> f(l); auto m = f.create("steel"); return m.get() == nullptr; } EI \
HV(h_emm##D, const I1& h, const V1& x, V1& o) { PL l; fill(l, em, NF(em), h, x); IsotropicLinearElectroelasticMaterial<D> m(l); dumpe<D, V>(m, o); } EV \
HV(h_emf##D, const I1& h, const V1& x, V1& o) { PL l; fill(l.sublist("Material Models").sublist("pzt").sublist("Isotropic Linear Electroelastic"), em, NF(em), h, x); ElectroelasticModelFactory<D> f(l); auto m = f.create("pzt"); dumpe<D, V>(*m, o); } EV \
HI(h_emn##D, int kind) { PL l; if(kind > 0) l.sublist("Material Models"); if(kind > 1) l.sublist("Material Models").sublist("steel"); ElectroelasticModelFactory<D> f(l); auto m = f.create("steel"); return m.get() == nullptr; } EI \
HV(h_tmi##D, const I1& h, const V1& x, V1& o) { PL l; fill(l, tl, NF(tl), h, x); IsotropicLinearThermoelasticMaterial<D> m(l); dumpt<D, V>(m, o); } EV \
HV(h_tmc##D, const I1& h, const V1& x, V1& o) { PL l; fill(l, tl, NF(tl), h, x); CubicLinearThermoelasticMaterial<D> m(l); dumpt<D, V>(m, o); } EV \
HV(h_tmf##D, const char* kind, const I1& h, const V1& x, V1& o) { PL l; fill(l.sublist("Material Models").sublist("hot").sublist(kind), tl, NF(tl), h, x); LinearThermoelasticModelFactory<D> f(l); auto m = f.create("hot"); dumpt<D, V>(*m, o); } EV \
HI(h_tmn##D, int kind) { PL l; if(kind > 0) l.sublist("Material Models"); if(kind > 1) l.sublist("Material Models").sublist("steel"); LinearThermoelasticModelFactory<D> f(l); auto m = f.create("steel"); return m.get() == nullptr; } EI \
HI(h_ten##D, int kind) { PL l; if(kind > 0) l.sublist("Material Models"); if(kind > 1) l.sublist("Material Models").sublist("steel"); ThermoelasticModelFactory<D> f(l); auto m = f.create("steel"); return m.get() == nullptr; } EI
#define LAWS(D, V) \
HV(h_ls##D, const V1& s, V2& t, const V2& e) { auto c = mat<D, V>(s); LinearStress<D> f(c); CELLS((int)t.extent(0), f(i, t, e)); } EV \
HV(h_lm##D, const V1& s, V2& t, const V2& e) { Teuchos::RCP<LinearElasticMaterial<D>> m = Teuchos::rcp(new AnyElastic<D, V>(s)); LinearStress<D> f(m); CELLS((int)t.extent(0), f(i, t, e)); } EV \
HV(h_lv##D, const V1& s, V2& t, const V2& e, const V2& v) { Teuchos::RCP<LinearElasticMaterial<D>> m = Teuchos::rcp(new AnyElastic<D, V>(s)); LinearStress<D> f(m); CELLS((int)t.extent(0), f(i, t, e, v)); } EV \
HV(h_cf##D, const V1& s, int k, V2& t) { auto c = mat<D, V>(s); CellForcing<V> f(c, k); f.add(t); } EV \
HV(h_hs##D, const V1& s, int k, V2& t, const V2& e) { auto c = mat<D, V>(s); HomogenizedStress<D> f(c, k); CELLS((int)t.extent(0), f(i, t, e)); } EV \
HV(h_cs##D, const V1& s, const V3& e, V3& t) { auto c = mat<D, V>(s); ComplexLinearStress<D, V> f(c); CELLS((int)t.extent(0), f(i, e, t)); } EV \
HV(h_in##D, const V1& s, V2& t, const V2& a) { Teuchos::RCP<LinearElasticMaterial<D>> m = Teuchos::rcp(new AnyElastic<D, V>(s)); InertialContent<D> f(m); CELLS((int)t.extent(0), f(i, t, a)); } EV \
HV(h_iv##D, const V1& s, V2& t, const V2& v, const V2& a) { Teuchos::RCP<LinearElasticMaterial<D>> m = Teuchos::rcp(new AnyElastic<D, V>(s)); InertialContent<D> f(m); CELLS((int)t.extent(0), f(i, t, v, a)); } EV \
HV(h_ek##D, const V1& s, V2& t, V2& d, const V2& e, const V2& g) { Teuchos::RCP<LinearElectroelasticMaterial<D>> m = Teuchos::rcp(new AnyElectro<D, V>(s)); EMKinetics<D> f(m); CELLS((int)t.extent(0), f(i, t, d, e, g)); } EV \
HV(h_sg##D, V2& o, const V2& x, const V3& g) { ScalarGrad<D> f; CELLS((int)o.extent(0), f(i, o, x, g)); } EV \
HV(h_sn##D, int k, int off, const V2& x, const V3& g, V2& o) { ScalarGrad<D> f; CELLS((int)o.extent(0), f(i, k, off, x, g, o)); } EV \
HV(h_sv##D, V2& o, const V2& x, const V1& g) { ScalarGrad<D> f; CELLS((int)o.extent(0), Omega_h::Vector<D> q[D + 1]; for(int a = 0; a <= D; ++a) for(int b = 0; b < D; ++b) q[a](b) = g(a * D + b); f(i, o, x, q)); } EV \
HV(h_sp##D, V1& o, const V2& a, const V2& b, const V1& w, double s) { ScalarProduct<V> f; CELLS((int)o.extent(0), f(i, o, a, b, w, s)); } EV \
HV(h_s1##D, V1& o, const V2& a, const V2& b, const V1& w) { ScalarProduct<V> f; CELLS((int)o.extent(0), f(i, o, a, b, w)); } EV \
HV(h_sc##D, V1& o, const V2& a, const V1& b, const V1& w, double s) { ScalarProduct<V> f; CELLS((int)o.extent(0), Omega_h::Vector<V> q; for(int k = 0; k < V; ++k) q(k) = b(k); f(i, o, a, q, w, s)); } EV \
HV(h_tk##D, const V1& cs, const V1& al, const V1& kc, bool hr, double tr, bool hs, double sc, V2& t, V2& q, const V2& e, const V2& g, const V1& T) { PL l; put<NF(rc##D)>(l.sublist("Elastic Stiffness"), rc##D, cs); \
  put<NF(tc##D)>(l.sublist("Thermal Expansivity"), tc##D, al); put<NF(tc##D)>(l.sublist("Thermal Conductivity"), tc##D, kc); if(hr) l.set("Reference Temperature", tr); if(hs) l.set("Temperature Scaling", sc); \
  Teuchos::RCP<MaterialModel<D>> m = Teuchos::rcp(new ThermoelasticMaterial<D>(l)); TMKinetics<D> f(m); CELLS((int)t.extent(0), f(i, t, q, e, g, T)); } EV \
HV(h_ti##D, double E, double v, const V1& al, const V1& kc, double tr, double sc, V2& t, V2& q, const V2& e, const V2& g, const V1& T) { PL l; l.sublist("Elastic Stiffness").set("Youngs Modulus", E); l.sublist("Elastic Stiffness").set("Poissons Ratio", v); \
  put<NF(tc##D)>(l.sublist("Thermal Expansivity"), tc##D, al); put<NF(tc##D)>(l.sublist("Thermal Conductivity"), tc##D, kc); l.set("Reference Temperature", tr); l.set("Temperature Scaling", sc); \
  Teuchos::RCP<MaterialModel<D>> m = Teuchos::rcp(new ThermoelasticMaterial<D>(l)); TMKinetics<D> f(m); CELLS((int)t.extent(0), f(i, t, q, e, g, T)); } EV \
HV(h_tn##D, const V1& E, double v, const V1& al, const V1& kc, double tr, double sc, V2& t, V2& q, const V2& e, const V2& g, const V1& T) { PL l; l.set("Temperature Dependent", true); PL& y = l.sublist("Elastic Stiffness"); y.set("Poissons Ratio", v); putc(y.sublist("Youngs Modulus"), "", E(0), E(1), E(2)); \
  PL& A = l.sublist("Thermal Expansivity"); PL& K = l.sublist("Thermal Conductivity"); for(int d = 0; d < D; ++d) { std::string z = d == 0 ? "11" : (d == 1 ? "22" : "33"); putc(A, z, al(0), al(1), al(2)); putc(K, z, kc(0), kc(1), kc(2)); } \
  l.set("Reference Temperature", tr); l.set("Temperature Scaling", sc); \
  Teuchos::RCP<MaterialModel<D>> m = Teuchos::rcp(new ThermoelasticMaterial<D>(l)); TMKinetics<D> f(m); CELLS((int)t.extent(0), f(i, t, q, e, g, T)); } EV
#define STAB(D, V) \
HV(h_sk##D, const V1& s, const V1& w, const V2& pp, V1& p, const V2& e, const V2& pg, V2& ds, V1& vf, V2& st) { Teuchos::RCP<LinearElasticMaterial<D>> m = Teuchos::rcp(new AnyElastic<D, V>(s)); StabilizedKinetics<D> f(m); CELLS((int)w.extent(0), f(i, w, pp, p, e, pg, ds, vf, st)); } EV \
HV(h_st##D, const V1& s, const V1& w, const V2& pp, V1& p, const V1& T, const V2& e, const V2& pg, const V2& tg, V2& ds, V1& vf, V2& tf, V2& st) { Teuchos::RCP<LinearThermoelasticMaterial<D>> m = Teuchos::rcp(new AnyThermo<D, V>(s)); StabilizedTMKinetics<D> f(m); CELLS((int)w.extent(0), f(i, w, pp, p, T, e, pg, tg, ds, vf, tf, st)); } EV
MATS(1, 1) MATS(2, 3) MATS(3, 6)
LAWS(1, 1) LAWS(2, 3) LAWS(3, 6)
STAB(2, 3) STAB(3, 6)
