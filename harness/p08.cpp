#include "vp.hpp"
#include <map>
#include <string>
#include <iostream>
#include <sstream>
#include "Simp.hpp"
#include "Ramp.hpp"
#include "Heaviside.hpp"
#include "NoPenalty.hpp"
#include "ApplyPenalty.hpp"
#include "ApplyProjection.hpp"
#include "ApplyWeighting.hpp"
#include "HeavisideProjection.hpp"
#include "HyperbolicTangentProjection.hpp"
#include "Plato_TopOptFunctors.hpp"
using namespace Plato;
typedef Teuchos::ParameterList PL;
typedef std::map<std::string, double> MP;
// input lists with every parameter either present or absent
static void fill(PL& l, bool he, double e, bool hm, double m, bool hu, double u, bool ha, double a)
{ if(he) l.set("Exponent", e); if(hm) l.set("Minimum Value", m); if(hu) l.set("Penalty Exponent Upper Bound", u); if(ha) l.set("Additive Continuation", a); }
static void fillm(MP& l, bool he, double e, bool hm, double m, bool ha, double a)
{ if(he) l["Exponent"] = e; if(hm) l["Minimum Value"] = m; if(ha) l["Additive Continuation"] = a; }
HR(h_simp, double p, double m, double x) { MSIMP f(p, m); return f(x); } ER
HR(h_simp_pl, bool he, double e, bool hm, double m, bool hu, double u, bool ha, double a, bool up, double x)
{ PL l; fill(l, he, e, hm, m, hu, u, ha, a); MSIMP f(l); if(up) f.update(); return f(x); } ER
HR(h_simp_map, double p, double q, bool he, double e, bool hm, double m, bool ha, double a, bool up, double x)
{ MP l; fillm(l, he, e, hm, m, ha, a); MSIMP f(p, q); f.setParameters(l); if(up) f.update(); return f(x); } ER
HR(h_simp_set, double p, double m, double e, double n, double a, bool up, double x) { MSIMP f(p, m); f.setPenalty(e); f.setMinimumErsatzMaterial(n); f.setAdditiveContinuationValue(a); if(up) f.update(); return f(x); } ER
HR(h_ramp, double x) { RAMP f; return f(x); } ER
HR(h_ramp_pl, bool he, double e, bool hm, double m, bool hu, double u, bool ha, double a, bool up, double x)
{ PL l; fill(l, he, e, hm, m, hu, u, ha, a); RAMP f(l); if(up) f.update(); return f(x); } ER
HR(h_ramp_map, bool he, double e, bool hm, double m, bool ha, double a, bool up, double x)
{ MP l; fillm(l, he, e, hm, m, ha, a); RAMP f; f.setParameters(l); if(up) f.update(); return f(x); } ER
HR(h_heav, double p, double r, double m, double x) { Heaviside f(p, r, m); return f(x); } ER
HR(h_heav_pl, bool he, double e, bool hr, double r, bool hm, double m, bool hu, double u, bool ha, double a, bool up, double x)
{ PL l; fill(l, he, e, hm, m, hu, u, ha, a); if(hr) l.set("Regularization Length", r); Heaviside f(l); if(up) f.update(); return f(x); } ER
HR(h_heav_map, bool he, double e, bool hr, double r, bool hm, double m, bool ha, double a, bool up, double x)
{ MP l; fillm(l, he, e, hm, m, ha, a); if(hr) l["Regularization Length"] = r; Heaviside f; f.setParameters(l); if(up) f.update(); return f(x); } ER
HR(h_nopen, double x) { NoPenalty f; f.update(); return f(x); } ER
HR(h_hproj, double b, double x) { HeavisideProjection f(b); return f.apply(x); } ER
HR(h_hproj_set, double b, double c, double x) { HeavisideProjection f(b); f.setCurvatureParameterBeta(c); return f.apply(x); } ER
HR(h_tproj, double b, double t, double x) { HyperbolicTangentProjection f(b, t); return f.apply(x); } ER
HR(h_tproj_pl, bool hb, double b, bool ht, double t, double x) { PL l; if(hb) l.set("Beta", b); if(ht) l.set("Eta", t); HyperbolicTangentProjection f(l); return f.apply(x); } ER
HR(h_tproj_setb, double b, double t, double c, double x) { HyperbolicTangentProjection f(b, t); f.setCurvatureParameterBeta(c); return f.apply(x); } ER
HR(h_tproj_sett, double b, double t, double c, double x) { HyperbolicTangentProjection f(b, t); f.setTresholdLevelParameterEta(c); return f.apply(x); } ER
HR(h_tproj_set2, double b, double t, double c, double d, double x) { HyperbolicTangentProjection f(b, t); f.setProjectionParameters(c, d); return f.apply(x); } ER
HV(h_ap2, int n, double p, double m, const V1& x, const V2& o) { MSIMP g(p, m); ApplyPenalty<MSIMP> f(g); CELLS(n, f(i, x(i), o)); } EV
HV(h_ap3, int n, const V1& x, const V3& o) { RAMP g; ApplyPenalty<RAMP> f(g); CELLS(n, f(i, x(i), o)); } EV
HV(h_aproj, int n, double b, const V2& x, const V1& o) { HeavisideProjection g(b); ApplyProjection<HeavisideProjection> f(g); CELLS(n, o(i) = f(i, x)); } EV
#define WGT(D, N) \
HV(h_w2i##D##N, int n, double p, double m, const V2& o, const V2& x) { MSIMP g(p, m); ApplyWeighting<D, N, MSIMP> f(g); CELLS(n, f(i, o, x)); } EV \
HV(h_w2o##D##N, int n, double p, double m, const V2& a, const V2& o, const V2& x) { MSIMP g(p, m); ApplyWeighting<D, N, MSIMP> f(g); CELLS(n, f(i, a, o, x)); } EV \
HV(h_w1i##D##N, int n, double p, double m, const V1& o, const V2& x) { MSIMP g(p, m); ApplyWeighting<D, N, MSIMP> f(g); CELLS(n, f(i, o, x)); } EV \
HV(h_w1o##D##N, int n, double p, double m, const V1& a, const V1& o, const V2& x) { MSIMP g(p, m); ApplyWeighting<D, N, MSIMP> f(g); CELLS(n, auto q = o; f(i, a, q, x)); } EV \
HV(h_wup##D##N, int n, const V1& o, const V2& x) { RAMP g; ApplyWeighting<D, N, RAMP> f(g); f.update(); CELLS(n, f(i, o, x)); } EV
WGT(1, 1) WGT(2, 3) WGT(3, 6)
#define TOF(N) \
HV(h_cm##N, int n, const V1& b, const V2& x, const V1& o) { CELLS(n, o(i) = cell_mass<N>(i, b, x)); } EV \
HV(h_cd##N, int n, const V2& x, const V1& o) { CELLS(n, o(i) = cell_density<N>(i, x)); } EV \
HV(h_pen##N, int n, const V1& p, const V2& o) { CELLS(n, apply_penalty<N>(i, p(i), o)); } EV
TOF(1) TOF(3) TOF(4) TOF(6)
HR(h_heav_0, bool up, double x) { Heaviside f; if(up) f.update(); return f(x); } ER
HR(h_heav_1, double p, double x) { Heaviside f(p); return f(x); } ER
HR(h_heav_2, double p, double r, double x) { Heaviside f(p, r); return f(x); } ER
HR(h_hproj_0, double x) { HeavisideProjection f; return f.apply(x); } ER
HR(h_tproj_0, double x) { HyperbolicTangentProjection f; return f.apply(x); } ER
HR(h_tproj_1, double b, double x) { HyperbolicTangentProjection f(b); return f.apply(x); } ER
