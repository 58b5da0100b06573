#include "vp.hpp"
#include <sstream>
#include <Teuchos_ParameterList.hpp>
#include "hyperbolic/Newmark.hpp"
#include "parabolic/TrapezoidIntegrator.hpp"
using namespace Plato;
typedef Teuchos::ParameterList PL;
struct ET {};
static PL nm(double g, double b) { PL l; l.set("Newmark Gamma", g); l.set("Newmark Beta", b); return l; }
static PL tz(bool h, double a) { PL l; if(h) l.set("Trapezoid Alpha", a); return l; }
#define COPY auto m = x.extent(0); CELLS(m, o(i) = x(i))
HV(h_nv, double g, double b, double dt, const V1& u, const V1& up, const V1& v, const V1& vp, const V1& a, const V1& ap, const V1& o) { PL l = nm(g, b); NewmarkIntegrator<ET> n(l); V1 x = n.v_value(u, up, v, vp, a, ap, dt); COPY; } EV
HV(h_na, double g, double b, double dt, const V1& u, const V1& up, const V1& v, const V1& vp, const V1& a, const V1& ap, const V1& o) { PL l = nm(g, b); NewmarkIntegrator<ET> n(l); V1 x = n.a_value(u, up, v, vp, a, ap, dt); COPY; } EV
#define G(f) HR(h_n_##f, double g, double b, double dt) { PL l = nm(g, b); NewmarkIntegrator<ET> n(l); return n.f(dt); } ER
G(v_grad_u) G(v_grad_u_prev) G(v_grad_v_prev) G(v_grad_a_prev) G(a_grad_u) G(a_grad_u_prev) G(a_grad_v_prev) G(a_grad_a_prev)
HV(h_tv, bool h, double al, double dt, const V1& u, const V1& up, const V1& v, const V1& vp, const V1& o) { PL l = tz(h, al); Parabolic::TrapezoidIntegrator<ET> n(l); V1 x = n.v_value(u, up, v, vp, dt); COPY; } EV
#define H(f) HR(h_t_##f, bool h, double al, double dt) { PL l = tz(h, al); Parabolic::TrapezoidIntegrator<ET> n(l); return n.f(dt); } ER
H(v_grad_u) H(v_grad_u_prev) H(v_grad_v_prev)
HV(h_nm, bool hg, bool hb, double g) { PL l; if(hg) l.set("Newmark Gamma", g); if(hb) l.set("Newmark Beta", g); NewmarkIntegrator<ET> n(l); } EV
