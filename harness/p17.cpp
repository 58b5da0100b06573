#include "vp.hpp"
#include <sstream>
#include "SimplexMechanics.hpp"
#include "TensorPNorm.hpp"
#include "VectorPNorm.hpp"
using namespace Plato;
typedef Teuchos::ParameterList PL;
// transformations with generic numeric entries (contracts/p17.py states the same numbers)
static const double MA[6][6] = {{2, 2, 0, 0, 0, 0}, {-2, 3, 0, 0, 0, 0}, {1, 0, 3, 0, 0, 0}, {-1, 0, 0, 3, 0, 0}, {2, 0, 0, 0, 1, 0}, {-1, 0, 0, 0, 0, 2}};
static const double MB[6][6] = {{1, 0, 0, 0, 2, 0}, {0, 1, 0, 0, -2, 0}, {0, 0, 1, 0, 0, -2}, {0, 0, 0, 3, 2, 0}, {0, -2, 0, 0, 1, 0}, {0, 1, 0, 0, 0, 3}};
#define N(L, D) \
typedef ResidualTypes<SimplexMechanics<D>> RT##L; \
HV(h_tp##L, double p, const V1& o, const V2& t, const V2& c, const V1& v) { PL l; l.set("Exponent", p); TensorPNorm<L, RT##L> f(l); f.evaluate(o, t, c, v); } EV \
HV(h_wn##L, double p, bool hr, double r, bool hs, double s, const V1& o, const V2& t, const V2& c, const V1& v) { PL l; l.set("Exponent", p); \
  PL& q = l.sublist("Normalize").sublist("Scalar"); if(hr) q.set("Reference Weight", r); if(hs) q.set("Scalar Product Weight", s); WeightedNorm<L, RT##L> f(l); f.evaluate(o, t, c, v); } EV \
HR(h_po##L, double p, double x) { PL l; l.set("Exponent", p); TensorPNorm<L, RT##L> f(l); f.postEvaluate(x); return x; } ER \
HV(h_pv##L, double p, double x, const V1& o) { PL l; l.set("Exponent", p); TensorPNorm<L, RT##L> f(l); f.postEvaluate(o, x); } EV \
HV(h_vp##L, int n, double p, const V1& o, const V2& t, const V1& v) { VectorPNorm<L> f; CELLS(n, f(i, o, t, p, v)); } EV \
HV(h_nx##L, const V1& o, const V2& t, const V2& c, const V1& v) { PL l; TensorPNorm<L, RT##L> f(l); f.evaluate(o, t, c, v); } EV \
template<class A, class B> static PL barlat##L(double p, bool he, int e, bool hr, double r, A a, B b) { PL l; l.set("Exponent", p); PL& q = l.sublist("Normalize").sublist("Barlat"); l.sublist("Normalize").set("Type", std::string("Barlat")); \
  if(he) q.set("Barlat Exponent", e); if(hr) q.set("Reference Weight", r); const char* nm[] = {"T10", "T11", "T12", "T13", "T14", "T15", "T20", "T21", "T22", "T23", "T24", "T25"}; \
  for(int i = 0; i < 12; i++) { Teuchos::Array<double> x(6); for(int j = 0; j < 6; j++) x[j] = i < 6 ? a(i, j) : b(i - 6, j); q.set(nm[i], x); } return l; } \
HV(h_bn##L, double p, bool he, int e, bool hr, double r, const V2& a, const V2& b, const V1& o, const V2& t, const V2& c, const V1& v) { PL l = barlat##L(p, he, e, hr, r, [&](int i, int j) { return (double)a(i, j); }, [&](int i, int j) { return (double)b(i, j); }); BarlatNorm<L, RT##L> f(l); f.evaluate(o, t, c, v); } EV \
HV(h_fn##L, bool norm, const char* type, double p, double r, double s, const V1& o, const V2& t, const V2& c, const V1& v) { PL l; l.set("Exponent", p); \
  if(norm) { PL& n = l.sublist("Normalize"); n.set("Type", std::string(type)); n.sublist("Scalar").set("Reference Weight", r).set("Scalar Product Weight", s); } TensorNormFactory<L, RT##L> f; auto q = f.create(l); q->evaluate(o, t, c, v); } EV \
HV(h_fb##L, double p, bool he, int e, bool hr, double r, const V1& o, const V2& t, const V2& c, const V1& v) { PL l = barlat##L(p, he, e, hr, r, [](int i, int j) { return MA[i][j]; }, [](int i, int j) { return MB[i][j]; }); TensorNormFactory<L, RT##L> f; auto q = f.create(l); q->evaluate(o, t, c, v); } EV
N(1, 1) N(3, 2) N(6, 3)
