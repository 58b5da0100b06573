#include "vp.hpp"
#include "BLAS1.hpp"
using namespace Plato;
HR(h_dot, const V1& a, const V1& b) { return blas1::dot(a, b); } ER
HR(h_norm, const V1& a) { return blas1::norm(a); } ER
HV(h_fill, double s, const V1& a) { blas1::fill(s, a); } EV
HV(h_fill_ord, double s, const I1& o, const V1& v, const V1& a) { blas1::fill(s, o, v, a); } EV
HV(h_copy, const V1& a, const V1& b) { blas1::copy(a, b); } EV
HV(h_scale, double s, const V1& a) { blas1::scale(s, a); } EV
HV(h_axpy, double s, const V1& a, const V1& b) { blas1::axpy(s, a, b); } EV
HV(h_update, double s, const V1& a, double t, const V1& b) { blas1::update(s, a, t, b); } EV
HR(h_local_sum, const V1& a) { double r = 0; blas1::local_sum(a, r); return r; } ER
HR(h_max, const V1& a) { double r = 0; blas1::max(a, r); return r; } ER
HR(h_min, const V1& a) { double r = 0; blas1::min(a, r); return r; } ER
HV(h_extract31, const V1& a, V1& b) { blas1::extract<3,1>(a, b); } EV
HV(h_extract42, const V1& a, V1& b) { blas1::extract<4,2>(a, b); } EV
HV(h_extract20, const V1& a, V1& b) { blas1::extract<2,0>(a, b); } EV
HV(h_random, double lo, double hi, V1& a) { blas1::random(lo, hi, a); } EV
