#include "vp.hpp"
#include "BLAS2.hpp"
#include "BLAS3.hpp"
using namespace Plato;
HV(h_b2_fill, double s, V2& a) { blas2::fill(s, a); } EV
HV(h_b2_scale, double s, V2& a) { blas2::scale(s, a); } EV
HV(h_b2_update, double s, const V2& a, double t, const V2& b) { blas2::update(s, a, t, b); } EV
HV(h_b2_axpy31, double s, const V2& a, V2& b) { blas2::axpy<3,1>(s, a, b); } EV
HV(h_b2_axpy43, double s, const V2& a, V2& b) { blas2::axpy<4,3>(s, a, b); } EV
HV(h_b2_mtv, const char* t, double s, const V3& a, const V2& x, double b, V2& y) { blas2::matrix_times_vector(t, s, a, x, b, y); } EV
HV(h_b2_extract31, const V2& a, V2& b) { blas2::extract<3,1>(a, b); } EV
HV(h_b2_extract_n, int n, const V2& a, V2& b) { blas2::extract<4,3>(n, a, b); } EV
HV(h_b2_extract_o, int n, const V2& a, V2& b) { blas2::extract<4,2,1>(n, a, b); } EV
HV(h_b3_identity33, int n, V3& a) { blas3::identity<3,3>(n, a); } EV
HV(h_b3_identity23, int n, V3& a) { blas3::identity<2,3>(n, a); } EV
HV(h_b3_fill, int n, double s, V3& a) { blas3::fill<2,3>(n, s, a); } EV
HV(h_b3_update, int n, double s, const V3& a, double t, const V3& b) { blas3::update(n, s, a, t, b); } EV
HV(h_b3_multiply, int n, double s, const V3& a, const V3& b, double t, V3& c) { blas3::multiply(n, s, a, b, t, c); } EV
HV(h_b3_inverse2, int n, V3& a, V3& b) { blas3::inverse<2,2>(n, a, b); } EV
HV(h_b3_inverse3, int n, V3& a, V3& b) { blas3::inverse<3,3>(n, a, b); } EV
