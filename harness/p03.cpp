#include "vp.hpp"
#include "PlatoMathHelpers.hpp"
using namespace Plato;
typedef Plato::CrsMatrixType CM;
#define MAT(p) const I1& p##r, const I1& p##c, const V1& p##e, int p##nr, int p##nc, int p##rb, int p##cb
#define MK(p) Teuchos::rcp(new CM(p##r, p##c, p##e, p##nr, p##nc, p##rb, p##cb))
HV(h_crs_mtv, MAT(a), const V1& x, const V1& y) { auto m = MK(a); Plato::MatrixTimesVectorPlusVector<Plato::Scalar>(m, x, y); } EV
HV(h_crs_rowsum, MAT(a), int n, V1& s) { Plato::RowSum f(MK(a)); Kokkos::parallel_for(Kokkos::RangePolicy<>(0, n), LAMBDA_EXPRESSION(const Plato::OrdinalType& i) { f(i, s); }, "rs"); } EV
HV(h_crs_invw, int n, const V1& s, const V1& r, V1& l, double a) { Plato::InverseWeight<2> f; Kokkos::parallel_for(Kokkos::RangePolicy<>(0, n), LAMBDA_EXPRESSION(const Plato::OrdinalType& i) { f(i, s, r, l, a); }, "iw"); } EV
HV(h_crs_invw1, int n, const V1& s, const V1& r, V1& l, double a) { Plato::InverseWeight<1> f; Kokkos::parallel_for(Kokkos::RangePolicy<>(0, n), LAMBDA_EXPRESSION(const Plato::OrdinalType& i) { f(i, s, r, l, a); }, "iw"); } EV
HV(h_crs_invw3, int n, const V1& s, const V1& r, V1& l, double a) { Plato::InverseWeight<3> f; Kokkos::parallel_for(Kokkos::RangePolicy<>(0, n), LAMBDA_EXPRESSION(const Plato::OrdinalType& i) { f(i, s, r, l, a); }, "iw"); } EV
HV(h_crs_invw23, int n, const V1& s, const V1& r, V1& l, double a) { Plato::InverseWeight<2, 3> f; Kokkos::parallel_for(Kokkos::RangePolicy<>(0, n), LAMBDA_EXPRESSION(const Plato::OrdinalType& i) { f(i, s, r, l, a); }, "iw"); } EV
HV(h_crs_invwd, int n, const V1& s, const V1& r, V1& l) { Plato::InverseWeight<2> f; Kokkos::parallel_for(Kokkos::RangePolicy<>(0, n), LAMBDA_EXPRESSION(const Plato::OrdinalType& i) { f(i, s, r, l); }, "iw"); } EV
HV(h_crs_diaginv, MAT(a), int n, const V1& d) { Plato::DiagonalInverseMultiply f(MK(a)); Kokkos::parallel_for(Kokkos::RangePolicy<>(0, n), LAMBDA_EXPRESSION(const Plato::OrdinalType& i) { f(i, d); }, "di"); } EV
HV(h_crs_rsim, MAT(a), MAT(b)) { auto m = MK(a); auto n = MK(b); Plato::RowSummedInverseMultiply(m, n); } EV
HV(h_crs_nonblock, MAT(a), I1& r, I1& c, V1& e, int stride, int off) { auto m = MK(a); Plato::getDataAsNonBlock(m, r, c, e, stride, off); } EV
HV(h_crs_sort, const I1& r, I1& c, V1& e) { Plato::sortColumnEntries(r, c, e); } EV
HV(h_crs_set, int nr, int nc, int rb, int cb, const I1& r, I1& c, V1& e, I1& r2, I1& c2, V1& e2)
{ auto m = Teuchos::rcp(new CM(nr, nc, rb, cb)); Plato::setDataFromNonBlock(m, r, c, e); r2 = m->rowMap(); c2 = m->columnIndices(); e2 = m->entries(); } EV
HV(h_crs_mm, MAT(a), MAT(b), I1& r2, I1& c2, V1& e2)
{ auto m = MK(a); auto n = MK(b); auto o = Teuchos::rcp(new CM(anr, bnc, arb, bcb)); Plato::MatrixMatrixMultiply(m, n, o); r2 = o->rowMap(); c2 = o->columnIndices(); e2 = o->entries(); } EV
HV(h_crs_mmo, MAT(a), MAT(b), int onr, int onc) { auto m = MK(a); auto n = MK(b); auto o = Teuchos::rcp(new CM(onr, onc, arb, bcb)); Plato::MatrixMatrixMultiply(m, n, o); } EV
HV(h_crs_minus, MAT(a), MAT(b), int off, I1& r2, I1& c2, V1& e2)
{ auto m = MK(a); auto n = MK(b); Plato::MatrixMinusMatrix(m, n, off); r2 = m->rowMap(); c2 = m->columnIndices(); e2 = m->entries(); } EV
HV(h_crs_condense, MAT(a), MAT(b), MAT(c), MAT(d), int off, I1& r2, I1& c2, V1& e2)
{ auto A = MK(a); auto B = MK(b); auto C = MK(c); auto D = MK(d); Plato::Condense(A, B, C, D, off); r2 = A->rowMap(); c2 = A->columnIndices(); e2 = A->entries(); } EV
