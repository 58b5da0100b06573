#include "vp.hpp"
#include "PlatoMathHelpers.hpp"
#include "ApplyConstraints.hpp"
using namespace Plato;
typedef Plato::CrsMatrixType CM;
#define MK(N) Teuchos::rcp(new CM(r, c, e, n, n, N, N))
HV(h_con1, const I1& r, const I1& c, const V1& e, int n, const V1& f, const I1& d, const V1& v, double s) { applyConstraints<1>(MK(1), f, d, v, s); } EV
HV(h_cond, const I1& r, const I1& c, const V1& e, int n, const V1& f, const I1& d, const V1& v) { applyConstraints<1>(MK(1), f, d, v); } EV
HV(h_con3, const I1& r, const I1& c, const V1& e, int n, const V1& f, const I1& d, const V1& v, double s) { applyConstraints<3>(MK(1), f, d, v, s); } EV
#define BLK(N) HV(h_blk##N, const I1& r, const I1& c, const V1& e, int n, const V1& f, const I1& d, const V1& v, double s) { applyBlockConstraints<N>(MK(N), f, d, v, s); } EV
BLK(1) BLK(2) BLK(3)
HV(h_blkd, const I1& r, const I1& c, const V1& e, int n, const V1& f, const I1& d, const V1& v) { applyBlockConstraints<2>(MK(2), f, d, v); } EV
