#include "vp.hpp"
#include <sstream>
#include "alg/Basis.cpp"
#include "alg/Cubature.cpp"
#include "LinearTetCubRuleDegreeOne.hpp"
using namespace Plato;
typedef Kokkos::View<Scalar*, MemSpace> W1;
HI(h_nq, int d, int g) { return Cubature::getNumCubaturePoints(d, g); } EI
HV(h_cub, int d, int g, const V2& p, const V1& w) { Cubature::getCubature(d, g, p, w); } EV
HI(h_card, int d) { Basis b(d); return b.basisCardinality(); } EI
HV(h_ref, int d, const V2& p) { Basis b(d); b.getRefCoords(p); } EV
HV(h_val, int d, const V2& p, const V2& o) { Basis b(d); b.getValues(p, o); } EV
HV(h_grad, int d, const V2& p, const V3& o) { Basis b(d); b.getGradientValues(p, o); } EV
#define N(D) \
HR(h_tw##D, int n) { LinearTetCubRuleDegreeOne<D> r; return r.getCubWeight(); } ER \
HI(h_tn##D, int n) { LinearTetCubRuleDegreeOne<D> r; return r.getNumCubPoints(); } EI \
HV(h_tb##D, const V1& o) { LinearTetCubRuleDegreeOne<D> r; auto b = r.getBasisFunctions(); CELLS(D + 1, o(i) = b(i)); } EV \
HV(h_tc##D, const V1& o) { LinearTetCubRuleDegreeOne<D> r; auto b = r.getCubPointsCoords(); CELLS(D, o(i) = b(i)); } EV
N(1) N(2) N(3)
