#include "vp.hpp"
#include "Eigenvalues.hpp"
#include "SimplexMechanics.hpp"
#include "TensileEnergyDensity.hpp"
using namespace Plato;
#define N(D) \
HV(h_eig##D, int n, bool s, const V2& t, const V2& o) { Eigenvalues<D> f; CELLS(n, f(i, t, o, s)); } EV \
HV(h_eign##D, int k, int n, bool s, const V2& t, const V2& o) { Eigenvalues<D> f(k); CELLS(n, f(i, t, o, s)); } EV \
HV(h_te##D, int n, const V2& e, double l, double m, const V1& o) { TensileEnergyDensity<D> f; CELLS(n, f(i, e, l, m, o)); } EV
N(1) N(2) N(3)
