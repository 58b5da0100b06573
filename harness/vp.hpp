// Harness support. VP_NATIVE: compiled by g++ and called by the replay driver; otherwise compiled to LLVM IR for the verifier.
#pragma once
#include "PlatoStaticsTypes.hpp"
#ifdef VP_NATIVE
extern "C" int vp_threw;
#define VP_TRY try
#define VP_CATCH(v) catch(...) { vp_threw = 1; return v; }
#define VP_END catch(...) { vp_threw = 1; }
#else
#define VP_TRY
#define VP_CATCH(v)
#define VP_END
#endif
#define HV(name, ...) extern "C" void name(__VA_ARGS__) VP_TRY
#define HR(name, ...) extern "C" double name(__VA_ARGS__) VP_TRY
#define HI(name, ...) extern "C" int name(__VA_ARGS__) VP_TRY
#define HB(name, ...) extern "C" bool name(__VA_ARGS__) VP_TRY
#define EV VP_END
#define ER VP_CATCH(0.0)
#define EI VP_CATCH(0)
#define EB VP_CATCH(false)
using V1 = Plato::ScalarVector;
using V2 = Plato::ScalarMultiVector;
using V3 = Plato::ScalarArray3D;
using I1 = Plato::LocalOrdinalVector;
#define CELLS(n, ...) Kokkos::parallel_for(Kokkos::RangePolicy<>(0, n), LAMBDA_EXPRESSION(const Plato::OrdinalType& i) { __VA_ARGS__; }, "cells")
