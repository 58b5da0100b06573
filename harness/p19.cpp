#include "vp.hpp"
#include <sstream>
#include <limits>
#include "BLAS1.hpp"
#include "NewtonRaphsonUtilities.hpp"
using namespace Plato;
static NewtonRaphsonOutputData mkd(int it, double cur, double ref, double me) { NewtonRaphsonOutputData d; d.mCurrentIteration = it; d.mCurrentNorm = cur; d.mReferenceNorm = ref; d.mNormMeasure = me; return d; }
HR(h_rel_m, int it, double cur, double ref, double me) { NewtonRaphsonOutputData d = mkd(it, cur, ref, me); compute_relative_residual_norm_error(d); return d.mNormMeasure; } ER
HR(h_rel_r, int it, double cur, double ref, double me) { NewtonRaphsonOutputData d = mkd(it, cur, ref, me); compute_relative_residual_norm_error(d); return d.mReferenceNorm; } ER
HR(h_rel_c, int it, double cur, double ref, double me) { NewtonRaphsonOutputData d = mkd(it, cur, ref, me); compute_relative_residual_norm_error(d); return d.mCurrentNorm; } ER
HR(h_abs_m, int it, double cur, double ref, double me) { NewtonRaphsonOutputData d = mkd(it, cur, ref, me); compute_absolute_residual_norm_error(d); return d.mNormMeasure; } ER
HR(h_abs_r, int it, double cur, double ref, double me) { NewtonRaphsonOutputData d = mkd(it, cur, ref, me); compute_absolute_residual_norm_error(d); return d.mReferenceNorm; } ER
HR(h_abs_c, int it, double cur, double ref, double me) { NewtonRaphsonOutputData d = mkd(it, cur, ref, me); compute_absolute_residual_norm_error(d); return d.mCurrentNorm; } ER
/* three steps of the iteration: what the measure ends at */
HR(h_rel_h, double a, double b, double c) { NewtonRaphsonOutputData d; double v[3] = {a, b, c}; for(int k = 0; k < 3; k++) { d.mCurrentIteration = k; d.mCurrentNorm = v[k]; compute_relative_residual_norm_error(d); } return d.mNormMeasure; } ER
HR(h_abs_h, double a, double b, double c) { NewtonRaphsonOutputData d; double v[3] = {a, b, c}; for(int k = 0; k < 3; k++) { d.mCurrentIteration = k; d.mCurrentNorm = v[k]; compute_absolute_residual_norm_error(d); } return d.mNormMeasure; } ER
HI(h_dflt, int k) { NewtonRaphsonOutputData d; return (int)d.mStopingCriterion * 10 + (int)d.mStoppingMeasure + 100 * d.mCurrentIteration + (d.mNormMeasure == std::numeric_limits<double>::max() && d.mCurrentNorm == d.mNormMeasure && d.mReferenceNorm == d.mNormMeasure ? 0 : 1000); } EI
HI(h_crit, const char* s) { return (int)newton_raphson_stopping_criterion(std::string(s)); } EI
HV(h_closed, int which, bool write, int crit) { NewtonRaphsonOutputData d; d.mWriteOutput = write; d.mStopingCriterion = (NewtonRaphson::stop_t)crit; std::ofstream o; if(which == 0) print_newton_raphson_stop_criterion(d, o); else if(which == 1) print_newton_raphson_diagnostics(d, o); else print_newton_raphson_diagnostics_header(d, o); } EV
