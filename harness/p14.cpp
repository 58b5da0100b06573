#include "vp.hpp"
#include <sstream>
#include <fstream>
#include <vector>
#include <cmath>
#include <cstring>
#include <cstdio>
#include "AnalyzeMacros.hpp"
#include "PlatoTypes.hpp"
#include <Teuchos_ParameterList.hpp>
#include <iostream>
#include "ExpressionEvaluator.hpp"
#include "ExpressionEvaluator.cpp"
#include "CustomMaterial.cpp"
using namespace Plato;
typedef Teuchos::ParameterList PL;
static void vars(PL& l, double x, double y, double z, double w) { l.set("x", x); l.set("y", y); l.set("z", z); l.set("w_1", w); }
HR(h_expr, const char* s, double x, double y, double z, double w) {
  PL l; vars(l, x, y, z, w);
  ExpressionEvaluator e(l); e.parse_expression(s); if(e.validate_expression() != 0) return 0; return e.evaluate_expression();
} ER
struct CM : public CustomMaterial { CM(const PL& l) : CustomMaterial(l) {} using CustomMaterial::GetCustomExpressionValue; };
HR(h_named, const char* s, const char* name, double x, double y) {
  PL l; l.set(name, x); l.set("y", y);
  ExpressionEvaluator e(l); e.parse_expression(s); if(e.validate_expression() != 0) return 0; return e.evaluate_expression();
} ER
HR(h_twice, const char* s, const char* t, double x, double y, double z, double w) {
  PL l; vars(l, x, y, z, w);
  ExpressionEvaluator e(l); e.parse_expression(s); e.parse_expression(t); if(e.validate_expression() != 0) return 0; return e.evaluate_expression();
} ER
HR(h_custom, const char* s, const char* name, const char* ask, double x, double y, double z, double w) {
  PL l; vars(l, x, y, z, w); l.set<std::string>(name, s);
  CM m(l); if(ask[0] == 0) return m.GetCustomExpressionValue(l); return m.GetCustomExpressionValue(l, std::string(ask));
} ER
#ifdef VP_NATIVE
#include <unistd.h>
struct TmpFile { char n[64]; TmpFile(const char* t) { strcpy(n, "/tmp/vp_bingo_XXXXXX"); int f = mkstemp(n); if(write(f, t, strlen(t)) < 0) n[0] = 0; close(f); } ~TmpFile() { unlink(n); } };
HR(h_bingo, const char* t, int k, double x, double y, double z, double w) {
  TmpFile f(t); PL l; vars(l, x, y, z, w); l.set<std::string>("BingoFile", f.n); if(k >= 0 && k % 2) l.set<int>("BingoEquation", k);
  CM m(l); if(k >= 0 && k % 2 == 0) return m.GetCustomExpressionValue(l, k); return m.GetCustomExpressionValue(l);
} ER
#endif
