// A small MINLP for the demonstrations: same problem as the C++ example, with
// C or Fortran numbering, counters and switches.
#pragma once
#include "BonTMINLP.hpp"
#include "BonBonminSetup.hpp"
#include "BonCbc.hpp"
#include "BonOsiTMINLPInterface.hpp"
#include <cmath>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <unistd.h>
using namespace Ipopt;
using namespace Bonmin;
struct Mini : public TMINLP {
  int base;               // 0: C numbering, 1: Fortran numbering
  int calls; int status; bool gotx; double obj; std::vector<double> sol;
  double ub3;
  Mini(int b = 1) : base(b), calls(0), status(-99), gotx(false), obj(0), ub3(5.) {}
  bool get_variables_types(Index n, VariableType *t) { t[0] = BINARY; t[1] = t[2] = CONTINUOUS; t[3] = INTEGER; return true; }
  bool get_variables_linearity(Index n, TNLP::LinearityType *t) { t[0] = t[3] = TNLP::LINEAR; t[1] = t[2] = TNLP::NON_LINEAR; return true; }
  bool get_constraints_linearity(Index m, TNLP::LinearityType *t) { t[0] = TNLP::NON_LINEAR; t[1] = t[2] = TNLP::LINEAR; return true; }
  bool get_nlp_info(Index &n, Index &m, Index &nj, Index &nh, TNLP::IndexStyleEnum &s) { n = 4; m = 3; nj = 7; nh = 2; s = base ? TNLP::FORTRAN_STYLE : TNLP::C_STYLE; return true; }
  virtual bool get_bounds_info(Index n, Number *l, Number *u, Index m, Number *gl, Number *gu) {
    l[0] = 0; u[0] = 1; l[1] = 0; u[1] = 1e20; l[2] = 0; u[2] = 1e20; l[3] = 0; u[3] = ub3;
    gl[0] = gl[1] = gl[2] = -1e20; gu[0] = .25; gu[1] = 0; gu[2] = 2; return true; }
  bool get_starting_point(Index n, bool ix, Number *x, bool iz, Number *zl, Number *zu, Index m, bool il, Number *lam) { for (int i = 0; i < 4; i++) x[i] = 0; return true; }
  virtual bool eval_f(Index n, const Number *x, bool nx, Number &o) { o = -x[0] - x[1] - x[2]; return true; }
  virtual bool eval_grad_f(Index n, const Number *x, bool nx, Number *g) { g[0] = g[1] = g[2] = -1; g[3] = 0; return true; }
  virtual bool eval_g(Index n, const Number *x, bool nx, Index m, Number *g) { g[0] = (x[1] - .5) * (x[1] - .5) + (x[2] - .5) * (x[2] - .5); g[1] = x[0] - x[1]; g[2] = x[0] + x[2] + x[3]; return true; }
  virtual bool eval_jac_g(Index n, const Number *x, bool nx, Index m, Index nj, Index *r, Index *c, Number *v) {
    static const int R[] = {1, 2, 0, 1, 0, 2, 2}, Cc[] = {0, 0, 1, 1, 2, 2, 3};
    if (!v) { for (int i = 0; i < 7; i++) { r[i] = R[i] + base; c[i] = Cc[i] + base; } return true; }
    v[0] = 1; v[1] = 1; v[2] = 2 * x[1] - 1; v[3] = -1; v[4] = 2 * x[2] - 1; v[5] = 1; v[6] = 1; return true; }
  virtual bool eval_h(Index n, const Number *x, bool nx, Number of, Index m, const Number *lam, bool nl, Index nh, Index *r, Index *c, Number *v) {
    if (!v) { r[0] = c[0] = 1 + base; r[1] = c[1] = 2 + base; return true; }
    v[0] = v[1] = 2 * lam[0]; return true; }
  virtual void finalize_solution(TMINLP::SolverReturn st, Index n, const Number *x, Number o) {
    calls++; status = st; gotx = x != NULL; obj = o; if (x) sol.assign(x, x + n); }
  const SosInfo *sosConstraints() const { return NULL; }
  const BranchingInfo *branchingInfo() const { return NULL; }
};
inline void quiet(BonminSetup &b, const char *opts) {
  b.initializeOptionsAndJournalist();
  b.readOptionsString("bonmin.bb_log_level 0\nbonmin.nlp_log_level 0\nbonmin.lp_log_level 0\nbonmin.milp_log_level 0\nprint_level 0\nsb yes\n");
  b.readOptionsString(opts);
}
