// Records what a real Solve() does, iteration by iteration, through the violation callback that the
// solver invokes once per iteration after the step has been taken.
#pragma once
#include "sol.hpp"

namespace rec {
using gen::Spec;
using sol::AlKnot;
using sol::KpData;
using sol::MatrixXd;
using sol::SolverOptions;
using sol::SolverStatus;
using sol::Traj;
using sol::VectorXd;

struct Snap {
  Traj z;
  std::vector<KpData> kp;         // N+1; expansions are those of the trajectory before the step
  double dv0 = 0, dv1 = 0;        // predicted change, summed over knot points
  double reg = 0;                 // regularisation after the iteration
  double stat_cost = 0, stat_alpha = 0, stat_z = 0, stat_reg = 0;   // pending entries
  int it_inner = 0, it_outer = 0, it_total = 0;                     // after this iteration's increment
  double initial_cost = 0;
  double viol = 0;
  std::vector<AlKnot> al;         // empty for iLQR
};
struct Stats {
  double initial_cost = 0;
  int it_inner = 0, it_outer = 0, it_total = 0;
  std::vector<double> cost, alpha, z, grad, dJ, reg, viol, pen;
};
struct Run {
  std::vector<Snap> snaps;
  Traj final;
  SolverStatus status, inner_status;
  Stats st;
  std::vector<AlKnot> al;         // after the solve
  double reg = 0;
};
Stats CopyStats(const altro::SolverStats& s);
Run Record(sol::Solver& s);

// ---- reference quantities from the plain data
double AlTerm(const gen::ConSpec& s, const VectorXd& lambda, double rho, const VectorXd& x, const VectorXd& u);
std::vector<const gen::ConSpec*> Ordered(const Spec& s, int k);   // equalities, then inequalities
// total (augmented) cost; al empty = nominal cost
double RefCost(const Spec& s, const std::vector<VectorXd>& X, const std::vector<VectorXd>& U, const std::vector<AlKnot>& al);
double RefCostScale(const Spec& s, const std::vector<VectorXd>& X, const std::vector<VectorXd>& U, const std::vector<AlKnot>& al);  // sum of magnitudes, for rounding
double RefGradient(const std::vector<KpData>& kp, const std::vector<VectorXd>& U);

// ---- reference line search from trajectory z with the policy in kp
struct Cand {
  double alpha = 0, J = 0, z = 0;
  bool complete = false, accept = false, ambiguous = false;
  int limit = 0;                  // 1 state, 2 control
  bool limit_ambiguous = false;
  std::vector<VectorXd> X, U;
};
struct LineSearch {
  std::vector<Cand> cands;        // up to and including the first clear acceptance
  bool success = false, ambiguous = false;   // ambiguous: some candidate is too close to a threshold
  double J0 = 0, scale = 0;
};
LineSearch RefLineSearch(const Spec& s, const Traj& z, const Snap& after, const std::vector<AlKnot>& al, const SolverOptions& o);

struct RegState {
  double rho = 0, drho = 0;
  void Increase(const SolverOptions& o);
  void Decrease(const SolverOptions& o);
};

// ---- option generators
void RandomSolveOptions(pbt::Ctx& c, SolverOptions* o, bool constrained);
std::string OptStr(const SolverOptions& o);
// Penalties, scalings and starting multipliers of the user's own, one by one (AL solvers only).
struct Multipliers {
  struct One { int k; bool eq; int i; double penalty, scaling; VectorXd lambda; };   // 0 / empty: as constructed
  bool on = false, reset = true;
  std::vector<One> one;
};
Multipliers RandomMultipliers(pbt::Ctx& c, const Spec& s);
void Apply(const Multipliers& m, sol::Solver& s);
// A problem for full solves of mixed difficulty.
Spec RandomSpec(pbt::Ctx& c, gen::Options o, bool constrained);
}  // namespace rec
