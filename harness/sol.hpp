// Size-erased access to the two solvers.  One translation unit per compile-time size
// (sol_*.cpp) instantiates sol_impl.hpp; harnesses only see this interface, so every check runs on
// run-time-size and fixed-size solvers alike.
#pragma once
#include <functional>
#include <memory>
#include <vector>

#include "altro/common/solver_stats.hpp"
#include "altro/constraints/constraint.hpp"
#include "altro/problem/problem.hpp"
#include "gen.hpp"

namespace sol {
using altro::MatrixXd;
using altro::SolverOptions;
using altro::SolverStats;
using altro::SolverStatus;
using altro::VectorXd;
using gen::Spec;

struct Traj {           // plain copy of a trajectory
  std::vector<VectorXd> X, U;   // N+1, N
  VectorXd uN;                  // control stored at the terminal knot point
  std::vector<float> t, h;
};
struct KpData {
  MatrixXd K, S, xx, xu, uu, Qxx, Qxu, Quu, Quu_reg, A, B;
  VectorXd d, s, gx, gu, Qx, Qu;
  double delta_half = 0, delta_one = 0;
};
struct ConVal {         // one constraint as held by the AL cost of a knot point
  bool eq = true;
  VectorXd lambda, penalty, c, viol;
  double scaling = 0;
};
struct AlKnot {
  std::vector<ConVal> con;      // equalities first, then inequalities
  double max_viol_inf = 0, max_viol_2 = 0, max_viol_1 = 0, max_pen = 0;
  int num_con = 0;
};

class Solver;
using SolverPtr = std::unique_ptr<Solver>;

class Solver {
 public:
  virtual ~Solver() = default;
  // ---- common
  virtual bool IsAL() const = 0;
  virtual SolverStats& Stats() = 0;
  virtual SolverOptions& Opts() = 0;
  virtual SolverStatus Status() const = 0;
  virtual SolverStatus InnerStatus() = 0;
  virtual int NumSegments() const = 0;
  virtual void NewTraj(const Spec& s) = 0;          // SetTrajectory with a fresh trajectory holding the guess
  virtual void ResetTraj(const Spec& s) = 0;        // write the guess into the present trajectory object
  virtual void SetTrajPtr(std::shared_ptr<void> p) = 0;
  virtual std::shared_ptr<void> TrajPtr() = 0;
  virtual void SetU(int k, const VectorXd& u) = 0;
  virtual void SetX(int k, const VectorXd& x) = 0;
  virtual void SetTime(int k, float t, float h) = 0;
  virtual Traj GetTraj() = 0;
  virtual void MakeTrajectory(float dt) = 0;
  virtual void Solve() = 0;
  virtual SolverPtr MoveOut() = 0;                  // move-construct; *this becomes the moved-from object
  virtual void InitializeFromProblem(const altro::problem::Problem& p) = 0;
  // ---- iLQR level (for AL: of the inner solver)
  virtual void SolveSetup() = 0;
  virtual void Rollout() = 0;
  virtual void UpdateExpansions() = 0;
  virtual void BackwardPass() = 0;
  virtual void ForwardPass() = 0;
  virtual bool RolloutClosedLoop(double a) = 0;
  virtual void UpdateConvStats() = 0;
  virtual bool IsDone() = 0;
  virtual double Cost() = 0;
  virtual double CostAt(const Traj& z) = 0;
  virtual VectorXd Costs() = 0;
  virtual double Reg() = 0;
  virtual double NormalizedGain() = 0;
  virtual KpData Kp(int k) = 0;
  virtual double Delta(int k, double a) = 0;
  virtual void SetTasks(const std::vector<int>& v) = 0;
  virtual std::vector<int> Tasks() = 0;
  virtual int NumThreads() = 0;
  virtual int NumTasks() = 0;
  virtual void ExpansionBlock(int a, int b) = 0;
  virtual std::shared_ptr<VectorXd> InitialState() = 0;
  virtual void SetCallback(std::function<double()> f) = 0;
  virtual void CopyFromProblem(const altro::problem::Problem& p, int a, int b) = 0;
  // ---- AL level
  virtual void AlInit() { abort(); }
  virtual void UpdateDuals() { abort(); }
  virtual void UpdatePenalties() { abort(); }
  virtual void AlUpdateConvStats() { abort(); }
  virtual bool AlIsDone() { abort(); }
  virtual void ResetDuals() { abort(); }
  virtual double MaxViolation(int /*p: 0 = inf*/) { abort(); }
  virtual double MaxViolationAt(const Traj&, int) { abort(); }
  virtual double GetMaxViolation(int) { abort(); }
  virtual double GetMaxPenalty() { abort(); }
  virtual void SetPenalty(double) { abort(); }
  virtual void SetPenaltyScaling(double) { abort(); }
  virtual int NumCon(int) { abort(); }
  virtual int NumCon() { abort(); }
  virtual std::vector<altro::constraints::ConstraintInfo> Info(bool) { abort(); }
  virtual void PrintViolations(bool, int) { abort(); }
  virtual AlKnot Al(int) { abort(); }
  virtual void SetConPenalty(int, bool, int, double) { abort(); }
  virtual void SetConScaling(int, bool, int, double) { abort(); }
  virtual void SetKnotPenalty(int, bool, double) { abort(); }
  virtual void SetKnotScaling(int, bool, double) { abort(); }
  virtual void SetDuals(int, bool, int, const VectorXd&) { abort(); }
  virtual void KnotUpdateDuals(int) { abort(); }
  virtual void KnotUpdatePenalties(int) { abort(); }
  virtual void KnotResetDuals(int) { abort(); }
  virtual double AlCostEval(int, const VectorXd&, const VectorXd&) { abort(); }
  virtual std::shared_ptr<altro::problem::CostFunction> AlCostFn(int) { abort(); }
};

// The AL cost of one knot point on its own.
class AlCost {
 public:
  virtual ~AlCost() = default;
  virtual altro::problem::CostFunction& Fn() = 0;
  virtual AlKnot Get() = 0;
  virtual void SetPenalty(bool eq, int i, double) = 0;
  virtual void SetPenaltyAll(bool eq, double) = 0;
  virtual void SetScaling(bool eq, int i, double) = 0;
  virtual void SetScalingAll(bool eq, double) = 0;
  virtual void SetDuals(bool eq, int i, const VectorXd&) = 0;
  virtual void SetPenaltyVec(bool eq, int i, const VectorXd&) = 0;
  virtual void UpdateDuals() = 0;
  virtual void UpdatePenalties() = 0;
  virtual void ResetDuals() = 0;
  virtual void CalcExpansion(bool eq, int i, const VectorXd& x, const VectorXd& u) = 0;
  virtual double ConAugLag(bool eq, int i, const VectorXd& x, const VectorXd& u) = 0;
  virtual std::vector<altro::constraints::ConstraintInfo> Info() = 0;
  virtual int NumFns(bool eq) = 0;
  virtual void ReplaceEq(const std::vector<gen::ConSpec>&) = 0;
  virtual void ReplaceIneq(const std::vector<gen::ConSpec>&) = 0;
};

// ---- factories: (n, m) are the compile-time sizes, -1 = Eigen::Dynamic
struct Size {
  int n, m;
};
std::vector<Size> Sizes();                       // linked-in instantiations
SolverPtr MakeiLQR(Size z, const altro::problem::Problem& p);
SolverPtr MakeiLQREmpty(Size z, int N);
SolverPtr MakeAL(Size z, const altro::problem::Problem& p);
SolverPtr MakeALEmpty(Size z, int N);
std::unique_ptr<AlCost> MakeAlCost(Size z, const altro::problem::Problem& p, int k);
std::vector<std::shared_ptr<altro::problem::CostFunction>> BuildAl(Size z, const altro::problem::Problem& p, altro::problem::Problem* out);

struct Factory {
  Size z;
  SolverPtr (*ilqr)(const altro::problem::Problem&);
  SolverPtr (*ilqr_empty)(int);
  SolverPtr (*al)(const altro::problem::Problem&);
  SolverPtr (*al_empty)(int);
  std::unique_ptr<AlCost> (*alcost)(const altro::problem::Problem&, int);
  std::shared_ptr<altro::problem::Problem> (*build)(const altro::problem::Problem&);
};
bool Register(const Factory& f);
const Factory& Get(Size z);

// Chooses compile-time sizes for a case: run-time sizes, or (when linked in) fixed sizes, in which
// case the generator options are told to use them.
inline Size PickSize(pbt::Ctx& c, gen::Options* o) {
  auto all = Sizes();
  Size z = all[c.below(all.size())];
  if (z.n > 0) o->n = z.n;
  else if (o->big && o->n == 0 && c.chance(1, 40)) o->n = c.range(5, 9);
  if (z.m > 0) o->m = z.m;
  else if (o->big && o->m == 0 && c.chance(1, 40)) o->m = c.range(4, 6);
  return z;
}
inline std::string Str(Size z) { return fmt::format("<{},{}>", z.n, z.m); }
inline const char* StatusName(SolverStatus s) {
  static const char* n[] = {"Solved", "Unsolved", "StateLimit", "ControlLimit", "CostIncrease", "MaxIterations",
                            "MaxOuterIterations", "MaxInnerIterations", "MaxPenalty", "BackwardPassRegularizationFailed"};
  return n[static_cast<int>(s)];
}
double TrajDiff(const Traj& a, const Traj& b);
}  // namespace sol
