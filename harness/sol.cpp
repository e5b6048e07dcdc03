#include "sol.hpp"

#include <algorithm>
namespace sol {
static std::vector<Factory>& Reg() {
  static std::vector<Factory> v;
  return v;
}
bool Register(const Factory& f) {
  auto& v = Reg();
  v.push_back(f);
  std::sort(v.begin(), v.end(), [](const Factory& a, const Factory& b) { return std::make_pair(a.z.n, a.z.m) < std::make_pair(b.z.n, b.z.m); });
  return true;
}
std::vector<Size> Sizes() {
  std::vector<Size> r;
  for (auto& f : Reg()) r.push_back(f.z);
  return r;
}
const Factory& Get(Size z) {
  for (auto& f : Reg()) if (f.z.n == z.n && f.z.m == z.m) return f;
  fprintf(stderr, "size not linked in\n");
  abort();
}
SolverPtr MakeiLQR(Size z, const altro::problem::Problem& p) { return Get(z).ilqr(p); }
SolverPtr MakeiLQREmpty(Size z, int N) { return Get(z).ilqr_empty(N); }
SolverPtr MakeAL(Size z, const altro::problem::Problem& p) { return Get(z).al(p); }
SolverPtr MakeALEmpty(Size z, int N) { return Get(z).al_empty(N); }
std::unique_ptr<AlCost> MakeAlCost(Size z, const altro::problem::Problem& p, int k) { return Get(z).alcost(p, k); }
double TrajDiff(const Traj& a, const Traj& b) {
  if (a.X.size() != b.X.size() || a.U.size() != b.U.size()) return INFINITY;
  double d = 0;
  for (size_t k = 0; k < a.X.size(); ++k) d = std::max(d, gen::MaxDiff(a.X[k], b.X[k]));
  for (size_t k = 0; k < a.U.size(); ++k) d = std::max(d, gen::MaxDiff(a.U[k], b.U[k]));
  return d;
}
}  // namespace sol
