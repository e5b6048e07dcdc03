// Choice-sequence property-based testing engine.
//
// A case is a pure function of a finite sequence of bounded integer choices.  During the search the
// choices come from a PRNG seeded by (VERIF_SEED, sub-check name, case index); during shrinking and
// replay they come from a stored vector (missing choices read as 0, the simplest value).
#pragma once
#include <fmt/format.h>

#include <cmath>
#include <cstdint>
#include <functional>
#include <limits>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Failure : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct Discard {};  // the case is outside the property's domain

struct Slot;  // shared-memory slot of the worker (defined in pbt_main.cpp)

class Ctx {
 public:
  Ctx(uint64_t seed, Slot* slot);
  Ctx(const std::vector<uint64_t>& replay, Slot* slot);

  // ------------------------------------------------------------------ choices
  uint64_t below(uint64_t n);             // uniform in [0, n), shrinks towards 0
  int range(int lo, int hi) {             // inclusive, shrinks towards lo
    return lo + static_cast<int>(below(static_cast<uint64_t>(hi - lo) + 1));
  }
  bool chance(int num, int den) {         // true with probability num/den, shrinks towards false
    return below(den) >= static_cast<uint64_t>(den - num);
  }
  // Uniform in [lo, hi] on a grid of 2^20 points, shrinks towards 0 (or the bound nearest 0).
  double real(double lo, double hi) {
    double k = static_cast<double>(below(1u << 20)) / static_cast<double>(1u << 20);
    if (lo >= 0) return lo + (hi - lo) * k;
    if (hi <= 0) return hi - (hi - lo) * k;
    // zig-zag around zero
    double z = 2 * k;
    return z < 1 ? hi * z : lo * (z - 1);
  }
  double logreal(double lo, double hi) { return lo * std::exp(std::log(hi / lo) * real(0, 1)); }
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }
  template <class T>
  T one_of(std::initializer_list<T> v) {
    return *(v.begin() + below(v.size()));
  }
  uint64_t bits() { return below(1ull << 62); }

  // ------------------------------------------------------------------ reporting
  template <class... A>
  void note(const char* f, const A&... a) {
    if (desc_.size() < kMaxDesc) {
      desc_ += fmt::format(fmt::runtime(f), a...);
      desc_ += "; ";
    }
    SyncDesc();
  }
  void label(const std::string& l);       // classification counter (once per case per label)
  void nontrivial() { nontrivial_ = true; }
  void key(const std::string& k) { key_ = k; }  // identity used to count distinct cases
  void excluded(const std::string& finding_id);  // case belongs to a known finding: count and drop
  [[noreturn]] void fail(const std::string& msg) { throw Failure(msg); }
  [[noreturn]] void discard() { throw Discard(); }

  const std::vector<uint64_t>& choices() const { return ch_; }
  const std::string& desc() const { return desc_; }
  const std::vector<std::string>& labels() const { return labels_; }
  bool is_nontrivial() const { return nontrivial_; }
  const std::string& key() const { return key_; }

 private:
  static constexpr size_t kMaxDesc = 6000;
  void SyncDesc();
  std::vector<uint64_t> ch_;
  std::vector<uint64_t> replay_;
  bool replaying_ = false;
  uint64_t state_ = 0;
  Slot* slot_ = nullptr;
  std::string desc_, key_;
  std::vector<std::string> labels_;
  bool nontrivial_ = false;
};

using CaseFn = void (*)(Ctx&);

enum Kind { kGenerated, kFixed, kKnown };
struct Check {
  std::string name;
  Kind kind;
  int quick_cases, thorough_cases;
  CaseFn fn;
  std::string finding_id;  // kKnown only
  double hang_s = 60;
};
std::vector<Check>& Registry();
struct Reg {
  explicit Reg(Check c) { Registry().push_back(std::move(c)); }
};

struct PropertyInfo {
  const char* id;
  const char* rule;                        // how cases are made, what is non-trivial
  std::vector<std::string> assumptions;
};
extern const PropertyInfo kProperty;

// Runs fn in a forked child with the engine's stdout/stderr; returns the wait status and captured
// stderr.  Used for assertion (death) checks and for containment.  Status -1: timed out.
struct ChildResult {
  bool exited = false;
  int exit_code = 0;
  bool signaled = false;
  int signal = 0;
  bool timeout = false;
  std::string err, out;
};
ChildResult RunChild(const std::function<void()>& fn, double timeout_s = 60);

// Captures everything written to stdout (fd 1 and the C stream) while alive.
class CaptureStdout {
 public:
  CaptureStdout();
  ~CaptureStdout();
  std::string Stop();
 private:
  int saved_ = -1, fd_ = -1;
};

std::string Scratch();                    // a scratch directory private to this worker
bool ThoroughTier();
}  // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// A generated check: quick / thorough number of cases.
#define PBT_CHECK(name, quick, thorough)                                                           \
  static void PBT_CAT(pbt_fn_, name)(pbt::Ctx & c);                                                \
  static pbt::Reg PBT_CAT(pbt_reg_, name)({#name, pbt::kGenerated, quick, thorough,                \
                                           &PBT_CAT(pbt_fn_, name), ""});                          \
  static void PBT_CAT(pbt_fn_, name)([[maybe_unused]] pbt::Ctx & c)
#define PBT_CHECK_T(name, quick, thorough, hang)                                                   \
  static void PBT_CAT(pbt_fn_, name)(pbt::Ctx & c);                                                \
  static pbt::Reg PBT_CAT(pbt_reg_, name)({#name, pbt::kGenerated, quick, thorough,                \
                                           &PBT_CAT(pbt_fn_, name), "", hang});                    \
  static void PBT_CAT(pbt_fn_, name)([[maybe_unused]] pbt::Ctx & c)
// A fixed regression input (the shrunk reproduction of a defect that has been repaired).
#define PBT_FIXED(name)                                                                            \
  static void PBT_CAT(pbt_fn_, name)(pbt::Ctx & c);                                                \
  static pbt::Reg PBT_CAT(pbt_reg_, name)({#name, pbt::kFixed, 1, 1, &PBT_CAT(pbt_fn_, name), ""});\
  static void PBT_CAT(pbt_fn_, name)([[maybe_unused]] pbt::Ctx & c)
// The reproduction of a known finding; finding = its id in known_findings.txt.
#define PBT_KNOWN(name, finding)                                                                   \
  static void PBT_CAT(pbt_fn_, name)(pbt::Ctx & c);                                                \
  static pbt::Reg PBT_CAT(pbt_reg_, name)({#name, pbt::kKnown, 1, 1, &PBT_CAT(pbt_fn_, name),      \
                                           finding});                                              \
  static void PBT_CAT(pbt_fn_, name)([[maybe_unused]] pbt::Ctx & c)

#define EXPECT(cond, ...)                                                                          \
  do {                                                                                             \
    if (!(cond)) throw ::pbt::Failure(fmt::format("{} [{}:{}] ", #cond, __func__, __LINE__) + fmt::format(__VA_ARGS__)); \
  } while (0)
