// C20: the profiler accounts time to the right call stacks and reports it faithfully.
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <chrono>
#include <fstream>
#include <map>
#include <set>
#include <sstream>

#include "altro/common/profile_entry.hpp"
#include "altro/common/solver_stats.hpp"
#include "altro/common/timer.hpp"
#include "rec.hpp"
using namespace pbt;
using altro::Stopwatch;
using altro::Timer;
using altro::TimerPtr;
using us = std::chrono::microseconds;

const pbt::PropertyInfo pbt::kProperty = {
    "C20",
    "A case is a tree of nested stopwatch scopes (left normally or by an exception) with clock advances, activation changes, destination changes (stdout, user streams, files) and explicit summaries in between, run under a simulated clock; every destination's final contents are compared with a model. Also hand-made profiles and profiles of real solves. Non-trivial: at least three distinct call stacks were recorded and a summary with at least one nested row was printed.",
    {"Stopwatches are properly nested and used from one thread; names do not contain '/'; percentages are those of the printed times, rounded towards zero, -1 when the reference time is zero; for a row whose enclosing scope is still open at the time of the summary percentages are not compared."}};

// ------------------------------------------------------------------------------ simulated clocks
static bool g_fake = false;
static long long g_now = 0;        // ns, monotonic
static long long g_wall = 0;       // offset of the wall clock
static long long g_tick = 0;       // advance per reading
static long long Mono() {
  if (g_fake) { g_now += g_tick; return g_now; }
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec * 1000000000LL + t.tv_nsec;
}
namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  if (g_fake) return time_point(duration(Mono() + g_wall));
  timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  return time_point(duration(t.tv_sec * 1000000000LL + t.tv_nsec));
}
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(Mono())); }
}  // namespace _V2
}  // namespace chrono
}  // namespace std

namespace {
using Stack = std::vector<std::string>;
struct Acc { long long lo = 0, ns = 0; };   // microseconds (sum of floors), nanoseconds
using Prof = std::map<Stack, Acc>;

struct Row { Stack name; long long time; int pt, pp; };
// Checks one printed summary against the model; returns the rest of the text.
void CheckSummary(const std::string& txt, size_t* pos, const Prof& p, bool closed, const char* where) {
  auto line = [&]() -> std::string {
    size_t e = txt.find('\n', *pos);
    EXPECT(e != std::string::npos, "{}: summary is cut off:\n{}", where, txt.substr(*pos));
    std::string l = txt.substr(*pos, e - *pos);
    *pos = e + 1;
    return l;
  };
  size_t start = *pos;
  int width = 0;
  for (auto& kv : p) {
    int w = 0;
    for (auto& s : kv.first) w += s.size();
    width = std::max(width, w);
  }
  width += 2;
  std::string h = line();
  std::string want = fmt::format("{1:<{0}}  {2:>8}  {3:>7}  {4:>7}", width, "Description", "Time (us)", "%Total", "%Parent");
  EXPECT(h == want, "{}: header '{}', expected '{}'", where, h, want);
  std::string rule = line();
  EXPECT(rule == std::string(want.size(), '-'), "{}: rule '{}'", where, rule);
  std::vector<Row> rows;
  std::map<Stack, long long> times;
  for (auto& kv : p) {
    std::string l = line();
    int indent = 0;
    for (size_t i = 0; i + 1 < kv.first.size(); ++i) indent += kv.first[i].size();
    std::string desc = fmt::format("{1:<{0}}", width, std::string(indent, ' ') + kv.first.back());
    EXPECT(l.size() > desc.size() && l.substr(0, desc.size()) == desc, "{}: row '{}' where '{}' was expected in\n{}", where, l, desc, txt.substr(start));
    std::istringstream is(l.substr(desc.size()));
    Row r;
    r.name = kv.first;
    is >> r.time >> r.pt >> r.pp;
    EXPECT(!is.fail(), "{}: row '{}' does not end in three numbers", where, l);
    std::string again = fmt::format("{}  {:>8}  {:>7}  {:>7}", desc, r.time, r.pt, r.pp);
    EXPECT(l == again, "{}: row '{}' is not formatted like '{}'", where, l, again);
    EXPECT(r.time >= kv.second.lo && r.time <= kv.second.ns / 1000, "{}: {} has {} us, expected {} (to {})", where, l, r.time, kv.second.lo, kv.second.ns / 1000);
    rows.push_back(r);
    times[r.name] = r.time;
  }
  long long total = 0;
  for (auto& r : rows) if (r.name.size() == 1) total += r.time;
  std::map<Stack, long long> kids;
  for (auto& r : rows) {
    bool anc = true;
    for (size_t i = 1; i < r.name.size(); ++i) anc = anc && times.count(Stack(r.name.begin(), r.name.begin() + i));
    if (!anc) continue;
    Stack par(r.name.begin(), r.name.end() - 1);
    long long pt = par.empty() ? total : times[par];
    kids[par] += r.time;
    // a caller that is still running can have less recorded time than its callees
    if (!closed && (r.time > total || r.time > pt)) continue;
    EXPECT(r.pt == (total == 0 ? -1 : 100 * r.time / total), "{}: row of {} us reports {}% of the total {} us in\n{}", where, r.time, r.pt, total, txt.substr(start, *pos - start));
    EXPECT(r.pp == (pt == 0 ? -1 : 100 * r.time / pt), "{}: row '{}' of {} us reports {}% of its parent's {} us in\n{}", where, r.name.back(), r.time, r.pp, pt, txt.substr(start, *pos - start));
  }
  if (closed)
    for (auto& kv : kids)
      if (!kv.first.empty()) EXPECT(times[kv.first] >= kv.second, "{}: {} reports {} us but its children {} us", where, kv.first.back(), times[kv.first], kv.second);
}

int OpenFds() {
  int n = 0;
  DIR* d = opendir("/proc/self/fd");
  while (readdir(d)) n++;
  closedir(d);
  return n;
}
std::string ReadFile(const std::string& p) {
  std::ifstream f(p);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}

struct Dest {              // contents expected at one destination
  std::vector<std::pair<Prof, bool>> sums;
};
struct Leave { int depth; };
const std::vector<std::string> kNames = {"a", "b", "cost", "al", "ilqr", "a-b", "a b", "a.c", "b!", "", "A", "a0", "z", "ilqr_2", "cost+"};

struct Sim {
  Ctx& c;
  TimerPtr t;
  std::string dir;
  bool active = false, printed = false;
  Stack stack;
  Prof prof;
  int cur = 0;                             // 0 stdout, 1-2 user streams, 3-4 files
  std::map<int, Dest> dest;
  std::map<int, bool> file_used;
  FILE* user[3] = {nullptr, nullptr, nullptr};
  int ufd[3] = {-1, -1, -1};
  int budget;
  bool nested_row = false;
  bool whole_us;
  std::string Path(int i) { return fmt::format("{}/f{}", dir, i); }
  void Summary(bool closed) {
    dest[cur].sums.push_back({prof, closed});
    for (auto& kv : prof) if (kv.first.size() > 1) nested_row = true;
    printed = true;
  }
  void Advance() {
    long long us = c.chance(1, 12) ? c.range(1, 400) * 1000000LL : c.one_of<long long>({0, 1, 7, 100, 1500, 30000, (long long)c.range(0, 5000)});
    g_now += us * 1000 + (whole_us ? 0 : c.range(0, 1999));
  }
  void Scope(int depth) {
    std::string name = c.pick(kNames);
    bool act = active;
    c.note("{{{}{}", name, act ? "" : " (inactive)");
    long long t0;
    struct Guard {
      Sim* s; bool act; long long* t0; Stack st;
      ~Guard() {
        if (act) {
          long long ns = g_now - *t0;
          s->prof[st].lo += ns / 1000;
          s->prof[st].ns += ns;
          s->stack.pop_back();
        }
      }
    };
    if (act) stack.push_back(name);
    t0 = g_now;
    Guard g{this, act, &t0, stack};
    Stopwatch sw = t->Start(name);
    try {
      Body(depth + 1);
    } catch (Leave& l) {   // leaves the requested number of scopes
      if (--l.depth > 0) throw;
    }
    c.note("}}");
  }
  void Body(int depth) {
    int n = c.range(0, 6);
    for (int i = 0; i < n && budget > 0; ++i) {
      budget--;
      switch (c.range(0, 13)) {
        case 0: case 1: case 2: case 3: Advance(); break;
        case 4: case 5: case 6: case 7: if (depth < 8) Scope(depth); break;
        case 8:
          if (c.chance(1, 2)) { active = !active; active ? t->Activate() : t->Deactivate(); c.note("{}", active ? "on" : "off"); EXPECT(t->IsActive() == active, "IsActive"); }
          break;
        case 9:
          if (c.chance(1, 2)) { t->PrintSummary(); Summary(stack.empty()); c.note("print"); }
          break;
        case 10: {
          int d = c.range(0, 4);
          cur = d;
          if (d == 0) t->SetOutput(stdout);
          else if (d <= 2) t->SetOutput(user[d]);
          else { t->SetOutput(Path(d)); dest[d].sums.clear(); file_used[d] = true; }
          c.note("to {}", d);
          break;
        }
        case 11:
          if (depth > 0 && c.chance(1, 2)) { int d = c.range(1, depth); c.note("throw {}", d); throw Leave{d}; }
          break;
        case 12: g_wall += c.range(-3600, 3600) * 1000000000LL; c.note("wall clock step"); break;
        case 13: {
          if (!c.chance(1, 2)) break;
          bool threw = false;   // an unusable file name is reported
          try { t->SetOutput(dir + "/no/such/dir"); } catch (const std::runtime_error&) { threw = true; }
          EXPECT(threw, "opening a file in a missing directory was not reported");
          t->SetOutput(stdout);
          cur = 0;
          break;
        }
      }
    }
  }
};
void RunSim(Ctx& c) {
  std::string dir = Scratch();
  std::string out;
  {
    Sim s{c, nullptr, dir};
    s.budget = c.range(4, 60);
    s.whole_us = c.chance(1, 2);
    g_fake = true;
    g_now = 1000000000LL * 1000000;
    g_wall = g_tick = 0;
    for (int i = 1; i <= 2; ++i) {
      s.user[i] = fopen(fmt::format("{}/u{}", dir, i).c_str(), "w+");
      s.ufd[i] = fileno(s.user[i]);
    }
    for (int i = 3; i <= 4; ++i) unlink(s.Path(i).c_str());
    int fds;
    bool deactivated_with_data = false;
    {
      CaptureStdout cap;
      fds = OpenFds();
      s.t = c.chance(1, 4) ? Timer::MakeUnique() : Timer::MakeShared();
      EXPECT(!s.t->IsActive(), "active from the start");
      if (c.chance(3, 4)) { s.t->Activate(); s.active = true; c.note("on"); }
      int top = c.range(1, 4);
      for (int i = 0; i < top; ++i) {
        try {
          // every level lets the exception pass until the requested depth
          s.Body(0);
        } catch (Leave&) {
        }
        EXPECT(s.stack.empty(), "harness: stack not unwound");
      }
      if (c.chance(1, 4)) { s.t->PrintSummary(); s.Summary(true); c.note("print"); }
      // destruction prints the summary unless it was printed before
      if (s.active && !s.printed) s.Summary(true);
      else if (!s.active && !s.printed && !s.prof.empty()) deactivated_with_data = true;
      s.t.reset();
      EXPECT(fcntl(1, F_GETFD) != -1, "the timer closed standard output");
      int fds2 = OpenFds();
      EXPECT(fds2 == fds, "{} file descriptors open before, {} after", fds, fds2);
      out = cap.Stop();
    }
    g_fake = false;
    std::string text[5];
    text[0] = out;
    for (int i = 1; i <= 2; ++i) {
      EXPECT(fcntl(s.ufd[i], F_GETFD) != -1, "the timer closed user stream {}", i);
      EXPECT(fclose(s.user[i]) == 0, "the user's stream {} is damaged", i);
      text[i] = ReadFile(fmt::format("{}/u{}", dir, i));
    }
    for (int i = 3; i <= 4; ++i) {
      if (s.file_used[i]) text[i] = ReadFile(s.Path(i));
    }
    for (int i = 0; i < 5; ++i) {
      size_t pos = 0;
      if (deactivated_with_data && i == s.cur && !text[i].empty() && s.dest[i].sums.empty()) continue;   // either is accepted
      for (auto& e : s.dest[i].sums) {
        EXPECT(pos < text[i].size(), "a summary is missing at destination {}", i);
        CheckSummary(text[i], &pos, e.first, e.second, i == 0 ? "stdout" : i <= 2 ? "user stream" : "file");
      }
      EXPECT(pos == text[i].size() || (deactivated_with_data && i == s.cur), "unexpected output at destination {}:\n{}", i, text[i].substr(pos));
    }
    if (s.prof.size() >= 3 && s.nested_row) c.nontrivial();
    c.label(fmt::format("{} stacks", std::min<size_t>(s.prof.size(), 10)));
  }
}
}  // namespace

PBT_CHECK(scopes, 12000, 240000) { RunSim(c); }

// Profiles given by the user.
PBT_CHECK(given, 6000, 120000) {
  Prof p;
  std::map<std::string, us> times;
  std::function<long long(const Stack&, long long, int)> fill = [&](const Stack& s, long long t, int depth) {
    std::string full;
    for (size_t i = 0; i < s.size(); ++i) full += (i ? "/" : "") + s[i];
    times[full] = us(t);
    p[s] = {t, t * 1000};
    int kids = depth < 4 ? c.range(0, 3) : 0;
    for (int i = 0; i < kids; ++i) {
      Stack k = s;
      k.push_back(c.pick(kNames));
      if (p.count(k)) continue;
      long long tk = c.chance(1, 5) ? 0 : (long long)(t * c.real(0, 1) / kids);
      fill(k, tk, depth + 1);
    }
    return 0;
  };
  int roots = c.range(0, 3);
  for (int i = 0; i < roots; ++i) {
    Stack s{c.pick(kNames)};
    if (!p.count(s)) fill(s, c.one_of<long long>({0, 5, 1234, 30000000, 4000000000LL, (long long)c.range(0, 100000)}), 0);
  }
  for (auto& kv : times) c.note("{}={}", kv.first, (long long)kv.second.count());
  std::string txt;
  {
    CaptureStdout cap;
    TimerPtr t = Timer::MakeShared();
    if (c.chance(1, 2)) t->Activate();
    auto before = times;
    t->PrintSummary(&times);
    bool same = before == times;
    t.reset();
    txt = cap.Stop();
    EXPECT(same, "printing changed the profile");
  }
  size_t pos = 0;
  CheckSummary(txt, &pos, p, true, "given profile");
  EXPECT(pos == txt.size(), "unexpected output {}", txt.substr(pos));
  if (p.size() >= 3) c.nontrivial();
}

// Profiles of real solves: the rows form a tree with one root per kind of solver.
PBT_CHECK(solves, 1500, 20000) {
  gen::Options go;
  sol::Size z = sol::PickSize(c, &go);
  bool al = c.chance(1, 2);
  go.Nmax = 6;
  gen::Spec sp = rec::RandomSpec(c, go, al);
  altro::problem::Problem prob(sp.N);
  gen::Fill(sp, &prob);
  std::string dir = Scratch(), out, file;
  bool to_file = c.chance(1, 2);
  int fds0, fds1;
  int solves = c.range(1, 3);
  int enabled = 0;
  bool last_enabled = false;
  c.note("{} al={} file={} solves={}", sp.Brief(), al, to_file, solves);
  unlink((dir + "/prof").c_str());
  {
    CaptureStdout cap;
    fds0 = OpenFds();
    auto sv = al ? sol::MakeAL(z, prob) : sol::MakeiLQR(z, prob);
    rec::RandomSolveOptions(c, &sv->Opts(), al);
    sv->Opts().max_iterations_inner = std::min(sv->Opts().max_iterations_inner, 10);
    sv->Opts().nthreads = c.chance(1, 3) ? c.range(2, 3) : 1;
    for (int i = 0; i < solves; ++i) {
      sv->NewTraj(sp);
      sv->Opts().profiler_enable = last_enabled = c.chance(3, 4);
      sv->Opts().profiler_output_to_file = to_file;
      sv->Opts().log_directory = dir;
      sv->Opts().profile_filename = "prof";
      enabled += last_enabled;
      g_fake = sv->Opts().nthreads == 1;
      g_tick = 1000;
      sv->Solve();
      g_fake = false;
    }
    sv.reset();
    fds1 = OpenFds();
    out = cap.Stop();
  }
  EXPECT(fds0 == fds1, "{} file descriptors open before, {} after", fds0, fds1);
  file = ReadFile(dir + "/prof");
  std::string& txt = to_file ? file : out;
  if (to_file) EXPECT(out.empty(), "output on stdout although a file was requested:\n{}", out);
  if (enabled == 0) {
    EXPECT(txt.empty(), "profile printed although profiling was never enabled:\n{}", txt);
    return;
  }
  if (!last_enabled) return;   // printed or not: either is accepted
  std::istringstream is(txt);
  std::string line;
  std::getline(is, line);
  EXPECT(line.find("Description") == 0, "no profile was printed:\n{}", txt);
  std::getline(is, line);
  std::vector<std::pair<int, long long>> open;   // indentation, remaining time
  int rows = 0, tops = 0;
  while (std::getline(is, line)) {
    EXPECT(line.find("Description") != 0, "the profile was printed twice:\n{}", txt);
    size_t ind = line.find_first_not_of(' ');
    std::istringstream ls(line);
    std::string nm;
    long long t;
    int pt, pp;
    ls >> nm >> t >> pt >> pp;
    EXPECT(!ls.fail() && t >= 0, "row '{}'", line);
    while (!open.empty() && open.back().first >= (int)ind) open.pop_back();
    if (open.empty()) { tops++; EXPECT(ind == 0, "row '{}' has no parent", line); }
    else { open.back().second -= t; EXPECT(open.back().second >= 0, "children of the row above '{}' report more time than it:\n{}", line, txt); }
    EXPECT(pp <= 100 && pt <= 100, "row '{}'", line);
    open.push_back({(int)ind, t});
    rows++;
  }
  EXPECT(rows >= 3, "only {} rows:\n{}", rows, txt);
  c.nontrivial();
}
