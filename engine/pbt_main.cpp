#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>

#include "pbt.hpp"

namespace pbt {

static constexpr size_t kMaxChoices = 1 << 16;
static constexpr size_t kDescBytes = 1 << 13;
struct Slot {
  volatile int check;
  volatile long index;
  volatile double start;     // 0 = idle
  volatile size_t nchoices;
  uint64_t choices[kMaxChoices];
  volatile size_t ndesc;
  char desc[kDescBytes];
  volatile int result;       // 0 running, 1 pass, 2 fail, 3 discard, 4 excluded
  char msg[4096];
  volatile bool done;
};

std::vector<Check>& Registry() {
  static std::vector<Check> r;
  return r;
}

struct Excluded {
  std::string id;
};

static double Now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
static uint64_t Mix(uint64_t& s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint64_t Fnv(const std::string& s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char ch : s) h = (h ^ ch) * 1099511628211ull;
  return h;
}

Ctx::Ctx(uint64_t seed, Slot* slot) : state_(seed), slot_(slot) {
  if (slot_) { slot_->nchoices = 0; slot_->ndesc = 0; }
}
Ctx::Ctx(const std::vector<uint64_t>& replay, Slot* slot)
    : replay_(replay), replaying_(true), slot_(slot) {
  if (slot_) { slot_->nchoices = 0; slot_->ndesc = 0; }
}
uint64_t Ctx::below(uint64_t n) {
  if (n == 0) n = 1;
  uint64_t v;
  if (replaying_) {
    v = ch_.size() < replay_.size() ? replay_[ch_.size()] : 0;
    if (v >= n) v = n - 1;
  } else {
    v = static_cast<uint64_t>((static_cast<unsigned __int128>(Mix(state_)) * n) >> 64);
  }
  ch_.push_back(v);
  if (slot_ && ch_.size() <= kMaxChoices) {
    slot_->choices[ch_.size() - 1] = v;
    slot_->nchoices = ch_.size();
  }
  return v;
}
void Ctx::label(const std::string& l) {
  if (std::find(labels_.begin(), labels_.end(), l) == labels_.end()) labels_.push_back(l);
}
void Ctx::excluded(const std::string& id) { throw Excluded{id}; }
void Ctx::SyncDesc() {
  if (!slot_) return;
  size_t n = std::min(desc_.size(), kDescBytes - 1);
  memcpy(slot_->desc, desc_.data(), n);
  slot_->ndesc = n;
}

// ---------------------------------------------------------------------------------------- helpers
static std::string g_scratch_root = "/tmp";
static std::string g_scratch;
static bool g_thorough = false;
bool ThoroughTier() { return g_thorough; }
std::string Scratch() {
  if (g_scratch.empty()) {
    std::string t = g_scratch_root + "/w" + std::to_string(getpid());
    mkdir(t.c_str(), 0700);
    g_scratch = t;
  }
  return g_scratch;
}

static std::string ReadFd(int fd) {
  std::string s;
  lseek(fd, 0, SEEK_SET);
  char buf[4096];
  ssize_t n;
  while ((n = read(fd, buf, sizeof buf)) > 0) s.append(buf, n);
  return s;
}
ChildResult RunChild(const std::function<void()>& fn, double timeout_s) {
  ChildResult r;
  int e = memfd_create("err", 0), o = memfd_create("out", 0);
  fflush(stdout);
  fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    dup2(e, 2);
    dup2(o, 1);
    try {
      fn();
    } catch (const std::exception& ex) {
      fprintf(stderr, "uncaught exception: %s\n", ex.what());
      fflush(stdout);
      _exit(99);
    } catch (...) {
      _exit(99);
    }
    fflush(stdout);
    fflush(stderr);
    _exit(0);
  }
  double end = Now() + timeout_s;
  int st = 0;
  while (true) {
    pid_t w = waitpid(p, &st, WNOHANG);
    if (w == p) break;
    if (Now() > end) {
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      r.timeout = true;
      break;
    }
    usleep(500);
  }
  if (!r.timeout) {
    if (WIFEXITED(st)) { r.exited = true; r.exit_code = WEXITSTATUS(st); }
    if (WIFSIGNALED(st)) { r.signaled = true; r.signal = WTERMSIG(st); }
  }
  r.err = ReadFd(e);
  r.out = ReadFd(o);
  close(e);
  close(o);
  return r;
}

CaptureStdout::CaptureStdout() {
  fflush(stdout);
  std::cout.flush();
  fd_ = memfd_create("cap", 0);
  saved_ = dup(1);
  dup2(fd_, 1);
}
std::string CaptureStdout::Stop() {
  if (saved_ < 0) return "";
  fflush(stdout);
  std::cout.flush();
  dup2(saved_, 1);
  close(saved_);
  saved_ = -1;
  std::string s = ReadFd(fd_);
  close(fd_);
  return s;
}
CaptureStdout::~CaptureStdout() { Stop(); }

// ---------------------------------------------------------------------------------------- running
struct Outcome {
  int result = 0;  // 1 pass, 2 fail, 3 discard, 4 excluded, 5 crash, 6 hang, 7 killed
  std::string msg, desc;
  std::vector<uint64_t> choices;
};

static int RunOne(const Check& ck, Ctx& c, std::string* msg) {
  try {
    ck.fn(c);
    return 1;
  } catch (const Failure& f) {
    *msg = f.what();
    return 2;
  } catch (const Discard&) {
    return 3;
  } catch (const Excluded& e) {
    *msg = e.id;
    return 4;
  } catch (const std::exception& e) {
    *msg = std::string("unexpected exception: ") + e.what();
    return 2;
  }
}

static Slot* NewSlot() {
  void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
  return static_cast<Slot*>(p);
}
static std::string Tail(const std::string& s, size_t n) { return s.size() > n ? s.substr(s.size() - n) : s; }
static std::string CrashSummary(const std::string& err) {
  // keep the first informative lines
  std::istringstream is(err);
  std::string line, out;
  int k = 0;
  while (std::getline(is, line) && k < 400) {
    ++k;
    if (line.find("runtime error") != std::string::npos || line.find("ERROR: ") != std::string::npos ||
        line.find("Assert") != std::string::npos || line.find("Assertion") != std::string::npos ||
        line.find("WARNING: ThreadSanitizer") != std::string::npos || line.find("Evaluated") != std::string::npos ||
        line.find("SUMMARY") != std::string::npos || line.find("terminate called") != std::string::npos ||
        line.find("what()") != std::string::npos)
      out += line.substr(0, 300) + " | ";
  }
  if (out.empty()) out = Tail(err, 600);
  return out.substr(0, 1500);
}

// Run a single stored case in a fresh child.
static Outcome RunStored(int ci, const std::vector<uint64_t>& ch, double timeout) {
  static Slot* slot = NewSlot();
  slot->nchoices = 0; slot->ndesc = 0; slot->result = 0; slot->msg[0] = 0;
  Outcome o;
  auto r = RunChild([&] {
    Ctx c(ch, slot);
    std::string msg;
    int res = RunOne(Registry()[ci], c, &msg);
    strncpy(slot->msg, msg.c_str(), sizeof(slot->msg) - 1);
    slot->result = res;
    _exit(0);
  }, timeout);
  o.choices.assign(slot->choices, slot->choices + std::min<size_t>((size_t)slot->nchoices, (size_t)kMaxChoices));
  o.desc.assign(slot->desc, slot->ndesc);
  if (r.timeout) {
    o.result = 6;
    o.msg = "no progress (hang)";
  } else if (r.exited && r.exit_code == 0 && slot->result != 0) {
    o.result = slot->result;
    o.msg = slot->msg;
  } else if (r.signaled && r.signal == SIGKILL) {
    o.result = 7;
  } else {
    o.result = 5;
    o.msg = "crash: " + CrashSummary(r.err);
  }
  return o;
}
static bool Bad(const Outcome& o) { return o.result == 2 || o.result == 5 || o.result == 6; }

static std::vector<uint64_t> Shrink(int ci, std::vector<uint64_t> best, Outcome* bo, double budget, double hang) {
  double end = Now() + budget;
  int tries = 0;
  auto attempt = [&](const std::vector<uint64_t>& cand) {
    if (Now() > end || tries > 3000) return false;
    ++tries;
    Outcome o = RunStored(ci, cand, hang);
    if (Bad(o) && o.result == bo->result) {
      auto used = o.choices;
      // accept only if simpler (shorter, or lexicographically smaller at equal length)
      if (used.size() < best.size() || (used.size() == best.size() && used < best)) {
        best = used;
        *bo = o;
        return true;
      }
    }
    return false;
  };
  if (bo->result == 6) return best;  // never shrink hangs
  bool improved = true;
  while (improved && Now() < end) {
    improved = false;
    for (size_t chunk = std::max<size_t>(best.size() / 2, 1); chunk >= 1; chunk /= 2) {  // delete
      for (size_t i = 0; i + chunk <= best.size() && Now() < end;) {
        auto cand = best;
        cand.erase(cand.begin() + i, cand.begin() + i + chunk);
        if (attempt(cand)) improved = true; else i += chunk;
      }
      if (chunk == 1) break;
    }
    for (size_t chunk = std::max<size_t>(best.size() / 2, 1); chunk >= 1; chunk /= 2) {  // zero
      for (size_t i = 0; i < best.size() && Now() < end; i += chunk) {
        auto cand = best;
        bool ch = false;
        for (size_t j = i; j < std::min(best.size(), i + chunk); ++j) { ch |= cand[j] != 0; cand[j] = 0; }
        if (ch && attempt(cand)) improved = true;
      }
      if (chunk == 1) break;
    }
    for (size_t i = 0; i < best.size() && Now() < end; ++i) {  // reduce values
      uint64_t lo = 0, hi = best[i];
      int guard = 0;
      while (lo < hi && guard++ < 24 && i < best.size()) {
        uint64_t mid = lo + (hi - lo) / 2;
        auto cand = best;
        cand[i] = mid;
        if (attempt(cand)) { improved = true; if (i >= best.size()) break; hi = std::min(hi, best[i]); }
        else lo = mid + 1;
      }
    }
  }
  return best;
}

static std::string Esc(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch >= 127) o += fmt::format("\\u{:04x}", ch);
    else o += ch;
  }
  return o;
}

static std::string WriteReplay(const std::string& dir, const Check& ck, const Outcome& o, uint64_t seed, long idx) {
  mkdir(dir.c_str(), 0755);
  std::string body;
  for (auto v : o.choices) body += std::to_string(v) + " ";
  std::string path = fmt::format("{}/{}-{}-{:016x}.replay", dir, kProperty.id, ck.name, Fnv(body + ck.name));
  std::ofstream f(path);
  f << "property " << kProperty.id << "\ncheck " << ck.name << "\nchoices " << body << "\nseed " << seed << "\nindex " << idx
    << "\nmessage " << Esc(o.msg) << "\ncase " << Esc(o.desc) << "\n";
  return path;
}

}  // namespace pbt

using namespace pbt;

int main(int argc, char** argv) {
  uint64_t seed = 1;
  int nworkers = 8;
  double budget = 300, scale = 1;
  std::string evidence, replay, replay_dir = "/tmp/replays", known_file, only;
  bool list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(argv[++i]); };
    if (a == "--seed") seed = std::stoull(next());
    else if (a == "--workers") nworkers = std::stoi(next());
    else if (a == "--budget") budget = std::stod(next());
    else if (a == "--scale") scale = std::stod(next());
    else if (a == "--tier") g_thorough = next() == "thorough";
    else if (a == "--evidence") evidence = next();
    else if (a == "--replay") replay = next();
    else if (a == "--replay-dir") replay_dir = next();
    else if (a == "--known") known_file = next();
    else if (a == "--only") only = next();
    else if (a == "--scratch") g_scratch_root = next();
    else if (a == "--list") list = true;
  }
  auto& checks = Registry();
  std::sort(checks.begin(), checks.end(), [](const Check& a, const Check& b) { return a.name < b.name; });
  if (list) {
    for (auto& ck : checks) fmt::print("{} {} {} {}\n", ck.name, (int)ck.kind, ck.quick_cases, ck.thorough_cases);
    return 0;
  }
  double t0 = Now();

  if (!replay.empty()) {
    std::ifstream f(replay);
    std::string line, name;
    std::vector<uint64_t> ch;
    while (std::getline(f, line)) {
      std::istringstream is(line);
      std::string k;
      is >> k;
      if (k == "check") is >> name;
      if (k == "choices") { uint64_t v; while (is >> v) ch.push_back(v); }
    }
    for (size_t i = 0; i < checks.size(); ++i)
      if (checks[i].name == name) {
        Outcome o = RunStored(i, ch, checks[i].hang_s * 3);
        fmt::print("replay {} result={} {}\ncase: {}\n", name, o.result, o.msg, o.desc);
        if (Bad(o)) fmt::print("VIOLATION property={} replay={}\n", kProperty.id, replay);
        return Bad(o) ? 1 : 0;
      }
    fmt::print("unknown check {}\n", name);
    return 2;
  }

  // known findings listed for this property:  "finding: property=<id> id=<fid> ..."
  std::map<std::string, std::string> known;
  {
    std::ifstream f(known_file);
    std::string line;
    while (std::getline(f, line)) {
      if (line.rfind("finding:", 0) != 0) continue;
      if (line.find(fmt::format("property={} ", kProperty.id)) == std::string::npos) continue;
      size_t p = line.find("id=", line.find("property=") + 10);
      if (p == std::string::npos) continue;
      size_t e = line.find(' ', p);
      known[line.substr(p + 3, e - p - 3)] = e == std::string::npos ? "" : line.substr(e + 1);
    }
  }

  std::map<std::string, long> evals, labels, excluded, discarded, hangs;
  std::set<uint64_t> distinct;
  std::vector<std::string> samples;
  long total = 0, nontrivial_total = 0, killed = 0;
  bool violation = false, budget_hit = false;
  std::string vline, vmsg;

  auto report = [&](int ci, Outcome o, long idx, bool shrink) {
    const Check& ck = checks[ci];
    if (shrink && Bad(o)) {
      Outcome again = RunStored(ci, o.choices, ck.hang_s * 3);
      if (Bad(again)) {
        o = again;
        Shrink(ci, o.choices, &o, 60, ck.hang_s);
      } else if (o.result == 6) {
        hangs[ck.name]++;   // did not reproduce: inconclusive, not a violation
        return false;
      } else {
        o.msg += " (observed once; schedule-dependent, did not recur on the first replay)";
      }
    }
    std::string path = WriteReplay(replay_dir, ck, o, seed, idx);
    vline = fmt::format("VIOLATION property={} replay={}", kProperty.id, path);
    vmsg = fmt::format("check {} case {}: {}\n  input: {}", ck.name, idx, o.msg, o.desc);
    violation = true;
    return true;
  };

  // ---- fixed regressions and known findings
  for (size_t ci = 0; ci < checks.size() && !violation; ++ci) {
    const Check& ck = checks[ci];
    if (ck.kind == kGenerated || (!only.empty() && ck.name != only)) continue;
    Outcome o = RunStored(ci, {}, ck.hang_s);
    if (o.result == 7) o = RunStored(ci, {}, ck.hang_s);
    if (o.result == 6) o = RunStored(ci, {}, ck.hang_s * 3);
    ++total;
    evals[ck.name]++;
    if (!Bad(o)) continue;
    if (ck.kind == kKnown && known.count(ck.finding_id)) {
      fmt::print("KNOWN-FINDING: property={} {}\n", kProperty.id, known[ck.finding_id]);
      continue;
    }
    report(ci, o, 0, false);
  }

  // ---- generated search
  for (size_t ci = 0; ci < checks.size() && !violation; ++ci) {
    const Check& ck = checks[ci];
    if (ck.kind != kGenerated || (!only.empty() && ck.name != only)) continue;
    long ncases = std::max<long>(1, (long)((g_thorough ? ck.thorough_cases : ck.quick_cases) * scale));
    double remaining = budget - (Now() - t0);
    // each generated check gets at most its share of what is left (shares by number of checks left)
    int left = 0;
    for (size_t j = ci; j < checks.size(); ++j) left += checks[j].kind == kGenerated;
    double deadline = Now() + std::max(5.0, remaining / std::max(1, left) * 2.0);
    deadline = std::min(deadline, t0 + budget);
    int nw = std::min<long>(nworkers, ncases);
    std::vector<pid_t> pid(nw, -1);
    std::vector<Slot*> slot(nw);
    std::vector<long> next(nw);
    std::vector<int> errfd(nw), statfd(nw);
    std::vector<int> hang_retry(nw, 0);
    std::vector<std::pair<long, Outcome>> failures;
    uint64_t base = Fnv(ck.name, seed * 0x9e3779b97f4a7c15ull + 12345);
    auto case_seed = [&](long i) { uint64_t s = base + 0x632be59bd9b4e019ull * (uint64_t)(i + 1); Mix(s); return s; };
    auto spawn = [&](int w) {
      fflush(stdout);
      pid_t p = fork();
      if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (ftruncate(errfd[w], 0)) {}
        lseek(errfd[w], 0, SEEK_SET);
        dup2(errfd[w], 2);
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1);
        g_scratch.clear();
        for (long i = next[w]; i < ncases; i += nw) {
          if (Now() > deadline) { slot[w]->done = true; break; }
          Slot* s = slot[w];
          s->check = ci;
          s->index = i;
          s->result = 0;
          s->msg[0] = 0;
          s->start = Now();
          uint64_t cs = case_seed(i);
          Ctx c(cs, s);
          std::string msg;
          int r = RunOne(ck, c, &msg);
          strncpy(s->msg, msg.c_str(), sizeof(s->msg) - 1);
          uint64_t h;
          if (!c.key().empty()) h = Fnv(c.key());
          else { h = Fnv(ck.name); for (auto v : c.choices()) h = (h ^ v) * 1099511628211ull + (v << 7); }
          std::string rec = fmt::format("{} {} {:x} {}", r, c.is_nontrivial() ? 1 : 0, h, r == 4 ? msg : "-");
          for (auto& l : c.labels()) rec += "\t" + l;
          if (i < 3 * nw) rec += "\x01" + c.desc().substr(0, 1500);
          rec += "\n";
          if (r == 1 || r == 3 || r == 4) { if (write(statfd[w], rec.data(), rec.size()) < 0) {} }
          s->start = 0;
          s->result = r;
          if (r == 2) _exit(10);
        }
        slot[w]->done = true;
        _exit(0);
      }
      pid[w] = p;
    };
    for (int w = 0; w < nw; ++w) {
      slot[w] = NewSlot();
      next[w] = w;
      errfd[w] = memfd_create("e", 0);
      statfd[w] = memfd_create("s", 0);
      spawn(w);
    }
    int live = nw;
    double grace = 0;
    while (live > 0) {
      bool any = false;
      for (int w = 0; w < nw; ++w) {
        if (pid[w] <= 0) continue;
        int st;
        pid_t r = waitpid(pid[w], &st, WNOHANG);
        if (r == pid[w]) {
          any = true;
          pid[w] = -1;
          --live;
          Slot* s = slot[w];
          auto take = [&](int res, const std::string& m) {
            Outcome o;
            o.result = res;
            o.msg = m;
            o.choices.assign(s->choices, s->choices + std::min<size_t>((size_t)s->nchoices, (size_t)kMaxChoices));
            o.desc.assign(s->desc, s->ndesc);
            failures.push_back({s->index, o});
          };
          if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && s->done) continue;
          if (WIFEXITED(st) && WEXITSTATUS(st) == 10) { take(2, s->msg); continue; }
          if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
            // ended from outside (memory) or by us (hang / stop)
            ++killed;
            if (failures.empty() && killed < 40) { next[w] = s->index + nw; s->done = false; spawn(w); ++live; }
            continue;
          }
          take(5, "crash: " + CrashSummary(ReadFd(errfd[w])));
        } else {
          Slot* s = slot[w];
          double st0 = s->start;
          if (st0 > 0 && Now() - st0 > ck.hang_s && failures.empty()) {
            Outcome o;
            o.result = 6;
            o.msg = "no progress (hang)";
            o.choices.assign(s->choices, s->choices + std::min<size_t>((size_t)s->nchoices, (size_t)kMaxChoices));
            o.desc.assign(s->desc, s->ndesc);
            kill(pid[w], SIGKILL);
            int st2;
            waitpid(pid[w], &st2, 0);
            pid[w] = -1;
            --live;
            Outcome again = RunStored(ci, o.choices, ck.hang_s * 3);
            if (Bad(again)) failures.push_back({s->index, again});
            else {
              hangs[ck.name]++;
              if (hangs[ck.name] < 20) { next[w] = s->index + nw; spawn(w); ++live; }
            }
          }
        }
      }
      if (!failures.empty()) {
        if (grace == 0) grace = Now() + 1.0;   // let slower workers finish earlier cases briefly
        if (Now() > grace) {
          for (int w = 0; w < nw; ++w) if (pid[w] > 0) kill(pid[w], SIGKILL);
          for (int w = 0; w < nw; ++w) if (pid[w] > 0) { int st; waitpid(pid[w], &st, 0); pid[w] = -1; }
          live = 0;
        }
      }
      if (!any) usleep(2000);
    }
    if (Now() >= deadline - 0.01) budget_hit = true;
    for (int w = 0; w < nw; ++w) {
      std::istringstream is(ReadFd(statfd[w]));
      std::string line;
      while (std::getline(is, line)) {
        std::string desc;
        size_t d = line.find('\x01');
        if (d != std::string::npos) { desc = line.substr(d + 1); line.resize(d); }
        std::vector<std::string> parts;
        std::istringstream ls(line);
        std::string tok;
        while (std::getline(ls, tok, '\t')) parts.push_back(tok);
        std::istringstream hs(parts[0]);
        int r, nt;
        std::string h, ex;
        hs >> r >> nt >> h >> ex;
        if (r == 3) { discarded[ck.name]++; continue; }
        if (r == 4) { excluded[ex]++; continue; }
        ++total;
        evals[ck.name]++;
        for (size_t k = 1; k < parts.size(); ++k) labels[ck.name + ":" + parts[k]]++;
        if (nt) {
          ++nontrivial_total;
          distinct.insert(std::stoull(h, nullptr, 16));
          int have = 0;
          for (auto& s : samples) have += s.rfind(ck.name + ":", 0) == 0;
          if (!desc.empty() && have < 2) samples.push_back(ck.name + ": " + desc);
        }
      }
      close(errfd[w]);
      close(statfd[w]);
      munmap(slot[w], sizeof(Slot));
    }
    if (!failures.empty()) {
      std::sort(failures.begin(), failures.end(), [](auto& a, auto& b) { return a.first < b.first; });
      for (auto& f : failures) if (report(ci, f.second, f.first, true)) break;
    }
  }

  double wall = Now() - t0;
  if (!evidence.empty()) {
    auto jmap = [](const std::map<std::string, long>& m) {
      std::string s = "{";
      for (auto& kv : m) s += fmt::format("{}\"{}\": {}", s.size() > 1 ? ", " : "", Esc(kv.first), kv.second);
      return s + "}";
    };
    std::ofstream f(evidence);
    f << "{\"property\": \"" << kProperty.id << "\", \"tier\": \"" << (g_thorough ? "thorough" : "quick") << "\", \"seed\": " << seed
      << ", \"level\": \"exploration\", \"coverage\": {\"evaluations\": " << total << ", \"distinct_nontrivial\": " << distinct.size()
      << ", \"rule\": \"" << Esc(kProperty.rule) << "\", \"samples\": [";
    for (size_t i = 0; i < samples.size(); ++i) f << (i ? ", " : "") << "\"" << Esc(samples[i]) << "\"";
    f << "], \"nontrivial_evaluations\": " << nontrivial_total << ", \"evaluations_by_check\": " << jmap(evals) << ", \"classification\": " << jmap(labels) << ", \"discarded_by_check\": "
      << jmap(discarded) << ", \"excluded_known_findings\": " << jmap(excluded) << ", \"unreproduced_hangs\": " << jmap(hangs)
      << ", \"workers_killed_from_outside\": " << killed << ", \"time_budget_hit\": " << (budget_hit ? "true" : "false")
      << "}, \"assumptions\": [";
    for (size_t i = 0; i < kProperty.assumptions.size(); ++i) f << (i ? ", " : "") << "\"" << Esc(kProperty.assumptions[i]) << "\"";
    f << "], \"wall_s\": " << wall << ", \"violations\": " << (violation ? 1 : 0) << "}\n";
  }
  fmt::print("{}: {} cases, {} distinct non-trivial, {:.1f}s{}\n", kProperty.id, total, distinct.size(), wall, budget_hit ? " (time budget hit)" : "");
  if (violation) {
    fmt::print("{}\n{}\n", vmsg, vline);
    return 1;
  }
  return 0;
}
