// C10: thread pool and thread-safe queue.
#include <altro/common/threadpool.hpp>
#include <altro/common/threadsafe_queue.hpp>

#include <chrono>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <thread>

#include "pbt.hpp"
using altro::ThreadPool;
using altro::ThreadSafeQueue;
using pbt::Ctx;

const pbt::PropertyInfo pbt::kProperty = {
    "C10",
    "Histories of queue operations (push, pop, clear, size, emptiness, move construction, move assignment, also of and over "
    "moved-from queues) against a plain sequence; concurrent producers, consumers and clearers with generated thread counts, "
    "volumes and timing noise; histories of pool operations (submitting before and after launching, from inside the owner "
    "only, waiting, stopping, relaunching with other thread counts, moving, short timeouts) with per-task execution counts "
    "and effects written to plain memory. Run under the address sanitizer and the thread sanitizer. Non-trivial: at least "
    "two threads work on the object, or the history contains a clear or a move of a non-empty queue.",
    {"tasks are submitted to a pool by one thread at a time (its interface stores the futures without locking)",
     "a pool is moved only while stopped; moved-from objects are only destroyed or assigned to"}};

namespace {
// Pseudo-random noise that is part of the case (not a choice per step).
struct Noise {
  uint64_t s;
  explicit Noise(uint64_t seed) : s(seed * 2862933555777941757ull + 3037000493ull) {}
  uint32_t next() {
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    return (uint32_t)(s >> 33);
  }
  void spin(int level) {
    if (level == 0) return;
    uint32_t r = next() % 16;
    if (r == 0) std::this_thread::yield();
    else if (r == 1 && level > 1) std::this_thread::sleep_for(std::chrono::microseconds(next() % 50));
    else if (r < 5) for (volatile int i = 0; i < (int)(next() % 200); ++i) {}
  }
};

template <class T>
struct Item;
template <>
struct Item<int> {
  static int Make(int v) { return v; }
  static int Get(const int& t) { return t; }
};
template <>
struct Item<std::unique_ptr<int>> {
  static std::unique_ptr<int> Make(int v) { return std::make_unique<int>(v); }
  static int Get(const std::unique_ptr<int>& t) { return t ? *t : -1; }
};
template <>
struct Item<std::string> {
  static std::string Make(int v) { return std::string(40, 'x') + std::to_string(v); }
  static int Get(const std::string& t) { return t.size() > 40 ? std::stoi(t.substr(40)) : -1; }
};

template <class T>
void QueueHistory(Ctx& c) {
  using Q = ThreadSafeQueue<T>;
  struct Obj {
    std::unique_ptr<Q> q;
    std::deque<int> r;
    bool moved_from = false;
  };
  std::vector<Obj> o(2);
  for (auto& x : o) x.q = std::make_unique<Q>();
  int id = 0, nops = c.range(1, 40);
  for (int i = 0; i < nops; ++i) {
    size_t a = c.below(2), b = 1 - a;
    int op = c.range(0, 9);
    c.note("op{} on {}", op, a);
    Obj& x = o[a];
    if (x.moved_from && op != 6) {  // only assignment and destruction
      if (op % 2) {
        x.q = std::make_unique<Q>();
        x.r.clear();
        x.moved_from = false;
      }
      continue;
    }
    switch (op) {
      case 0: case 1: case 2: {
        int k = c.range(1, 4);
        for (int j = 0; j < k; ++j) {
          x.q->Push(Item<T>::Make(id));
          x.r.push_back(id++);
        }
        break;
      }
      case 3: case 4: {
        T v = Item<T>::Make(-1);
        bool got = x.q->TryPop(v);
        EXPECT(got == !x.r.empty(), "pop returned {} with {} elements", got, x.r.size());
        if (got) {
          EXPECT(Item<T>::Get(v) == x.r.front(), "popped {} instead of {}", Item<T>::Get(v), x.r.front());
          x.r.pop_front();
        } else {
          EXPECT(Item<T>::Get(v) == -1, "a failed pop changed its output");
        }
        break;
      }
      case 5: {
        if (!x.r.empty()) c.nontrivial();
        x.q->Clear();
        x.r.clear();
        break;
      }
      case 6: {  // move-assign from the other queue
        if (o[b].moved_from) break;
        if (!o[b].r.empty()) c.nontrivial();
        *x.q = std::move(*o[b].q);
        x.r = o[b].r;
        x.moved_from = false;
        o[b].moved_from = true;
        o[b].r.clear();
        break;
      }
      case 7: {  // move-construct
        if (!x.r.empty()) c.nontrivial();
        auto q = std::make_unique<Q>(std::move(*x.q));
        x.q = std::move(q);
        break;
      }
      case 8: {  // drain
        T v = Item<T>::Make(-1);
        while (x.q->TryPop(v)) {
          EXPECT(!x.r.empty() && Item<T>::Get(v) == x.r.front(), "drained {} out of order", Item<T>::Get(v));
          x.r.pop_front();
        }
        EXPECT(x.r.empty(), "{} elements lost", x.r.size());
        break;
      }
      default: break;
    }
    for (auto& y : o)
      if (!y.moved_from) {
        EXPECT(y.q->Size() == y.r.size(), "size {} with {} elements", y.q->Size(), y.r.size());
        EXPECT(y.q->IsEmpty() == y.r.empty(), "emptiness {} with {} elements", y.q->IsEmpty(), y.r.size());
      }
  }
}
}  // namespace

PBT_CHECK_T(queue_history, 20000, 500000, 8) {
  switch (c.below(3)) {
    case 0: QueueHistory<int>(c); break;
    case 1: QueueHistory<std::unique_ptr<int>>(c); break;
    default: QueueHistory<std::string>(c);
  }
}

PBT_CHECK_T(queue_large, 20, 200, 30) {
  int n = c.range(1, 400) * 1000;
  c.note("{} elements", n);
  c.nontrivial();
  auto q = std::make_unique<ThreadSafeQueue<int>>();
  for (int i = 0; i < n; ++i) q->Push(i);
  EXPECT(q->Size() == (size_t)n, "size {}", q->Size());
  switch (c.range(0, 2)) {
    case 0: q->Clear(); EXPECT(q->Size() == 0 && q->IsEmpty(), "not empty after clearing"); break;
    case 1: {
      ThreadSafeQueue<int> r;
      r.Push(1);
      r = std::move(*q);
      EXPECT(r.Size() == (size_t)n, "size {} after a move", r.Size());
      break;
    }
    default: break;
  }
  q.reset();
}

PBT_CHECK_T(queue_concurrent, 500, 20000, 40) {
  int P = c.range(1, 4), C = c.range(1, 4), per = c.range(1, 300), noise = c.range(0, 2);
  bool clearer = c.chance(1, 4), observer = c.chance(1, 3);
  uint64_t seed = c.bits();
  c.note("producers={} consumers={} per={} noise={} clearer={} observer={}", P, C, per, noise, clearer, observer);
  if (P + C > 2) c.nontrivial();
  ThreadSafeQueue<std::pair<int, int>> q;
  std::atomic<bool> done{false}, go{false};
  std::vector<std::vector<std::pair<int, int>>> got(C);
  std::vector<std::thread> prod, cons;
  for (int p = 0; p < P; ++p)
    prod.emplace_back([&, p] {
      Noise z(seed + p);
      while (!go) {}
      for (int i = 0; i < per; ++i) {
        q.Push({p, i});
        z.spin(noise);
      }
    });
  for (int k = 0; k < C; ++k)
    cons.emplace_back([&, k] {
      Noise z(seed + 100 + k);
      while (!go) {}
      while (true) {
        bool fin = done;
        std::pair<int, int> v;
        if (q.TryPop(v)) {
          got[k].push_back(v);
          z.spin(noise);
        } else if (fin) {
          break;
        } else {
          std::this_thread::yield();
        }
      }
    });
  std::thread cl, ob;
  if (clearer) cl = std::thread([&] {
    Noise z(seed + 999);
    while (!go) {}
    for (int i = 0; i < 5; ++i) {
      z.spin(2);
      q.Clear();
    }
  });
  if (observer) ob = std::thread([&] {
    while (!done) {
      (void)q.IsEmpty();
      (void)q.Size();
    }
  });
  go = true;
  for (auto& t : prod) t.join();
  if (cl.joinable()) cl.join();
  done = true;
  for (auto& t : cons) t.join();
  if (ob.joinable()) ob.join();
  std::set<std::pair<int, int>> seen;
  for (auto& g : got) {
    std::map<int, int> last;
    for (auto& v : g) {
      EXPECT(v.first >= 0 && v.first < P && v.second >= 0 && v.second < per, "popped an element that was never pushed");
      EXPECT(seen.insert(v).second, "element {} of producer {} popped twice", v.second, v.first);
      auto it = last.find(v.first);
      EXPECT(it == last.end() || it->second < v.second, "producer {}: element {} popped after {}", v.first, v.second, it->second);
      last[v.first] = v.second;
    }
  }
  if (!clearer) EXPECT((int)seen.size() == P * per, "{} of {} elements popped", seen.size(), P * per);
  EXPECT(q.IsEmpty() && q.Size() == 0, "quiescent queue reports size {} emptiness {}", q.Size(), q.IsEmpty());
  q.Push({7, 7});
  EXPECT(q.Size() == 1 && !q.IsEmpty(), "quiescent queue with one element reports size {}", q.Size());
  std::pair<int, int> v;
  EXPECT(q.TryPop(v) && v.first == 7, "queue unusable after concurrent use");
}

// ------------------------------------------------------------------------------------ pool
namespace {
struct Task {
  std::unique_ptr<std::atomic<int>> runs = std::make_unique<std::atomic<int>>(0);
  int effect = 0;  // plain memory: visibility after Wait
  bool submitted = false;
};
}  // namespace

PBT_CHECK_T(pool_history, 500, 20000, 60) {
  auto pool = std::make_unique<ThreadPool>();
  // generous, so that a loaded machine does not exceed it while work is in progress
  auto generous = std::chrono::seconds(100);
  pool->SetTimeoutPerTask(generous);
  std::deque<Task> tasks;   // stable addresses
  bool running = false;
  int nthreads = 0;
  int noise = c.range(0, 2);
  uint64_t seed = c.bits();
  std::string out;
  auto submit = [&](int k) {
    for (int j = 0; j < k; ++j) {
      tasks.emplace_back();
      Task* t = &tasks.back();
      int id = (int)tasks.size();
      auto fn = [t, id, seed, noise]() {
        Noise z(seed + id);
        z.spin(noise);
        ++*t->runs;
        t->effect = id;
      };
      if (j % 2) pool->AddTask(std::function<void()>(fn));
      else pool->AddTask(fn);
    }
  };
  auto all_done = [&](const char* when) {
    for (size_t i = 0; i < tasks.size(); ++i) {
      EXPECT(*tasks[i].runs == 1, "task {} ran {} times {}", i, tasks[i].runs->load(), when);
      EXPECT(tasks[i].effect == (int)i + 1, "effect of task {} is not visible {}", i, when);
    }
  };
  int nops = c.range(1, 18);
  pbt::CaptureStdout cap;
  for (int i = 0; i < nops; ++i) {
    int op = c.range(0, 9);
    c.note("op{}", op);
    switch (op) {
      case 0: case 1: case 2: {
        int k = c.range(1, 30);
        c.note("+{}", k);
        submit(k);
        if (!running) {
          int pending = 0;
          for (auto& t : tasks) pending += *t.runs == 0;
          EXPECT((int)pool->NumTasks() == pending, "stopped pool reports {} queued tasks, {} are pending", pool->NumTasks(), pending);
        }
        break;
      }
      case 3: case 4: {
        if (running) break;
        nthreads = c.range(1, 8);
        c.note("launch {}", nthreads);
        if (nthreads > 1) c.nontrivial();
        pool->LaunchThreads(nthreads);
        running = true;
        EXPECT(pool->IsRunning() && (int)pool->NumThreads() == nthreads, "running pool reports {} threads", pool->NumThreads());
        break;
      }
      case 5: case 6: {
        if (!running) break;
        pool->Wait();
        all_done("after waiting");
        EXPECT(pool->NumTasks() == 0, "{} tasks queued after waiting", pool->NumTasks());
        break;
      }
      case 7: {
        if (!running) break;
        pool->StopThreads();
        running = false;
        EXPECT(!pool->IsRunning() && pool->NumThreads() == 0, "stopped pool reports {} threads", pool->NumThreads());
        int pending = 0;
        for (size_t j = 0; j < tasks.size(); ++j) {
          EXPECT(*tasks[j].runs <= 1, "task {} ran {} times", j, tasks[j].runs->load());
          pending += *tasks[j].runs == 0;
        }
        EXPECT((int)pool->NumTasks() == pending, "stopped pool reports {} queued tasks, {} are pending", pool->NumTasks(), pending);
        break;
      }
      case 8: {
        if (running) break;
        std::unique_ptr<ThreadPool> p;
        if (c.chance(1, 2)) {
          p = std::make_unique<ThreadPool>(std::move(*pool));
        } else {
          p = std::make_unique<ThreadPool>();
          if (c.chance(1, 2)) p->AddTask([]() {});
          if (c.chance(1, 3)) {
            p->LaunchThreads(2);
            p->Wait();
            p->StopThreads();
          }
          *p = std::move(*pool);
        }
        pool = std::move(p);
        EXPECT(!pool->IsRunning(), "a moved idle pool claims to be running");
        break;
      }
      default: {  // a wait that runs into its timeout does not lose the tasks it gave up on
        if (running) break;
        bool pending = false;
        for (auto& t : tasks) pending |= *t.runs == 0;
        int np = 0;
        for (auto& t : tasks) np += *t.runs == 0;
        if (!pending || np > 30) break;
        c.label("timed-out wait");
        pool->SetTimeoutPerTask(std::chrono::microseconds(200));
        pool->Wait();
        pool->SetTimeoutPerTask(generous);
        for (size_t j = 0; j < tasks.size(); ++j) EXPECT(*tasks[j].runs <= 1, "task {} ran {} times", j, tasks[j].runs->load());
      }
    }
  }
  bool direct = running && c.chance(1, 2);
  if (!running && c.chance(3, 4)) {
    pool->LaunchThreads(c.range(1, 4));
    running = direct = true;
  }
  if (direct) {
    pool->Wait();
    all_done("after the last wait");
  }
  pool.reset();
  for (size_t j = 0; j < tasks.size(); ++j) EXPECT(*tasks[j].runs <= 1, "task {} ran {} times", j, tasks[j].runs->load());
  out = cap.Stop();
}

// The timeout bounds each wait, and a timed-out wait says so.
PBT_CHECK_T(pool_timeout, 40, 1000, 60) {
  ThreadPool pool;
  int ms = c.range(1, 20);
  std::atomic<int> release{0}, runs{0};
  int ntasks = c.range(1, 3);
  pool.SetTimeoutPerTask(std::chrono::milliseconds(ms));
  c.note("timeout {} ms, {} tasks", ms, ntasks);
  c.nontrivial();
  for (int i = 0; i < ntasks; ++i) pool.AddTask([&]() {
    while (!release) std::this_thread::yield();
    runs++;
  });
  pool.LaunchThreads(c.range(1, 3));
  auto t0 = std::chrono::steady_clock::now();
  std::string out;
  {
    pbt::CaptureStdout cap;
    pool.Wait();
    out = cap.Stop();
  }
  double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  EXPECT(runs == 0, "a task finished before it was released");
  EXPECT(el >= 0.9e-3 * ms, "the wait gave up after {:.4f} s with a timeout of {} ms", el, ms);
  EXPECT(!out.empty(), "a timed-out wait printed nothing");
  release = 1;
  pool.SetTimeoutPerTask(std::chrono::seconds(100));
  pool.Wait();   // everything submitted so far
  EXPECT(runs == ntasks, "{} of {} tasks finished when a wait within its timeout returned", runs.load(), ntasks);
}

// A task that throws is reported to the waiting thread, once everything has finished.
// (Not under the thread sanitizer: the reference count of an exception object lives in the
// uninstrumented C++ runtime, which it reports as a race.)
#ifndef __SANITIZE_THREAD__
PBT_CHECK_T(pool_exception, 200, 4000, 60) {
  ThreadPool pool;
  pool.SetTimeoutPerTask(std::chrono::seconds(100));
  int n = c.range(1, 12), bad = c.range(0, n - 1);
  bool second = c.chance(1, 3);
  c.note("{} tasks, task {} throws, second {}", n, bad, second);
  if (n > 1) c.nontrivial();
  std::vector<int> eff(n, 0);
  for (int i = 0; i < n; ++i)
    pool.AddTask([&eff, i, bad, second]() {
      eff[i] = 1;
      if (i == bad || (second && i > bad)) throw std::runtime_error("task failed");
    });
  pool.LaunchThreads(c.range(1, 4));
  bool thrown = false;
  try {
    pool.Wait();
  } catch (const std::runtime_error& e) {
    thrown = std::string(e.what()) == "task failed";
  }
  for (int i = 0; i < n; ++i) EXPECT(eff[i] == 1, "task {} had not run when the wait ended", i);
  EXPECT(thrown, "the failure of a task was swallowed");
  int after = 0;
  pool.AddTask([&]() { after = 1; });
  pool.Wait();
  EXPECT(after == 1, "the pool is unusable after a failed task");
}
#endif
