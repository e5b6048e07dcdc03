// C19: the tabular logger prints exactly what was logged, where and when it should.
#include <map>

#include "altro/common/solver_logger.hpp"
#include "altro/common/solver_stats.hpp"
#include "pbt.hpp"
using altro::LogEntry;
using altro::LogLevel;
using altro::SolverLogger;
using pbt::Ctx;

const pbt::PropertyInfo pbt::kProperty = {
    "C19",
    "A case is a sequence of logger operations (add columns at positive or negative positions, change widths, levels, bounds, colours, verbosity and header frequency, log values of several types, clear, print headers and rows in all three ways) on a SolverLogger, a single LogEntry, or the logger of a SolverStats; standard output is captured after every operation, its terminal colour sequences are interpreted into coloured characters, and compared with a model table. Non-trivial: at least two columns, one row printed with a logged value and one change of verbosity, column set or value between two rows.",
    {"Column titles are distinct and formats fit the logged type (documented as the user's responsibility); widths are at least 1; the colour of blanks is not compared; if bounds or default changed between logging and printing a value, either colour is accepted."}};

namespace {
struct Ch { char c; int rgb; };   // rgb -1: default
using Scr = std::vector<Ch>;
// Interprets the colour escape sequences.
Scr Parse(const std::string& s) {
  Scr r;
  int col = -1;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] != '\x1b') { r.push_back({s[i], col}); continue; }
    if (i + 1 >= s.size() || s[i + 1] != '[') throw pbt::Failure("malformed escape sequence in the output");
    size_t e = s.find('m', i);
    if (e == std::string::npos) throw pbt::Failure("malformed escape sequence in the output");
    std::vector<int> v;
    int cur = 0;
    for (size_t j = i + 2; j <= e; ++j) {
      if (s[j] == ';' || j == e) { v.push_back(cur); cur = 0; } else cur = cur * 10 + (s[j] - '0');
    }
    for (size_t j = 0; j < v.size(); ++j) {
      if (v[j] == 0) col = -1;
      else if (v[j] == 38 && j + 4 < v.size() && v[j + 1] == 2) { col = v[j + 2] << 16 | v[j + 3] << 8 | v[j + 4]; j += 4; }
      else if (v[j] == 39) col = -1;
    }
    i = e;
  }
  return r;
}
std::string Text(const Scr& s) {
  std::string r;
  for (auto& c : s) r += c.c;
  return r;
}
const fmt::color kColors[] = {fmt::color::white, fmt::color::green, fmt::color::red, fmt::color::yellow, fmt::color::cyan, fmt::color::blue, fmt::color::magenta};
int Rgb(fmt::color c) { return static_cast<int>(c); }

struct Col {
  std::string title, format;
  int width = 10;
  int level = 3;
  bool isint = false;
  bool bounded = false;
  double lo = -HUGE_VAL, hi = HUGE_VAL;
  int clo = Rgb(fmt::color::green), chi = Rgb(fmt::color::red);
  std::string data;
  bool has = false;
  double val = 0;
  std::vector<int> colors{Rgb(fmt::color::white)};   // acceptable colours of the stored value
  int Color(double v) const {
    if (bounded && v < lo) return clo;
    if (bounded && v > hi) return chi;
    return Rgb(fmt::color::white);
  }
  void Touch() { if (has) colors.push_back(Color(val)); }
};
struct ExpCh { char c; std::vector<int> cols; };   // empty cols: any
using Exp = std::vector<ExpCh>;
void Put(Exp* e, const std::string& s, const std::vector<int>& cols) {
  for (char ch : s) e->push_back({ch, ch == ' ' || ch == '\n' ? std::vector<int>{} : cols});
}
std::string Pad(const std::string& s, int w) { return (int)s.size() < w ? std::string(w - s.size(), ' ') + s : s; }

struct Model {
  std::vector<Col> cols;
  int level = 0, freq = 10, count = 0;
  int header = Rgb(fmt::color::white);
  Col* Find(const std::string& t) {
    for (auto& c : cols) if (c.title == t) return &c;
    return nullptr;
  }
  void Header(Exp* e) const {
    if (level == 0) return;
    int tot = 0;
    bool any = false;
    for (auto& c : cols) if (level >= c.level) {
      Put(e, Pad(c.title, c.width), {header});
      Put(e, " ", {});
      tot += c.width + 1;
      any = true;
    }
    if (!any) return;
    Put(e, "\n", {});
    Put(e, std::string(tot, '-'), {header});
    Put(e, "\n", {});
  }
  void Data(Exp* e) const {
    if (level == 0) return;
    bool any = false;
    for (auto& c : cols) if (level >= c.level) {
      Put(e, Pad(c.data, c.width), c.colors);
      Put(e, " ", {});
      any = true;
    }
    if (any) Put(e, "\n", {});
  }
  void Print(Exp* e) {
    if (count % freq == 0) { count = 0; Header(e); }
    Data(e);
    count++;
  }
  void Clear() {
    count = 0;
    for (auto& c : cols) { c.data.clear(); c.has = false; }
  }
};
void Compare(const std::string& out, const Exp& e, const char* op) {
  Scr s = Parse(out);
  std::string want;
  for (auto& x : e) want += x.c;
  EXPECT(Text(s) == want, "after {}: printed\n{}\nexpected\n{}", op, Text(s), want);
  for (size_t i = 0; i < s.size(); ++i) {
    if (e[i].cols.empty()) continue;
    bool ok = false;
    for (int k : e[i].cols) ok = ok || s[i].rgb == k || (s[i].rgb == -1 && k == Rgb(fmt::color::white) && false);
    EXPECT(ok, "after {}: character {} ('{}') of\n{}\nhas colour {:06x}, expected {:06x}", op, i, s[i].c, want, s[i].rgb, e[i].cols[0]);
  }
}
const std::vector<std::string> kIntF = {"{:>4}", "{}", "{:d}", "{:+d}", "{:x}", "{:04}", "{:<3}"};
const std::vector<std::string> kFltF = {"{:.4g}", "{:>.3e}", "{:>.2f}", "{}", "{:+.1f}", "{:>8.2e}", "{:a}"};
const std::vector<std::string> kTitles = {"iters", "cost", "a", "viol", "dJ", "", "grad", "very_long_title_of_a_column", "pen", "z z", "{}", "al"};

struct Logged { std::string text; double v; };
template <class T>
Logged Fmt(const std::string& f, T v) { return {fmt::format(fmt::runtime(f), v), static_cast<double>(v)}; }
// Draws a value, logs it through `log` and returns what it should look like.
template <class F>
Logged DrawLog(Ctx& c, const Col& k, F log) {
  if (k.isint) {
    int kind = c.range(0, 2);
    int v = c.one_of<int>({0, 1, 7, -3, 42, 99999, c.range(-200, 200)});
    if (kind == 1) { long w = (long)v * 1000; log(w); return Fmt(k.format, w); }
    if (kind == 2 && k.format.find('+') == std::string::npos) { unsigned w = std::abs(v); log(w); return Fmt(k.format, w); }
    log(v);
    return Fmt(k.format, v);
  }
  double v = c.chance(1, 2) ? c.real(-12, 12) : c.one_of<double>({0, 1, 1e-9, -1e-3, 1e20, 0.5, 3, -0.0, HUGE_VAL, -HUGE_VAL, NAN});
  if (k.bounded && c.chance(1, 4)) v = c.chance(1, 2) && std::isfinite(k.lo) ? k.lo : std::isfinite(k.hi) ? k.hi : v;
  if (c.chance(1, 5)) { float w = (float)v; log(w); return Fmt(k.format, w); }
  log(v);
  return Fmt(k.format, v);
}
void Bounds(Ctx& c, Col* k, LogEntry& e) {
  double b = c.one_of<double>({0, 1, -1, 0.5, 5, -3});
  fmt::color col = kColors[c.range(0, 6)];
  bool dflt = c.chance(1, 3);
  if (c.chance(1, 2)) {
    if (b > k->hi) return;
    if (dflt) { e.SetLowerBound(b); col = fmt::color::green; } else e.SetLowerBound(b, col);
    k->lo = b; k->clo = Rgb(col);
  } else {
    if (b < k->lo) return;
    if (dflt) { e.SetUpperBound(b); col = fmt::color::red; } else e.SetUpperBound(b, col);
    k->hi = b; k->chi = Rgb(col);
  }
  k->bounded = true;
  c.note("bounds {} [{},{}]", k->title, k->lo, k->hi);
  k->Touch();
}
template <class F>
std::string Cap(F f) {
  pbt::CaptureStdout cap;
  f();
  return cap.Stop();
}
LogLevel L(int l) { return static_cast<LogLevel>(l); }

void Ops(Ctx& c, SolverLogger& lg, Model& m, int steps, bool add) {
  size_t next = 0;
  int rows = 0, changed = 0;
  for (int s = 0; s < steps; ++s) {
    Exp e;
    std::string out;
    const char* op = "";
    int what = c.range(0, 15);
    if (add && (m.cols.empty() || what == 0) && next < kTitles.size()) {
      op = "AddEntry";
      Col k;
      k.title = kTitles[next++];
      k.isint = c.chance(2, 5);
      k.format = c.pick(k.isint ? kIntF : kFltF);
      int n = m.cols.size();
      int col = c.range(-n - 1, n);
      out = Cap([&] {
        LogEntry& en = c.chance(1, 3) ? lg.AddEntry(col, k.title, k.format) : lg.AddEntry(col, k.title, k.format, k.isint ? LogEntry::kInt : LogEntry::kFloat);
        if (c.chance(1, 2)) { k.width = c.range(1, 14); en.SetWidth(k.width); }
        if (c.chance(2, 3)) { k.level = c.range(1, 5); en.SetLevel(L(k.level)); }
        if (c.chance(1, 5)) en.SetName("some name");
        if (c.chance(1, 5)) en.SetType(LogEntry::kString);
      });
      int pos = col < 0 ? n + 1 + col : col;
      m.cols.insert(m.cols.begin() + pos, k);
      c.note("add {} at {} fmt {} w {} lvl {}", k.title, col, k.format, k.width, k.level);
      changed++;
    } else if (what == 1) {
      op = "SetLevel";
      int l = c.range(0, 5);
      out = Cap([&] { if (l == 0 && c.chance(1, 2)) lg.Disable(); else lg.SetLevel(L(l)); });
      m.level = l;
      c.note("level {}", l);
      EXPECT(lg.GetLevel() == L(l), "level is {}", (int)lg.GetLevel());
      changed++;
    } else if (what == 2 && !m.cols.empty()) {
      op = "entry settings";
      Col& k = m.cols[c.below(m.cols.size())];
      LogEntry& en = lg.GetEntry(k.title);
      int w = c.range(0, 2);
      out = Cap([&] {
        if (w == 0) { k.width = c.range(1, 14); en.SetWidth(k.width); c.note("width {} {}", k.title, k.width); }
        if (w == 1) { k.level = c.range(1, 5); en.SetLevel(L(k.level)); c.note("entry level {} {}", k.title, k.level); }
        if (w == 2) Bounds(c, &k, en);
      });
      changed++;
    } else if (what == 3) {
      op = "SetFrequency";
      int f = c.one_of<int>({1, 2, 3, 5, 10, std::numeric_limits<int>::max()});
      out = Cap([&] { lg.SetFrequency(f); });
      m.freq = f;
      c.note("freq {}", f);
    } else if (what == 4) {
      op = "SetHeaderColor";
      auto col = kColors[c.range(0, 6)];
      out = Cap([&] { lg.SetHeaderColor(col); });
      m.header = Rgb(col);
    } else if (what == 5) {
      op = "Clear";
      out = Cap([&] { lg.Clear(); });
      m.Clear();
      c.note("clear");
      changed++;
    } else if (what == 6) {
      op = "PrintHeader";
      out = Cap([&] { lg.PrintHeader(); });
      m.Header(&e);
      c.note("header");
    } else if (what == 7) {
      op = "PrintData";
      out = Cap([&] { lg.PrintData(); });
      m.Data(&e);
      c.note("data");
      rows += !e.empty();
    } else if (what <= 10) {
      op = "Print";
      int reps = c.chance(1, 4) ? c.range(2, 12) : 1;
      out = Cap([&] { for (int i = 0; i < reps; ++i) lg.Print(); });
      for (int i = 0; i < reps; ++i) m.Print(&e);
      c.note("print x{}", reps);
      rows += !e.empty();
    } else if (!m.cols.empty()) {
      op = "Log";
      Col& k = m.cols[c.below(m.cols.size())];
      Logged v{"", 0};
      out = Cap([&] { v = DrawLog(c, k, [&](auto x) { lg.Log(k.title, x); }); });
      if (m.level > 0 && m.level >= k.level) {
        k.data = v.text;
        k.val = v.v;
        k.has = true;
        k.colors = {k.Color(v.v)};
        changed++;
      }
      c.note("log {}={}", k.title, v.text);
    }
    Compare(out, e, op);
    EXPECT(lg.NumEntries() == (int)m.cols.size(), "{} entries, {} were added", lg.NumEntries(), m.cols.size());
  }
  if (rows >= 2 && changed >= 2 && m.cols.size() >= 2) c.nontrivial();
}
}  // namespace

PBT_CHECK(table, 80000, 2000000) {
  Model m;
  m.level = c.chance(1, 4) ? 0 : c.range(1, 5);
  SolverLogger lg = m.level == 0 && c.chance(1, 2) ? SolverLogger() : SolverLogger(L(m.level));
  EXPECT(lg.GetLevel() == L(m.level), "initial level");
  c.note("initial level {}", m.level);
  Ops(c, lg, m, c.range(4, 60), true);
}

// The logger set up by the statistics object: documented columns and order.
PBT_CHECK(stats, 12000, 200000) {
  altro::SolverStats st;
  Model m;
  SolverLogger& lg = st.GetLogger();
  m.level = 0;
  m.header = Rgb(fmt::color::yellow);
  struct D { const char* t; const char* f; int w, l; };
  const D d[] = {{"iters", "{:>4}", 6, 2}, {"iter_al", "{:>4}", 8, 1}, {"cost", "{:>.4g}", 10, 3}, {"viol", "{:>.3e}", 10, 3}, {"dJ", "{:>.2e}", 10, 3},
                 {"grad", "{:>.2e}", 10, 2}, {"alpha", "{:>.2f}", 6, 3}, {"reg", "{:>.1e}", 7, 4}, {"z", "{:>.3f}", 5, 4}, {"pen", "{:>.1e}", 7, 5}};
  for (auto& x : d) {
    Col k;
    k.title = x.t;
    k.format = lg.GetEntry(x.t).GetFormat();
    k.width = lg.GetEntry(x.t).GetWidth();
    k.level = (int)lg.GetEntry(x.t).GetLevel();
    EXPECT(k.level >= 1 && k.level <= 5 && k.width >= 1, "column {} level {} width {}", x.t, k.level, k.width);
    k.isint = std::string(x.t).find("iter") == 0;
    m.cols.push_back(k);
  }
  EXPECT(lg.NumEntries() == 10, "{} columns", lg.NumEntries());
  if (c.chance(2, 3)) {   // tolerances colour the converged values
    double a = c.logreal(1e-6, 1), b = c.logreal(1e-6, 1), g = c.logreal(1e-6, 1);
    st.SetTolerances(a, b, g);
    c.note("tolerances {} {} {}", a, b, g);
    m.Find("dJ")->lo = a; m.Find("viol")->lo = b; m.Find("grad")->lo = g;
    for (auto t : {"dJ", "viol", "grad"}) m.Find(t)->bounded = true;
  }
  if (c.chance(2, 3)) {   // settings taken from the options at the start of a solve
    auto& o = st.GetOptions();
    o.verbose = L(c.range(0, 5));
    o.header_frequency = c.one_of<int>({1, 2, 3, 7});
    st.Reset();
    m.level = (int)o.verbose;
    m.freq = m.level < 3 ? o.header_frequency : std::numeric_limits<int>::max();
    c.note("reset with verbosity {} header every {}", m.level, o.header_frequency);
  } else {
    m.level = c.range(1, 5);
    st.SetVerbosity(L(m.level));
  }
  // interleave logging through the statistics object
  int rows = 0;
  int steps = c.range(5, 40);
  for (int s = 0; s < steps; ++s) {
    Exp e;
    std::string out;
    int w = c.range(0, 9);
    if (w == 0) {
      out = Cap([&] { st.NewIteration(); });
    } else if (w <= 3) {
      out = Cap([&] { st.PrintLast(); });
      m.Print(&e);
      rows += !e.empty();
      c.note("print");
    } else if (w == 4 && c.chance(1, 2)) {
      m.level = c.range(0, 5);
      st.SetVerbosity(L(m.level));
      c.note("verbosity {}", m.level);
    } else {
      Col& k = m.cols[c.below(m.cols.size())];
      Logged v{"", 0};
      out = Cap([&] { v = DrawLog(c, k, [&](auto x) { st.Log(k.title, x); }); });
      if (m.level > 0 && m.level >= k.level) {
        k.data = v.text; k.val = v.v; k.has = true; k.colors = {k.Color(v.v)};
      }
      c.note("log {}={}", k.title, v.text);
    }
    Compare(out, e, "stats operation");
  }
  if (rows >= 2) c.nontrivial();
  if (c.chance(1, 2)) Ops(c, lg, m, c.range(2, 15), false);
}

// A single entry on its own.
PBT_CHECK(entry, 16000, 300000) {
  Col k;
  k.title = c.pick(kTitles);
  k.isint = c.chance(1, 3);
  k.format = c.pick(k.isint ? kIntF : kFltF);
  LogEntry en(k.title, k.format, k.isint ? LogEntry::kInt : LogEntry::kFloat);
  EXPECT(en.GetTitle() == k.title && en.GetFormat() == k.format && en.GetType() == (k.isint ? LogEntry::kInt : LogEntry::kFloat), "accessors");
  c.note("entry {} {}", k.title, k.format);
  int steps = c.range(1, 20), printed = 0;
  for (int s = 0; s < steps; ++s) {
    Exp e;
    std::string out;
    switch (c.range(0, 6)) {
      case 0: k.width = c.range(1, 14); en.SetWidth(k.width); EXPECT(en.GetWidth() == k.width, "width"); break;
      case 1: k.level = c.range(1, 5); en.SetLevel(L(k.level)); EXPECT(en.GetLevel() == L(k.level), "level"); break;
      case 2: Bounds(c, &k, en); break;
      case 3: {
        int l = c.range(0, 5);
        EXPECT(en.IsActive(L(l)) == (l >= k.level), "active at {} with level {}", l, k.level);
        if (c.chance(1, 3)) {
          auto col = kColors[c.range(0, 6)];
          out = Cap([&] { en.PrintHeader(L(l), col); });
          if (l >= k.level) Put(&e, Pad(k.title, k.width), {Rgb(col)});
        } else {
          out = Cap([&] { en.Print(L(l)); });
          if (l >= k.level) { Put(&e, Pad(k.data, k.width), k.colors); printed++; }
        }
        break;
      }
      case 4: {
        Logged v = DrawLog(c, k, [&](auto x) { en.Log(x); });
        k.data = v.text; k.val = v.v; k.has = true; k.colors = {k.Color(v.v)};
        break;
      }
      case 5: {   // log and print in one command
        Logged v{"", 0};
        out = Cap([&] { v = DrawLog(c, k, [&](auto x) { en.Print(x); }); });
        k.data = v.text; k.val = v.v; k.has = true; k.colors = {k.Color(v.v)};
        Put(&e, Pad(k.data, k.width), k.colors);
        printed++;
        c.note("log and print {}", v.text);
        break;
      }
      case 6: en.Clear(); k.data.clear(); k.has = false; break;
    }
    Compare(out, e, "entry operation");
  }
  if (printed > 1) c.nontrivial();
}
