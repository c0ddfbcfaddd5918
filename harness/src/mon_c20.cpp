// C20: what the debug logger writes. File descriptors 1 and 2 are redirected to files around
// each call, so everything the process emits is seen, however it is written.
#include "trans.hpp"
#include <iostream>
using namespace hist;
extern "C" void __sanitizer_set_report_fd(void *) __attribute__((weak));

namespace
{
const char * NAMES[5] = {"FATAL", "ERROR", "WARN ", "INFO ", "DEBUG"};

struct Capture
{
  int fo, fe, so, se;
  off_t po = 0, pe = 0;
  std::string dir;
  explicit Capture(const std::string & d)
  : dir(d)
  {
    mkdir(d.c_str(), 0755);
    std::string n = d + strf("/cap%d", int(getpid()));
    fo = open((n + "o").c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
    fe = open((n + "e").c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
    unlink((n + "o").c_str());
    unlink((n + "e").c_str());
    so = dup(1);
    se = dup(2);
    if (__sanitizer_set_report_fd) {__sanitizer_set_report_fd((void *)(intptr_t)se);}
  }
  template<class F> void operator()(F f, std::string & o, std::string & e)
  {
    std::cout.flush();
    fflush(nullptr);
    dup2(fo, 1);
    dup2(fe, 2);
    struct Back
    {
      Capture & c;
      ~Back()
      {
        std::cout.flush();
        std::cerr.flush();
        fflush(stdout);
        fflush(stderr);
        dup2(c.so, 1);
        dup2(c.se, 2);
      }
    };
    {
      Back b{*this};
      f();
    }
    o = rest(fo);
    e = rest(fe);
  }
  static std::string rest(int fd)
  {
    off_t n = lseek(fd, 0, SEEK_END);
    std::string s(size_t(n), 0);
    (void)!pread(fd, &s[0], size_t(n), 0);
    (void)!ftruncate(fd, 0);
    lseek(fd, 0, SEEK_SET);
    return s;
  }
};
Capture & cap(Mon & M)
{
  static Capture c(M.scratch);
  return c;
}

std::string message(Rng & R)
{
  std::string s;
  int n = R.b(0.1) ? 0 : R.b(0.05) ? R.i(5000, 60000) : R.i(1, 80);
  for (int k = 0; k < n; ++k) {
    s += R.b(0.1) ? R.pick(std::vector<std::string>{"%s", "%n", "\n", "\t", "{}", "[INFO ]: ", "\\", "\"", "é", std::string(1, '\0')}) :
      std::string(1, char(R.i(32, 126)));
  }
  return s;
}

void direct(Mon & M, Rng & R)
{
  Capture & C = cap(M);
  struct L
  {
    std::unique_ptr<DebugLogger> l;
    int level;
  };
  std::vector<L> ls;
  Hash h;
  int nl = R.i(1, 4), written = 0, silent = 0;
  for (int k = 0; k < nl; ++k) {
    int lv = R.i(0, 4);
    unsigned big = R.b(0.1) ? unsigned(R.i(5, 1000)) : unsigned(lv);
    L x;
    std::string o, e;
    C([&] {
        if (R.b()) {
          x.l.reset(new DebugLogger(static_cast<LogLevel>(lv), "/nonexistent/"));
        } else {
          x.l.reset(new DebugLogger(big, R.b() ? "" : "/nonexistent/"));
          lv = int(std::min(big, 4u));
        }
      }, o, e);
    x.level = lv;
    M.check(o.empty() && e.empty(), "construction-output", o + e);
    ls.push_back(std::move(x));
  }
  int n = R.i(10, 60);
  for (int k = 0; k < n; ++k) {
    L & x = ls[size_t(R.i(0, nl - 1))];
    std::string o, e;
    if (R.b(0.2)) {
      int lv = R.i(0, 4);
      unsigned big = R.b(0.1) ? (R.b() ? unsigned(R.i(5, 1000)) : 4294967295u) : unsigned(lv);
      bool asInt = R.b();
      if (asInt) {lv = int(std::min(big, 4u));}
      C([&] {
          if (asInt) {x.l->SetLogLevel(big);} else {x.l->SetLogLevel(static_cast<LogLevel>(lv));}
        }, o, e);
      x.level = lv;
      M.check(e.empty() && (o.empty() || o.find(NAMES[lv]) != std::string::npos), "level-change-output", strf("to %d: ", lv) + o + e);
      M.ev("level_changes");
      h.add(uint64_t(lv));
    } else {
      int lv = R.i(0, 4);
      std::string m = message(R);
      C([&] {x.l->Log(static_cast<LogLevel>(lv), m);}, o, e);
      bool due = lv <= x.level;
      std::string want = due ? "[" + std::string(NAMES[lv]) + "]: " + m + "\n" : "";
      std::string ctx = strf("message level %d, logger level %d: got out=", lv, x.level) + o.substr(0, 120) + " err=" + e.substr(0, 120) + " want " +
        want.substr(0, 120);
      if (due) {
        M.check(!(o + e).empty(), "message-dropped", ctx);
        M.check(o + e == want, "message-text", ctx);
        M.check((lv >= 3 ? e : o).empty(), "message-stream", ctx);
        ++written;
      } else {
        M.check(o.empty() && e.empty(), "message-below-level", ctx);
        ++silent;
      }
      M.ev(due ? "messages_written" : "messages_silent");
      h.add(uint64_t(lv)).add(uint64_t(m.size()));
    }
  }
  M.done(h.h, written && silent, strf("%d loggers, %d calls, %d written", nl, n, written));
}

// splits a stream into (level, text) entries; text continues until the next prefix
std::vector<std::pair<int, std::string>> entries(const std::string & s, bool & ok)
{
  std::vector<std::pair<int, std::string>> o;
  size_t at = 0;
  while (at < s.size()) {
    size_t nl = s.find('\n', at);
    std::string line = s.substr(at, nl == std::string::npos ? std::string::npos : nl - at);
    at = nl == std::string::npos ? s.size() : nl + 1;
    int lv = -1;
    for (int k = 0; k < 5; ++k) {
      if (line.rfind("[" + std::string(NAMES[k]) + "]: ", 0) == 0) {lv = k;}
    }
    if (lv >= 0) {
      o.push_back({lv, line});
    } else if (!o.empty()) {
      o.back().second += "\n" + line;
    } else {
      ok = false;
    }
  }
  return o;
}

// the same history under every level: same estimate, and the output is the part of the full output that is due
void filter(Mon & M, Rng & R)
{
  Capture & C = cap(M);
  Cfg c = randomCfg(R);
  std::vector<std::unique_ptr<World>> ws;
  std::vector<std::string> o(5), e(5);
  for (int k = 4; k >= 0; --k) {
    c.log_level = static_cast<LogLevel>(k);
    std::unique_ptr<World> w;
    std::string a, b;
    C([&] {w.reset(new World(c));}, a, b);
    o[size_t(k)] += a;
    e[size_t(k)] += b;
    ws.insert(ws.begin(), std::move(w));
  }
  Weights W;
  Hash h;
  int nops = R.i(6, 30), total = 0;
  for (int q = 0; q < nops; ++q) {
    Op op = genOp(R, *ws[4], W);
    std::string ctx = strf("op %d %s ", q, describe(op).c_str()) + cfgs(c);
    unsigned fn = ws[4]->frame_no;
    for (int k = 4; k >= 0; --k) {
      ws[size_t(k)]->frame_no = fn;
      std::string a, b;
      C([&] {ws[size_t(k)]->apply(op);}, a, b);
      o[size_t(k)] += a;
      e[size_t(k)] += b;
    }
    for (int k = 0; k < 4; ++k) {
      auto & x = *ws[size_t(k)]->ekf;
      auto & y = *ws[4]->ekf;
      bool same = x.m_cov.rows() == y.m_cov.rows() &&
        (x.m_cov.array() == y.m_cov.array() || (x.m_cov.array() != x.m_cov.array() && y.m_cov.array() != y.m_cov.array())).all();
      M.check(same, "level-changes-estimate", ctx);
      auto fx = flat(x.m_state), fy = flat(y.m_state);
      same = fx.size() == fy.size();
      for (size_t i = 0; same && i < fx.size(); ++i) {
        same = fx[i].first == fy[i].first && fx[i].second.size() == fy[i].second.size() &&
          memcmp(fx[i].second.data(), fy[i].second.data(), sizeof(double) * size_t(fx[i].second.size())) == 0;
      }
      M.check(same, "level-changes-estimate", ctx);
    }
    h.add(uint64_t(op.k));
  }
  for (int k = 0; k < 5; ++k) {
    bool ok = true;
    for (int s = 0; s < 2; ++s) {
      auto full = entries(s ? e[4] : o[4], ok), got = entries(s ? e[size_t(k)] : o[size_t(k)], ok);
      std::vector<std::pair<int, std::string>> want;
      for (auto & x : full) {if (x.first <= k) {want.push_back(x);}}
      M.check(got == want, "filter-output", strf("level %d stream %d: %d entries, expected %d of %d", k, s + 1, int(got.size()),
        int(want.size()), int(full.size())));
      total += int(got.size());
      for (auto & x : got) {M.ev("filter_" + std::string(NAMES[x.first]));}
    }
    M.check(ok, "unmarked-output", o[size_t(k)].substr(0, 200) + e[size_t(k)].substr(0, 200));
  }
  M.done(h.h, total > 0, strf("history of %d operations under five levels, %d messages", nops, total));
}
}  // namespace

void run_case(Mon & M, Rng & R)
{
  if (R.b(0.7)) {direct(M, R);} else {filter(M, R);}
}
