// C19: the CSV logs, read back after every event and compared with the filter and truth they claim to report.
#include "trans.hpp"
#include <dirent.h>
#include <fstream>
#include <sstream>
#include "ekf/constants.hpp"
#include "infrastructure/data_logger.hpp"
#include "infrastructure/sim/truth_engine_cyclic.hpp"
#include "infrastructure/sim/truth_engine_spline.hpp"
#include "utility/sim/sim_rng.hpp"
#include "utility/string_helper.hpp"
using namespace hist;

static std::vector<std::string> split(const std::string & s)
{
  std::vector<std::string> o(1);
  for (char c : s) {if (c == ',') {o.emplace_back();} else {o.back() += c;}}
  return o;
}
static std::vector<std::string> readLines(const std::string & f, bool & complete)
{
  std::ifstream in(f);
  std::stringstream b;
  b << in.rdbuf();
  std::string s = b.str();
  complete = s.empty() || s.back() == '\n';
  std::vector<std::string> o;
  std::string l;
  for (char c : s) {if (c == '\n') {o.push_back(l); l.clear();} else {l += c;}}
  if (!l.empty()) {o.push_back(l);}
  return o;
}
static std::vector<std::string> ls(const std::string & d)
{
  std::vector<std::string> o;
  if (DIR * p = opendir(d.c_str())) {
    while (dirent * e = readdir(p)) {if (e->d_name[0] != '.') {o.push_back(e->d_name);}}
    closedir(p);
  }
  std::sort(o.begin(), o.end());
  return o;
}
static std::string freshDir(Mon & M)
{
  std::string d = M.scratch;
  if (d.empty() || d.back() != '/') {d += '/';}
  mkdir(d.c_str(), 0755);
  d += strf("c%d/", int(getpid()));
  mkdir(d.c_str(), 0755);
  for (auto & f : ls(d)) {unlink((d + f).c_str());}
  return d;
}

// the rows a rate-limited log must hold: the first, and every one that is due
struct Rate
{
  double rate, t0 = 0, n = 0;
  bool any = false;
  // 1 = must be written, 0 = must not, -1 = too close to call
  int due(double t) const
  {
    if (!any) {return 1;}
    if (rate == 0) {return 1;}
    double d = rate * (t - t0) - n;
    if (std::abs(d) < 1e-6 * (1 + std::abs(n) + rate * std::max(std::abs(t), std::abs(t0)) * 1e-9)) {return -1;}
    return d > 0;
  }
  void wrote(double t)
  {
    if (!any) {t0 = t; any = true;}
    n += 1;
  }
};

static void logger(Mon & M, Rng & R, Hash & h)
{
  std::string dir = freshDir(M);
  double rate = R.b(0.2) ? 0.0 : R.logu(0.5, 2000);
  bool on = R.b(0.85);
  std::string name = strf("log_%d.csv", R.i(0, 99));
  std::vector<std::string> want{strf("time,value_%d", R.i(0, 9))};
  std::string ctx;
  {
    std::unique_ptr<DataLogger> l;
    if (R.b()) {l.reset(new DataLogger(dir, name, rate));}
    else if (R.b()) {
      l.reset(new DataLogger(dir, name));
      l->SetLogRate(rate);
    } else {
      l.reset(new DataLogger());
      l->SetOutputDirectory(dir);
      l->SetOutputFileName(name);
      l->SetLogRate(rate);
    }
    l->DefineHeader(want[0]);
    if (on) {l->EnableLogging();}
    Rate q{rate};
    double t = R.b(0.3) ? 0.0 : R.pick(std::vector<double>{-2.0, 1.0, 1e3, 1e-3});
    bool sure = true;
    int n = R.i(1, 60);
    ctx = strf("logger rate=%g start=%g on=%d events=%d", rate, t, on, n);
    size_t have = 0;
    for (int k = 0; k < n; ++k) {
      std::string msg = strf("%d,%g", k, t);
      l->RateLimitedLog(msg, t);
      bool complete;
      auto rows = readLines(dir + name, complete);
      bool wrote = rows.size() > have + (have ? 0 : 1);
      if (!on) {M.check(rows.empty(), "row-while-off", ctx);}
      if (on) {
        int d = q.due(t);
        if (d == 1) {M.check(wrote, "due-row-dropped", ctx + strf(" event %d t=%g rows=%g", k, t, q.n));}
        if (d == 0) {M.check(!wrote, "rate-exceeded", ctx + strf(" event %d t=%g rows=%g", k, t, q.n));}
        if (wrote) {q.wrote(t); want.push_back(msg);}
        have = rows.size();
        M.check(complete && rows == want, "logged-text", ctx + strf(" event %d", k));
        M.check(rate == 0 || q.n <= 1 + rate * (t - q.t0) + 1e-6, "rate-exceeded", ctx + strf(" %g rows in %g s", q.n, t - q.t0));
      }
      if (!sure) {break;}
      t += R.b(0.1) ? 0.0 : R.b(0.1) ? R.u(0, 3) : R.logu(1e-4, 0.3);
      M.ev("logger_events");
    }
  }
  auto f = ls(dir);
  M.check(on ? f.size() == 1 && f[0] == name : f.empty(), "log-files", ctx + strf(" %zu files", f.size()));
  h.add(rate).add(uint64_t(want.size()));
}

// a log of a long run: many rows, or days of it; read back once
static void longLogger(Mon & M, Rng & R, Hash & h)
{
  std::string dir = freshDir(M);
  bool slow = R.b();
  double rate = slow ? R.logu(1e-3, 0.1) : R.logu(50, 2000), step = R.u(0.4, 1.3) / rate;
  double t0 = R.pick(std::vector<double>{0.0, -2.0, 1e3, 1.7e9});
  int n = slow ? R.i(500, 5000) : R.i(60000, 120000);
  std::vector<std::string> want{"time,value"};
  std::string ctx = strf("long log rate=%g start=%g step=%g events=%d", rate, t0, step, n);
  {
    DataLogger l(dir, "long.csv", rate);
    l.DefineHeader(want[0]);
    l.EnableLogging();
    Rate q{rate};
    double t = t0;
    for (int k = 0; k < n; ++k) {
      t = k == 0 ? t0 : t + step * R.u(0.5, 1.5);
      for (int r = 0; q.due(t) == -1 && r < 50; ++r) {t += step * 0.01;}
      int d = q.due(t);
      if (d == -1) {return;}
      std::string msg = strf("%d,%.9g", k, t - t0);
      l.RateLimitedLog(msg, t);
      if (d == 1) {q.wrote(t); want.push_back(msg);}
    }
    M.ev("long_logger_rows", want.size());
  }
  bool complete;
  auto rows = readLines(dir + "long.csv", complete);
  size_t k = 0;
  while (k < rows.size() && k < want.size() && rows[k] == want[k]) {++k;}
  M.check(complete && rows == want, "long-log", ctx + strf(": %zu rows, want %zu, first difference at row %zu", rows.size(), want.size(), k));
  h.add(rate).add(uint64_t(want.size()));
}

// one CSV file followed while it grows
struct Follow
{
  std::string path;
  std::vector<std::string> head;
  size_t rows = 0;
  double last = -1e300;
  // the rows added since the last call, as numbers by column name
  std::vector<std::map<std::string, double>> grown(Mon & M, const std::string & ctx)
  {
    std::vector<std::map<std::string, double>> o;
    bool complete;
    auto ln = readLines(path, complete);
    if (ln.empty()) {return o;}
    M.check(complete, "unfinished-row", ctx);
    if (head.empty()) {
      head = split(ln[0]);
      std::set<std::string> u(head.begin(), head.end());
      M.check(u.size() == head.size() && !u.count(""), "header-names", ctx + " header " + ln[0].substr(0, 300));
    }
    M.check(ln.size() >= rows + 1, "rows-lost", ctx);
    for (size_t k = rows + 1; k < ln.size(); ++k) {
      auto v = split(ln[k]);
      if (!M.check(v.size() == head.size(), "ragged-row", ctx + strf(" %zu columns in the header, %zu in the row", head.size(), v.size()))) {continue;}
      std::map<std::string, double> r;
      for (size_t c = 0; c < v.size(); ++c) {
        char * e = nullptr;
        double x = strtod(v[c].c_str(), &e);
        M.check(!v[c].empty() && *e == 0 && std::isfinite(x), "not-a-number", ctx + " " + head[c] + "=" + v[c].substr(0, 40));
        r[head[c]] = x;
      }
      o.push_back(r);
      M.ev("rows");
    }
    rows = ln.size() - 1;
    return o;
  }
};

static void vec(Mon & M, const std::map<std::string, double> & r, const std::string & name, const VecX & want, const std::string & key,
  const std::string & ctx, double digits = 2e-5)
{
  for (int k = 0; k < want.size(); ++k) {
    auto it = r.find(name + "_" + std::to_string(k));
    if (!M.check(it != r.end(), "column-missing", ctx + " " + name)) {return;}
    M.near(it->second, want[k], digits * std::abs(want[k]) + 1e-12, key, ctx + " " + name + strf("_%d", k));
  }
}
static VecX qv(const Quat & q) {return Eigen::Vector4d(q.w(), q.x(), q.y(), q.z());}
static VecX blkVar(const EKF & e, char kind, unsigned id)
{
  MatX P = cov(e);
  for (auto & b : layout(e.m_state)) {if (b.kind == kind && b.id == id) {return P.diagonal().segment(b.start, b.size);}}
  return VecX();
}

static void filter(Mon & M, Rng & R, Hash & h)
{
  std::string dir = freshDir(M);
  Cfg c = randomCfg(R);
  c.log_dir = dir;
  bool every = R.b(0.6);
  c.log_rate = R.b(0.1) ? 0.0 : every ? 1e9 : R.logu(0.5, 50);
  c.T0 = 0;
  bool off = c.log_rate == 0;
  World w(c);
  std::map<std::string, Follow> F;
  std::map<std::string, Rate> Q;
  auto follow = [&](const std::string & n) -> Follow & {
      auto & f = F[n];
      f.path = dir + n;
      if (!Q.count(n)) {Q[n] = Rate{c.log_rate};}
      return f;
    };
  std::map<unsigned, unsigned> boardOf;
  std::string last;
  int ops = R.i(20, 70);
  Weights W;
  for (int k = 0; k < ops; ++k) {
    Op o = genOp(R, w, W);
    if (o.k == U_FID) {
      // one board per camera, as the simulation and the node configure them
      if (!boardOf.count(o.id2)) {boardOf[o.id2] = o.id;}
      if (boardOf[o.id2] != o.id) {continue;}
    }
    Snap pre(*w.ekf);
    w.apply(o);
    EKF & e = *w.ekf;
    double now = e.GetCurrentTime(), t = c.T0 + o.t;
    std::string ctx = strf("op %d %s rate=%g ", k, describe(o).c_str(), c.log_rate) + cfgs(c);
    h.add(uint64_t(o.k)).add(o.t);
    if (!e.m_state.body_state.pos_b_in_l.allFinite() || !cov(e).allFinite() || cov(e).cwiseAbs().maxCoeff() > 1e12) {break;}
    // no more than the rate allows, none that is due dropped
    auto event = [&](const std::string & n, double te, const std::vector<std::map<std::string, double>> & g, int reports) {
        Rate & q = Q[n];
        if (reports == 1) {
          int d = q.due(te);
          if (d == 1) {M.check(g.size() == 1, "due-row-dropped", ctx + " " + n + strf(" %zu rows", g.size()));}
          if (d == 0) {M.check(g.empty(), "rate-exceeded", ctx + " " + n + strf(" %zu rows", g.size()));}
          if (d == -1) {M.check(g.size() <= 1, "rate-exceeded", ctx + " " + n);}
          M.ev(d ? "due" : "not_due");
        }
        for (auto & r : g) {
          M.near(r.at("time"), te, (n[0] == 't' ? 6e-3 : 2e-5) * std::abs(te) + 1e-12, "row-time", ctx + " " + n);
          q.wrote(te);
        }
        if (q.any && !g.empty()) {
          M.check(q.n <= 1 + c.log_rate * (te - q.t0) + 1e-6 * (1 + q.n), "rate-exceeded", ctx + " " + n + strf(" %g rows", q.n));
        }
      };
    if (off) {continue;}
    auto one = [&](const std::string & n, bool reports) {
        auto g = follow(n).grown(M, ctx + " " + n);
        if (!reports) {
          M.check(g.empty(), "unexpected-row", ctx + " " + n);
          return g;
        }
        event(n, t, g, 1);
        return g;
      };
    for (auto & x : w.imu) {
      auto g = one("imu_" + std::to_string(x.first) + ".csv", o.k == U_IMU && o.id == x.first);
      for (auto & r : g) {
        auto & s = e.m_state.imu_states[x.first];
        vec(M, r, "imu_pos", s.pos_i_in_b, "imu-row", ctx);
        vec(M, r, "imu_ang_pos", qv(s.ang_i_to_b), "imu-row", ctx);
        vec(M, r, "imu_acc_bias", s.acc_bias, "imu-row", ctx);
        vec(M, r, "imu_gyr_bias", s.omg_bias, "imu-row", ctx);
        if (s.GetIsExtrinsic()) {vec(M, r, "imu_ext_cov", blkVar(e, 'I', x.first), "imu-row-variance", ctx);}
        if (s.GetIsIntrinsic()) {vec(M, r, "imu_int_cov", blkVar(e, 'N', x.first), "imu-row-variance", ctx);}
        vec(M, r, "acc", o.a, "imu-row", ctx);
        vec(M, r, "omg", o.b, "imu-row", ctx);
        double st = r.count("stationary") ? r.at("stationary") : -1;
        M.check(st == 0 || st == 1, "imu-row", ctx);
        M.ev("imu_rows");
      }
    }
    for (auto & x : w.gps) {
      auto g = one("gps_" + std::to_string(x.first) + ".csv", o.k == U_GPS && o.id == x.first);
      for (auto & r : g) {
        auto & s = e.m_state.gps_states[x.first];
        for (int j = 0; j < 3; ++j) {
          M.near(r["lat\0lon\0alt" + 4 * j], o.a[j], 1e-10 * std::abs(o.a[j]), "gps-row", ctx);
          M.near(r[j == 0 ? "ref_lat" : j == 1 ? "ref_lon" : "ref_alt"], c.ref_lla[j], 1e-10 * std::abs(c.ref_lla[j]), "gps-row", ctx);
        }
        M.near(r["ref_heading"], c.ref_ang, 1e-5 * std::abs(c.ref_ang), "gps-row", ctx);
        M.near(r["is_initialized"], 1, 0, "gps-row", ctx);
        if (s.GetIsExtrinsic()) {
          vec(M, r, "ant_pos", s.pos_a_in_b, "gps-row", ctx);
          vec(M, r, "gps_cov", blkVar(e, 'G', x.first), "gps-row-variance", ctx);
        }
        // the fix in the local frame
        Vec3 loc = ref::enu2local(ref::lla2enu(o.a, c.ref_lla), c.ref_ang);
        M.nearM(Vec3(r["x"], r["y"], r["z"]), loc, 1e-4 + 2e-5 * loc.norm(), "gps-row", ctx);
        M.ev("gps_rows");
      }
    }
    for (auto & x : boardOf) {
      auto g = one("fiducial_" + std::to_string(x.first) + ".csv", o.k == U_FID && o.id2 == x.first);
      for (auto & r : g) {
        auto & cs = e.m_state.cam_states[x.first];
        auto & fs = e.m_state.fid_states[x.second];
        M.near(r["board"], x.second, 0, "board-row", ctx);
        vec(M, r, "board_meas_pos", o.det.pos_f_in_c, "board-row", ctx);
        vec(M, r, "board_meas_ang", qv(o.det.ang_f_to_c), "board-row", ctx);
        vec(M, r, "cam_pos", cs.pos_c_in_b, "board-row", ctx);
        vec(M, r, "cam_ang_pos", qv(cs.ang_c_to_b), "board-row", ctx);
        if (fs.GetIsExtrinsic()) {
          vec(M, r, "fid_pos", fs.pos_f_in_l, "board-row", ctx);
          vec(M, r, "fid_ang", qv(fs.ang_f_to_l), "board-row", ctx);
          vec(M, r, "fid_cov", blkVar(e, 'F', x.second), "board-row-variance", ctx);
        }
        if (cs.GetIsExtrinsic()) {vec(M, r, "cam_cov", blkVar(e, 'C', x.first), "board-row-variance", ctx);}
        M.ev("board_rows");
      }
    }
    for (auto & x : w.vis) {
      std::string n = "msckf_" + std::to_string(x.first) + ".csv", nt = "triangulation_" + std::to_string(x.first) + ".csv";
      auto g = follow(n).grown(M, ctx + " " + n);
      auto gt = follow(nt).grown(M, ctx + " " + nt);
      bool mine = o.k == U_VIS && o.id == x.first;
      bool applied = mine && cov(e).rows() == pre.P.rows() && (cov(e) - pre.P).cwiseAbs().maxCoeff() > 0;
      if (mine) {
        event(n, t, g, applied ? 1 : 2);
        event(nt, t, gt, 2);
        M.check(gt.size() <= o.tracks.size() && g.size() <= 1, "unexpected-row", ctx);
        auto & cs = e.m_state.cam_states[x.first];
        for (auto & r : g) {
          vec(M, r, "cam_pos", cs.pos_c_in_b, "visual-row", ctx);
          vec(M, r, "cam_ang_pos", qv(cs.ang_c_to_b), "visual-row", ctx);
          if (cs.GetIsExtrinsic()) {vec(M, r, "cam_cov", blkVar(e, 'C', x.first), "visual-row-variance", ctx);}
          M.near(r["FeatureTracks"], double(o.tracks.size()), 0, "visual-row", ctx);
          M.ev("visual_rows");
        }
      } else {
        M.check(g.empty() && gt.empty(), "unexpected-row", ctx);
      }
    }
    // clones: one row each, with the pose at that time
    {
      auto g = follow("aug_state.csv").grown(M, ctx + " aug_state");
      CloneDiff d = cloneDiff(pre.s, e.m_state);
      bool reg = o.k == REG_I || o.k == REG_C || o.k == REG_F || o.k == REG_G;
      if (!reg && d.ok) {
        M.check(g.size() == d.added.size(), "clone-rows", ctx + strf(" %zu rows for %zu new clones", g.size(), d.added.size()));
        if (g.size() == 1 && d.added.size() == 1 && o.k == FRAME) {
          auto & a = d.added[0].second;
          M.near(g[0].at("time"), a.time, 2e-5 * std::abs(a.time) + 1e-12, "clone-row", ctx);
          vec(M, g[0], "aug_pos", a.pos_b_in_l, "clone-row", ctx);
          vec(M, g[0], "aug_ang", qv(a.ang_b_to_l), "clone-row", ctx);
          M.ev("clone_rows");
        }
      }
    }
    // the body
    {
      std::string n = "body_state.csv";
      auto g = follow(n).grown(M, ctx + " body_state");
      Rate & q = Q[n];
      bool forward = o.t >= pre.t;
      bool rep = (o.k == PRED && forward) || o.k == U_IMU || (o.k == U_GPS && forward);
      int due = q.due(now);
      if (rep && due == 1) {M.check(!g.empty(), "due-row-dropped", ctx + " body");}
      if (due == 0) {M.check(g.empty(), "rate-exceeded", ctx + " body");}
      for (auto & r : g) {
        M.near(r.at("time"), now, 2e-5 * std::abs(now) + 1e-12, "row-time", ctx + " body");
        q.wrote(now);
      }
      if (!g.empty()) {
        M.check(q.n <= 1 + c.log_rate * (now - q.t0) + 1e-6 * (1 + q.n), "rate-exceeded", ctx + strf(" body %g rows", q.n));
      }
      // the last row reports the filter as it is now, if no row of this step was withheld
      if (!g.empty() && (o.k == PRED || (o.k == U_IMU && every && now > q.t0))) {
        auto & r = g.back();
        auto & b = e.m_state.body_state;
        vec(M, r, "body_pos", b.pos_b_in_l, "body-row", ctx);
        vec(M, r, "body_vel", b.vel_b_in_l, "body-row", ctx);
        vec(M, r, "body_acc", b.acc_b_in_l, "body-row", ctx);
        vec(M, r, "body_ang_pos", qv(b.ang_b_to_l), "body-row", ctx);
        vec(M, r, "body_ang_vel", b.ang_vel_b_in_l, "body-row", ctx);
        vec(M, r, "body_ang_acc", b.ang_acc_b_in_l, "body-row", ctx);
        vec(M, r, "body_cov", blkVar(e, 'B', 0), "body-row-variance", ctx);
        M.near(r["state_size"], total(layout(e.m_state)), 0, "body-row", ctx);
        M.ev("body_rows");
      }
    }
  }
  auto f = ls(dir);
  if (off) {M.check(f.empty(), "file-while-off", cfgs(c) + strf(" %zu files", f.size())); M.ev("silent_runs");}
  else {
    for (auto & n : f) {M.check(F.count(n), "unknown-file", cfgs(c) + " " + n);}
    M.ev(every ? "full_runs" : "limited_runs");
  }
}

static void truth(Mon & M, Rng & R, Hash & h)
{
  std::string dir = freshDir(M);
  auto lg = std::make_shared<DebugLogger>(LogLevel::FATAL, "");
  double mt = R.u(0.3, 3), st = R.b() ? 0.0 : R.u(0, 1), rate = R.u(1, 30);
  std::shared_ptr<TruthEngine> e;
  if (R.b()) {
    e = std::make_shared<TruthEngineCyclic>(R.uv(0.1, 1), R.uv(0.1, 1), R.v(1), R.uv(-1, 1), R.u(-1, 1), R.u(-0.5, 0.5), st, mt, lg);
  } else {
    std::vector<double> P, A, z{0, 0, 0};
    for (int k = 0; k < 12; ++k) {P.push_back(R.u(-2, 2)); A.push_back(R.u(-0.5, 0.5));}
    e = std::make_shared<TruthEngineSpline>(P, A, z, z, st, mt, lg);
  }
  std::set<unsigned> ids, imus, cams, gpss, boards;
  int n = R.i(0, 5);
  bool dense = R.b();
  for (int k = 0; k < n; ++k) {
    unsigned id = dense ? unsigned(k + 1) : newId(R, ids, 1);
    if (id > 1000) {id = 14 + id % 50;}
    if (ids.count(id)) {continue;}
    ids.insert(id);
    switch (R.i(0, 2)) {
      case 0: imus.insert(id); e->SetImuPosition(id, R.v(1)); e->SetImuAngularPosition(id, R.q()); e->SetImuAccelerometerBias(id, R.v(1)); e->SetImuGyroscopeBias(id, R.v(1)); break;
      case 1: cams.insert(id); e->SetCameraPosition(id, R.v(1)); e->SetCameraAngularPosition(id, R.q()); break;
      default: gpss.insert(id); e->SetGpsPosition(id, R.v(1)); break;
    }
  }
  for (int k = R.i(0, 3); k > 0; --k) {unsigned id = unsigned(R.i(1, 9)); boards.insert(id); e->SetBoardPosition(id, R.v(2)); e->SetBoardOrientation(id, R.q());}
  e->SetLocalPosition(Vec3(R.u(-80, 80), R.u(-179, 179), R.u(0, 1000)));
  e->SetLocalHeading(R.u(-3, 3));
  std::string ctx = strf("truth max=%g rate=%g sensors:", mt, rate);
  for (unsigned i : imus) {ctx += strf(" imu%u", i);}
  for (unsigned i : cams) {ctx += strf(" cam%u", i);}
  for (unsigned i : gpss) {ctx += strf(" gps%u", i);}
  h.add(mt).add(rate);
  e->WriteTruthData(rate, dir);
  Follow b{dir + "body_truth.csv", {}, 0, 0};
  auto rows = b.grown(M, ctx);
  size_t want = size_t(std::floor((mt + 1) * rate));
  M.check(rows.size() == want || std::abs((mt + 1) * rate - std::round((mt + 1) * rate)) < 1e-9, "truth-rows", ctx + strf(" %zu want %zu", rows.size(), want));
  for (size_t k = 0; k < rows.size(); ++k) {
    auto & r = rows[k];
    double t = double(k) / rate;
    M.near(r["time"], t, 2e-5 * t + 1e-12, "truth-time", ctx);
    vec(M, r, "body_pos", e->GetBodyPosition(t), "truth-row", ctx);
    vec(M, r, "body_vel", e->GetBodyVelocity(t), "truth-row", ctx);
    vec(M, r, "body_acc", e->GetBodyAcceleration(t) + Vec3(0, 0, 9.80665), "truth-row", ctx);
    vec(M, r, "body_ang_pos", qv(e->GetBodyAngularPosition(t)), "truth-row", ctx);
    vec(M, r, "body_ang_vel", e->GetBodyAngularRate(t), "truth-row", ctx);
    vec(M, r, "body_ang_acc", e->GetBodyAngularAcceleration(t), "truth-row", ctx);
    for (unsigned i : imus) {
      std::string s = std::to_string(i);
      vec(M, r, "imu_pos_" + s, e->GetImuPosition(i), "truth-row", ctx);
      vec(M, r, "imu_ang_pos_" + s, qv(e->GetImuAngularPosition(i)), "truth-row", ctx);
      vec(M, r, "imu_acc_bias_" + s, e->GetImuAccelerometerBias(i), "truth-row", ctx);
      vec(M, r, "imu_gyr_bias_" + s, e->GetImuGyroscopeBias(i), "truth-row", ctx);
    }
    for (unsigned i : cams) {
      vec(M, r, "cam_pos_" + std::to_string(i), e->GetCameraPosition(i), "truth-row", ctx);
      vec(M, r, "cam_ang_pos_" + std::to_string(i), qv(e->GetCameraAngularPosition(i)), "truth-row", ctx);
    }
    for (unsigned i : gpss) {vec(M, r, "gps_pos_" + std::to_string(i), e->GetGpsPosition(i), "truth-row", ctx);}
    if (!gpss.empty()) {
      Vec3 p = e->GetLocalPosition();
      M.near(r["ref_lat"], p[0], 2e-5 * std::abs(p[0]), "truth-row", ctx);
      M.near(r["ref_lon"], p[1], 2e-5 * std::abs(p[1]), "truth-row", ctx);
      M.near(r["ref_alt"], p[2], 2e-5 * std::abs(p[2]), "truth-row", ctx);
      M.near(r["ref_heading"], e->GetLocalHeading(), 1e-4, "truth-row", ctx);
    }
    M.check(r.size() == 20 + imus.size() * 13 + cams.size() * 7 + gpss.size() * 3 + (gpss.empty() ? 0 : 4), "truth-columns", ctx);
    M.ev("truth_rows");
  }
  Follow bd{dir + "board_truth.csv", {}, 0, 0};
  auto br = bd.grown(M, ctx);
  M.check(br.size() == boards.size(), "board-rows", ctx);
  for (auto & r : br) {
    unsigned i = unsigned(r["board"]);
    if (!M.check(boards.count(i), "board-rows", ctx)) {continue;}
    M.nearM(Vec3(r["pos_x"], r["pos_y"], r["pos_z"]), e->GetBoardPosition(i), 1e-4, "board-truth", ctx);
    M.nearM(Eigen::Vector4d(r["quat_w"], r["quat_x"], r["quat_y"], r["quat_z"]), qv(e->GetBoardOrientation(i)), 1e-4, "board-truth", ctx);
  }
  Follow ft{dir + "feature_points.csv", {}, 0, 0};
  auto fr = ft.grown(M, ctx);
  auto feats = e->GetFeatures();
  M.check(fr.size() == feats.size(), "feature-rows", ctx);
  for (size_t k = 0; k < std::min(fr.size(), feats.size()); k += 17) {
    M.check(fr[k]["Feature"] == double(k), "feature-rows", ctx);
    M.nearM(Vec3(fr[k]["x"], fr[k]["y"], fr[k]["z"]), Vec3(feats[k].x, feats[k].y, feats[k].z), 1e-4, "feature-truth", ctx);
  }
}

static void strings(Mon & M, Rng & R)
{
  int n = R.i(0, 12);
  VecX v(n);
  for (int k = 0; k < n; ++k) {v[k] = (R.b() ? 1 : -1) * R.logu(1e-12, 1e12);}
  auto s = split(VectorToCommaString(v));
  M.check(int(s.size()) == n + 1 && s[0].empty(), "vector-fields", vs(v));
  for (int k = 0; k < n && int(s.size()) == n + 1; ++k) {M.near(strtod(s[size_t(k) + 1].c_str(), 0), v[k], 1e-5 * std::abs(v[k]), "vector-values", vs(v));}
  int p = R.i(3, 15);
  auto s2 = split(VectorToCommaString(v, p));
  for (int k = 0; k < n && M.check(int(s2.size()) == n + 1, "vector-fields"); ++k) {
    M.near(strtod(s2[size_t(k) + 1].c_str(), 0), v[k], std::pow(10, 1 - p) * std::abs(v[k]), "vector-precision", strf("precision %d", p));
  }
  auto hd = split(EnumerateHeader("x", unsigned(n)));
  M.check(int(hd.size()) == n + 1, "header-fields");
  for (int k = 0; k < n && int(hd.size()) == n + 1; ++k) {M.check(hd[size_t(k) + 1] == "x_" + std::to_string(k), "header-fields");}
  Quat q = R.q();
  auto qs2 = split(QuaternionToCommaString(q));
  if (M.check(qs2.size() == 5, "quaternion-fields")) {
    for (int k = 0; k < 4; ++k) {M.near(strtod(qs2[size_t(k) + 1].c_str(), 0), qv(q)[k], 1e-5 * std::abs(qv(q)[k]) + 1e-12, "quaternion-fields");}
  }
}

void run_case(Mon & M, Rng & R)
{
  Hash h;
  logger(M, R, h);
  if (R.b(0.08)) {longLogger(M, R, h);}
  filter(M, R, h);
  truth(M, R, h);
  strings(M, R);
  std::string d = freshDir(M);
  rmdir(d.c_str());
  M.done(h.h, true, "one rate-limited log, one filter history and one truth run, all logs read back");
}
