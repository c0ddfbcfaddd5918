// C17: the simulated truth motion against its own derivatives and its configuration.
#include "trans.hpp"
#include "infrastructure/sim/truth_engine_cyclic.hpp"
#include "infrastructure/sim/truth_engine_spline.hpp"
#include "infrastructure/sim/truth_engine_smoother.hpp"
#include "utility/sim/sim_rng.hpp"
using namespace hist;

static std::shared_ptr<DebugLogger> lg() {return std::make_shared<DebugLogger>(LogLevel::FATAL, "");}

template<class F> static VecX der(F f, double t, double e)
{
  return (8 * (f(t + e) - f(t - e)) - (f(t + 2 * e) - f(t - 2 * e))) / (12 * e);
}
static Quat rpyq(const Vec3 & r)
{
  auto ax = [](double a, const Vec3 & v) {return ref::qexp(Vec3(a * v));};
  return ref::qmul(ax(r[2], Vec3::UnitZ()), ref::qmul(ax(r[1], Vec3::UnitY()), ax(r[0], Vec3::UnitX())));
}
static Vec3 qrpy(const Quat & q)
{
  Mat3 C = ref::rot(q);
  return Vec3(std::atan2(C(2, 1), C(2, 2)), -std::asin(std::max(-1.0, std::min(1.0, C(2, 0)))), std::atan2(C(1, 0), C(0, 0)));
}
static void finite(Mon & M, TruthEngine & e, double t, const std::string & ctx)
{
  Quat q = e.GetBodyAngularPosition(t);
  M.check(e.GetBodyPosition(t).allFinite() && e.GetBodyVelocity(t).allFinite() && e.GetBodyAcceleration(t).allFinite() &&
    e.GetBodyAngularRate(t).allFinite() && e.GetBodyAngularAcceleration(t).allFinite() && q.coeffs().allFinite(), "finite", ctx);
  M.near(q.norm(), 1, 1e-9, "unit-rotation", ctx);
  M.ev("queries");
}
static void still(Mon & M, TruthEngine & e, double t, const Vec3 & p, const Vec3 & rpy, const std::string & ctx)
{
  M.nearM(e.GetBodyPosition(t), p, 1e-9 * (1 + p.norm()), "start-position", ctx);
  M.quatNear(e.GetBodyAngularPosition(t), rpyq(rpy), 1e-9, "start-orientation", ctx);
  M.check(e.GetBodyVelocity(t).isZero(0) && e.GetBodyAcceleration(t).isZero(0) && e.GetBodyAngularRate(t).isZero(0) &&
    e.GetBodyAngularAcceleration(t).isZero(0), "moves-while-stationary", ctx);
  M.ev("stationary_queries");
}

static void cyclic(Mon & M, Rng & R, Hash & h)
{
  auto fr = [&]() {return Vec3(R.b(0.1) ? 0.0 : R.logu(0.05, 3), R.b(0.1) ? 0.0 : R.logu(0.05, 3), R.logu(0.05, 3));};
  Vec3 pf = fr(), af = fr(), po = R.v(3), ao(R.u(-3, 3), R.u(-1, 1), R.u(-3, 3));
  double pa = R.u(-3, 3), aa = R.u(-0.5, 0.5), st = R.b(0.2) ? 0.0 : R.u(0, 3), mt = st + R.u(1, 20);
  TruthEngineCyclic e(pf, af, po, ao, pa, aa, st, mt, lg());
  if (R.b(0.3)) {
    pf = fr(); af = fr();
    e.SetBodyPosCycleFrequency(pf);
    e.SetBodyAngCycleFrequency(af);
  }
  std::string ctx = strf("cyclic st=%g amp=%g/%g freq=", st, pa, aa) + vs(pf) + vs(af) + " offset=" + vs(po) + vs(ao);
  h.add(pf).add(ao).add(st);
  for (int k = 0; k < 12; ++k) {
    double ts = R.b(0.2) ? 0.0 : R.u(0, st);
    if (ts < st) {still(M, e, ts, po, ao, ctx + strf(" t=%g", ts));}
    double t = st + R.u(0.02, 20);
    std::string c2 = ctx + strf(" t=%g", t);
    finite(M, e, t, c2);
    Vec3 wp, wr;
    for (int a = 0; a < 3; ++a) {
      wp[a] = po[a] + pa / 2 * (1 - std::cos(2 * M_PI * pf[a] * (t - st)));
      wr[a] = ao[a] + aa / 2 * (1 - std::cos(2 * M_PI * af[a] * (t - st)));
    }
    M.nearM(e.GetBodyPosition(t), wp, 1e-9 * (1 + wp.norm()), "cycle-position", c2);
    M.nearM(e.GetBodyRollPitchYaw(t), wr, 1e-9 * (1 + wr.norm()), "cycle-angles", c2);
    M.quatNear(e.GetBodyAngularPosition(t), rpyq(wr), 1e-9, "cycle-orientation", c2);
    double d = 1e-3;
    VecX v = der([&](double x) -> VecX {return e.GetBodyPosition(x);}, t, d), a = der([&](double x) -> VecX {return e.GetBodyVelocity(x);}, t, d);
    M.nearM(e.GetBodyVelocity(t), v, 2e-7 * (1 + v.norm()), "velocity", c2);
    M.nearM(e.GetBodyAcceleration(t), a, 2e-7 * (1 + a.norm()), "acceleration", c2);
    Quat q = e.GetBodyAngularPosition(t);
    VecX w = der([&](double x) -> VecX {return ref::qlog(ref::qmul(ref::qinv(q), e.GetBodyAngularPosition(x)));}, t, d);
    VecX al = der([&](double x) -> VecX {return e.GetBodyAngularRate(x);}, t, d);
    M.nearM(e.GetBodyAngularRate(t), w, 2e-6 * (1 + w.norm()), "angular-rate", c2);
    M.nearM(e.GetBodyAngularAcceleration(t), al, 2e-6 * (1 + al.norm()), "angular-acceleration", c2);
    M.ev("cyclic_derivatives");
  }
}

static void spline(Mon & M, Rng & R, Hash & h)
{
  int n = R.i(2, 8);
  bool constA = R.b(0.2), constP = R.b(0.1);
  std::vector<double> P, A;
  std::vector<Vec3> wp, wa;
  for (int k = 0; k < n; ++k) {
    bool dup = k > 0 && R.b(0.08);
    Vec3 p = (constP && k) ? wp[0] : dup ? wp.back() : R.v(2), a = constA && k ? wa[0] : Vec3(R.u(-0.9, 0.9), R.u(-0.9, 0.9), R.u(-0.9, 0.9));
    wp.push_back(p);
    wa.push_back(a);
    for (int j = 0; j < 3; ++j) {P.push_back(p[j]); A.push_back(a[j]);}
  }
  if (R.b(0.2)) {for (int j = R.i(1, 5); j > 0; --j) {P.push_back(R.u(-1, 1));}}      // surplus is ignored
  double st = R.b(0.2) ? 0.0 : R.u(0, 3), mt = st + R.u(1, 20), T = mt - st;
  std::vector<double> z{0, 0, 0};
  TruthEngineSpline e(P, A, z, z, st, mt, lg());
  std::string ctx = strf("spline n=%d st=%g max=%g constant=%d%d start=", n, st, mt, constP, constA) + vs(wp[0]) + vs(wa[0]);
  h.add(wp[0]).add(wa[0]).add(mt);
  auto knots = [](const std::vector<Vec3> & w) {
      std::vector<double> u(1, 0.0);
      for (size_t k = 1; k < w.size(); ++k) {u.push_back(u.back() + (w[k] - w[k - 1]).norm());}
      for (auto & x : u) {x /= w.size() > 1 && u.back() > 0 ? 1.0 : 1.0;}
      double tot = u.back();
      if (tot > 0) {for (auto & x : u) {x /= tot;}}
      return u;
    };
  auto up = knots(wp), ua = knots(wa);
  for (int k = 0; k < n; ++k) {
    // visited in order, at times proportional to the distance travelled
    M.nearM(e.GetBodyPosition(st + up[size_t(k)] * T), wp[size_t(k)], 1e-6 * (1 + wp[size_t(k)].norm()), "waypoint-position", ctx + strf(" k=%d", k));
    M.quatNear(e.GetBodyAngularPosition(st + ua[size_t(k)] * T), rpyq(wa[size_t(k)]), 1e-6, "waypoint-orientation", ctx + strf(" k=%d", k));
    M.ev("waypoints");
  }
  for (int k = 0; k < 10; ++k) {
    double ts = R.b(0.2) ? 0.0 : R.u(0, st);
    if (ts < st) {still(M, e, ts, wp[0], wa[0], ctx + strf(" t=%g", ts));}
    double t = R.b(0.1) ? mt : st + R.u(0, 1) * T;
    std::string c2 = ctx + strf(" t=%.9g", t);
    finite(M, e, t, c2);
    double d = 1e-4 * T;
    // differentiate inside one segment only
    auto inside = [&](const std::vector<double> & u) {
        double a = (t - st) / T;
        for (double x : u) {if (std::abs(a - x) < 5e-4) {return false;}}
        return a > 5e-4 && a < 1 - 5e-4;
      };
    (void)inside;
    double uu = (t - st) / T;
    if (uu < 1e-3 || uu > 1 - 1e-3) {continue;}
    // the spline is piecewise quadratic: check the mean derivative against the mean of the reported one
    auto trap = [&](auto pos, auto vel, const char * key) {
        Vec3 dp = (pos(t + d) - pos(t - d)) / (2 * d);
        Vec3 mv = (vel(t + d) + 4 * vel(t) + vel(t - d)) / 6;
        Vec3 mx = vel(t).cwiseAbs() + vel(t + d).cwiseAbs() + vel(t - d).cwiseAbs() + vel(t - d / 2).cwiseAbs();
        M.nearM(dp, mv, 2e-3 * (1e-3 + mx.norm()) + 1e-6, key, c2);
      };
    trap([&](double x) {return e.GetBodyPosition(x);}, [&](double x) {return e.GetBodyVelocity(x);}, "velocity");
    // acceleration is constant within a segment; skip if a segment border is near
    auto accel = [&](auto vel, auto acc, const char * key) {
        Vec3 a1 = acc(t - 2 * d), a2 = acc(t + 2 * d);
        if ((a1 - a2).norm() > 1e-6 * (1 + a1.norm())) {return;}
        Vec3 dv = (vel(t + d) - vel(t - d)) / (2 * d);
        M.nearM(acc(t), dv, 1e-5 * (1 + dv.norm()), key, c2);
        M.ev("spline_derivatives");
      };
    accel([&](double x) {return e.GetBodyVelocity(x);}, [&](double x) {return e.GetBodyAcceleration(x);}, "acceleration");
    // the reported rate is that of the rotation in the body frame, and the reported acceleration is its derivative
    auto ang = [&](double x) {return qrpy(e.GetBodyAngularPosition(x));};
    Quat q = e.GetBodyAngularPosition(t);
    auto rot = [&](double x) {return Vec3(ref::qlog(ref::qmul(ref::qinv(q), e.GetBodyAngularPosition(x))));};
    auto rate = [&](double x) {return e.GetBodyAngularRate(x);};
    auto alpha = [&](double x) {return e.GetBodyAngularAcceleration(x);};
    Vec3 dq = (rot(t + d) - rot(t - d)) / (2 * d), mr = (rate(t + d) + 4 * rate(t) + rate(t - d)) / 6;
    double tol = 2e-3 * (1e-3 + dq.norm() + mr.norm()) + 1e-6;
    bool calm = true;
    for (double x : {t - d, t, t + d}) {calm = calm && ang(x).cwiseAbs().maxCoeff() < 1.3;}
    accel(rate, alpha, "angular-acceleration");
    if (!calm) {continue;}
    if (!((dq - mr).norm() <= tol) && ((ang(t + d) - ang(t - d)) / (2 * d) - mr).norm() <= tol) {
      // exactly the derivative of the roll, pitch and yaw angles instead
      M.check(false, "spline-euler-rate", c2 + " rate=" + vs(mr) + " rotates=" + vs(dq));
      M.ev("spline_euler_rates");
    } else {
      M.nearM(mr, dq, tol, "angular-rate", c2);
    }
  }
}

static void smoother(Mon & M, Rng & R, Hash & h)
{
  int n = R.i(2, 8);
  double rate = R.pick(std::vector<double>{50, 100, 1000}), st = R.b(0.3) ? 0.0 : R.u(0, 1), mt = R.u(1, 6);
  std::vector<double> P, A, T;
  std::vector<Vec3> wp, wa;
  double at = 0;
  for (int k = 0; k < n; ++k) {
    wp.push_back(R.v(2));
    wa.push_back(Vec3(R.u(-0.9, 0.9), R.u(-0.9, 0.9), R.u(-0.9, 0.9)));
    for (int j = 0; j < 3; ++j) {P.push_back(wp.back()[j]); A.push_back(wa.back()[j]);}
    T.push_back(at);
    at += R.u(0.2, 2);
  }
  std::vector<double> z{0, 0, 0};
  TruthEngineSmoother e(T, P, A, z, z, st, mt, rate, lg());
  std::string ctx = strf("smoother n=%d st=%g max=%g rate=%g last=%g start=", n, st, mt, rate, T.back()) + vs(wp[0]) + vs(wa[0]);
  h.add(wp[0]).add(mt);
  auto want = [&](const std::vector<Vec3> & w, double t) -> Vec3 {
      if (t <= T[0]) {return w[0];}
      for (size_t k = 0; k + 1 < T.size(); ++k) {
        if (t <= T[k + 1]) {return w[k] + (t - T[k]) / (T[k + 1] - T[k]) * (w[k + 1] - w[k]);}
      }
      return w.back();
    };
  double slope = 0, aslope = 0;
  for (size_t k = 0; k + 1 < T.size(); ++k) {
    slope = std::max(slope, (wp[k + 1] - wp[k]).norm() / (T[k + 1] - T[k]));
    aslope = std::max(aslope, (wa[k + 1] - wa[k]).norm() / (T[k + 1] - T[k]));
  }
  for (int k = 0; k < 20; ++k) {
    double ts = R.b(0.2) ? 0.0 : R.u(0, st);
    if (ts < st) {still(M, e, ts, wp[0], wa[0], ctx + strf(" t=%g", ts));}
    double t = R.b(0.15) ? mt : R.b(0.1) ? std::max(st, mt - R.logu(1e-6, 2 / rate)) : R.u(std::min(st, mt), mt);
    if (t < st) {continue;}
    std::string c2 = ctx + strf(" t=%.9g", t);
    finite(M, e, t, c2);
    M.nearM(e.GetBodyPosition(t), want(wp, t - st), slope * 2.5 / rate + 1e-9, "interpolated-position", c2);
    Vec3 ra = want(wa, t - st);
    M.nearM(ref::qlog(ref::qmul(ref::qinv(rpyq(ra)), e.GetBodyAngularPosition(t))), Vec3::Zero(), aslope * 4 / rate + 1e-9, "interpolated-orientation", c2);
    double g = 1 / rate, r = t - st;
    bool clean = r > 3 * g && t < mt - 4 * g;
    for (double x : T) {if (std::abs(r - x) < 3 * g) {clean = false;}}
    if (clean) {
      Vec3 v = (want(wp, r + g / 2) - want(wp, r - g / 2)) / g;
      M.nearM(e.GetBodyVelocity(t), v, 1e-6 * (1 + v.norm()), "velocity", c2);
      M.nearM(e.GetBodyAcceleration(t), Vec3::Zero(), 1e-3, "acceleration", c2);
      // angles change linearly; the rate is that of the rotation they describe
      auto rq = [&](double x) {return rpyq(want(wa, x));};
      auto om = [&](double x) {return Vec3(ref::qlog(ref::qmul(ref::qinv(rq(x - 1e-4)), rq(x + 1e-4))) / 2e-4);};
      Vec3 w = om(r), al = (om(r + 1e-3) - om(r - 1e-3)) / 2e-3;
      M.nearM(e.GetBodyAngularRate(t), w, 1e-6 + 2 * aslope * aslope / rate, "angular-rate", c2);
      M.nearM(e.GetBodyAngularAcceleration(t), al, 1e-3 + 4 * aslope * aslope * aslope / rate, "angular-acceleration", c2);
      M.ev("smoother_derivatives");
    }
  }
}

// waypoint errors: the first waypoint is exact, the others are scattered about the given ones
static void scatter(Mon & M, Rng & R)
{
  int n = R.i(3, 6);
  std::vector<double> P, A, T, pe{0.1, 0.02, 0.3}, ae{0.01, 0.05, 0.02};
  for (int k = 0; k < 3 * n; ++k) {P.push_back(R.u(-2, 2)); A.push_back(R.u(-0.5, 0.5));}
  for (int k = 0; k < n; ++k) {T.push_back(k);}
  double st = R.u(0, 1), mt = n + 1.5;
  TruthEngineSmoother e(T, P, A, pe, ae, st, mt, 100, lg());
  TruthEngineSpline s(P, A, pe, ae, st, mt, lg());
  bool moved = false;
  for (int k = 0; k < n; ++k) {
    Vec3 p(P[size_t(3 * k)], P[size_t(3 * k + 1)], P[size_t(3 * k + 2)]), a(A[size_t(3 * k)], A[size_t(3 * k + 1)], A[size_t(3 * k + 2)]);
    Vec3 dp = e.GetBodyPosition(st + k) - p, da = qrpy(e.GetBodyAngularPosition(st + k)) - a;
    std::string ctx = strf("smoother waypoint %d error=", k) + vs(dp) + vs(da);
    for (int j = 0; j < 3; ++j) {
      double lim = k == 0 ? 1e-9 : 7 * pe[size_t(j)], lia = k == 0 ? 1e-9 : 7 * ae[size_t(j)];
      M.check(std::abs(dp[j]) < lim && std::abs(da[j]) < lia, "waypoint-scatter", ctx);
    }
    if (k) {moved = moved || dp.norm() > 1e-6;}
  }
  M.check(moved, "waypoint-scatter-absent");
  Vec3 p(P[0], P[1], P[2]), a(A[0], A[1], A[2]);
  still(M, s, 0.0, p, a, "spline start");
  M.nearM(s.GetBodyPosition(st), p, 1e-6, "waypoint-first");
  M.ev("scattered");
}

static void shortRun(Mon & M, Rng & R)
{
  double mt = R.logu(1e-5, 0.5);
  std::vector<double> z{0, 0, 0}, P{1, 2, 3, 4, 5, 6}, A{0.1, 0.2, 0.3, 0, 0, 0}, T{0, R.u(0.01, 1)};
  TruthEngineSmoother e(T, P, A, z, z, 0, mt, R.pick(std::vector<double>{10, 100, 1000}), lg());
  for (double f : {0.0, 0.3, 1.0}) {finite(M, e, f * mt, strf("smoother max=%g t=%g", mt, f * mt));}
}

static void accessors(Mon & M, Rng & R)
{
  TruthEngineCyclic e(Vec3::Ones(), Vec3::Ones(), Vec3::Zero(), Vec3::Zero(), 1, 0.1, 0, 10, lg());
  struct S {Vec3 a, b, c; Quat q;};
  std::map<unsigned, S> imu, cam, board, gps;
  for (int k = R.i(3, 12); k > 0; --k) {
    unsigned id = unsigned(R.i(0, 6));
    S s{R.v(1), R.v(1), R.v(1), R.q()};
    switch (R.i(0, 3)) {
      case 0: e.SetImuPosition(id, s.a); e.SetImuAngularPosition(id, s.q); e.SetImuAccelerometerBias(id, s.b); e.SetImuGyroscopeBias(id, s.c); imu[id] = s; break;
      case 1: e.SetCameraPosition(id, s.a); e.SetCameraAngularPosition(id, s.q); cam[id] = s; break;
      case 2: e.SetBoardPosition(id, s.a); e.SetBoardOrientation(id, s.q); board[id] = s; break;
      default: e.SetGpsPosition(id, s.a); gps[id] = s; break;
    }
  }
  for (auto & x : imu) {
    M.check(e.GetImuPosition(x.first) == x.second.a && e.GetImuAccelerometerBias(x.first) == x.second.b && e.GetImuGyroscopeBias(x.first) == x.second.c &&
      e.GetImuAngularPosition(x.first).coeffs() == x.second.q.coeffs(), "stored-imu");
  }
  for (auto & x : cam) {M.check(e.GetCameraPosition(x.first) == x.second.a && e.GetCameraAngularPosition(x.first).coeffs() == x.second.q.coeffs(), "stored-camera");}
  for (auto & x : board) {M.check(e.GetBoardPosition(x.first) == x.second.a && e.GetBoardOrientation(x.first).coeffs() == x.second.q.coeffs(), "stored-board");}
  for (auto & x : gps) {M.check(e.GetGpsPosition(x.first) == x.second.a, "stored-gps");}
  M.check(std::isfinite(e.GetLocalHeading()), "heading-default");
  // features stay where they are and keep their numbers
  SimRNG::SetSeed(double(R.i(1, 1000)));
  auto f0 = e.GetFeatures();
  unsigned cid = 3;
  Intrinsics in;
  e.SetCameraIntrinsics(cid, in);
  e.SetCameraPosition(cid, R.v(0.2));
  e.SetCameraAngularPosition(cid, R.q());
  double t = R.u(0, 9);
  auto f1 = e.GenerateVisibleFeatures(t, cid, 10);
  M.check(f1.size() == f0.size() + 10 && e.GetFeatures().size() == f1.size(), "feature-count");
  for (size_t k = 0; k < f1.size(); ++k) {
    auto g = e.GetFeature(int(k));
    M.check(g == f1[k] && (k >= f0.size() || f0[k] == f1[k]), "feature-number", strf("feature %d", int(k)));
  }
  for (size_t k = f0.size(); k < f1.size(); ++k) {
    Vec3 p(f1[k].x, f1[k].y, f1[k].z);
    Vec3 pc = ref::rot(e.GetCameraAngularPosition(cid)).transpose() *
      (ref::rot(e.GetBodyAngularPosition(t)).transpose() * (p - e.GetBodyPosition(t)) - e.GetCameraPosition(cid));
    double x = in.f_x / in.pixel_size * pc.x() / pc.z() + in.width / 2, y = in.f_y / in.pixel_size * pc.y() / pc.z() + in.height / 2;
    M.check(pc.z() >= 0 && x > -1e-6 && y > -1e-6 && x < in.width + 1e-6 && y < in.height + 1e-6, "feature-visible", strf("%g %g depth %g", x, y, pc.z()));
    M.ev("visible_features");
  }
}

void run_case(Mon & M, Rng & R)
{
  Hash h;
  SimRNG::SetSeed(1.0);
  cyclic(M, R, h);
  spline(M, R, h);
  smoother(M, R, h);
  scatter(M, R);
  shortRun(M, R);
  accessors(M, R);
  M.done(h.h, true, "one configuration of each truth engine");
}
