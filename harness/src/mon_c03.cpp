// C03: the filter clock.
#include "trans.hpp"
using namespace hist;

static void exact(Mon & M, const Snap & a, const Snap & b, const std::string & key, const std::string & ctx)
{
  auto x = flat(a.s), y = flat(b.s);
  bool same = x.size() == y.size() && a.P == b.P && a.t == b.t && a.grav == b.grav && a.lla == b.lla;
  std::string why = same ? "" : "covariance, clock or number of estimates differ ";
  for (size_t k = 0; same && k < x.size(); ++k) {
    if (x[k].first != y[k].first || !(x[k].second == y[k].second)) {
      same = false;
      why = x[k].first + " " + vs(x[k].second) + " -> " + vs(y[k].second) + " ";
    }
  }
  M.check(same, key, why + ctx);
}

void run_case(Mon & M, Rng & R)
{
  Cfg c = randomCfg(R);
  World w(c);
  Weights W;
  W.w[PAST] = 5; W.w[PRED] = 6;
  Hash h;
  int nops = R.i(8, 40), past = 0;
  double last = 0;
  M.check(w.ekf->GetCurrentTime() == 0.0, "clock-start", strf("starts at %.9g", w.ekf->GetCurrentTime()));
  for (int k = 0; k < nops; ++k) {
    Op o = genOp(R, w, W);
    bool timed = o.k == PRED || o.k == FRAME || o.k == U_IMU || o.k == U_GPS || o.k == U_FID || o.k == U_VIS;
    bool late = timed && o.k != PRED && R.b(0.25) && last > 0;
    if (late) {o.t = w.local(last - R.logu(1e-6, 5));}
    if (o.k == FRAME && late) {o.k = PAST;}       // a late frame is a late prediction plus a clone
    double T = w.ekf->GetCurrentTime();
    std::string ctx = strf("op %d %s now=%.9g ", k, describe(o).c_str(), T) + cfgs(c);
    if (!timed || o.k == PAST) {
      Snap pre(*w.ekf);
      w.apply(o);
      Snap post(*w.ekf);
      if (o.k == PAST) {
        ++past;
        M.ev("late_prediction");
        exact(M, pre, post, "late-prediction-changes", ctx);
      }
      M.check(w.ekf->GetCurrentTime() == T, "clock-moved-without-time", ctx);
      continue;
    }
    w.apply(o);
    double N = w.ekf->GetCurrentTime();
    M.check(N >= T, "clock-backwards", strf("%.12g -> %.12g ", T, N) + ctx);
    double want = std::max(T, o.t);
    M.near(N, want, 0.0 + 1e-12, "clock-value", ctx);
    M.ev(late ? "late_measurement" : "timed_op");
    last = N;
    h.add(o.t).add(uint64_t(o.k));
  }
  // before gravity, prediction only moves the clock
  {
    Cfg c2 = randomCfg(R);
    c2.aug = R.pick(std::vector<AugmentationType>{AugmentationType::NONE, AugmentationType::ALL, AugmentationType::PRIMARY});
    World v(c2);
    v.apply(regOp(R, v, REG_C));
    double t = 0;
    for (int k = 0; k < 4; ++k) {
      Snap pre(*v.ekf);
      t += R.logu(1e-4, 5);
      v.ekf->PredictModel(t);
      Snap post(*v.ekf);
      M.check(post.t == t, "clock-before-gravity", strf("%.9g want %.9g", post.t, t));
      post.t = pre.t;
      exact(M, pre, post, "prediction-before-gravity-changes", cfgs(c2));
      M.ev("predict_before_gravity");
    }
  }
  // local time is relative to the first time the filter ever saw, or absolute after explicit initialisation
  {
    EKF::Parameters p;
    p.debug_logger = w.log;
    EKF e(p);
    bool init = R.b(0.4);
    double ref0, first = R.pick(std::vector<double>{0.0, 5.5, -2.25, 1.6e9, 1e3});
    if (init) {
      double t0 = R.b() ? 0.0 : R.u(0, 10);
      BodyState b;
      b.pos_b_in_l = R.v();
      b.vel_b_in_l = R.v();
      b.ang_b_to_l = R.q();
      e.Initialize(t0, b);
      M.check(e.GetCurrentTime() == t0, "initialise-clock", strf("%.9g want %.9g", e.GetCurrentTime(), t0));
      M.check(e.m_state.body_state.pos_b_in_l == b.pos_b_in_l && e.m_state.body_state.vel_b_in_l == b.vel_b_in_l &&
        e.m_state.body_state.ang_b_to_l.coeffs() == b.ang_b_to_l.coeffs(), "initialise-state");
      ref0 = 0;
    } else {
      double l = e.CalculateLocalTime(first);
      M.check(l == 0.0, "first-time-is-zero", strf("local %.9g for first time %.9g", l, first));
      M.check(e.GetCurrentTime() == 0.0, "first-time-clock");
      ref0 = first;
    }
    for (int k = 0; k < 6; ++k) {
      double a = first + R.u(-5, 100);
      double now = e.GetCurrentTime();
      double l = e.CalculateLocalTime(a);
      M.near(l, a - ref0, 1e-12 + 1e-15 * std::fabs(a), "local-time", strf("absolute %.12g first %.12g init=%d", a, first, init));
      M.check(e.GetCurrentTime() == now, "local-time-moves-clock");
      if (R.b()) {
        e.PredictModel(l);
        M.check(e.GetCurrentTime() == std::max(now, l), "clock-value2");
      }
    }
    M.ev(init ? "initialised_clock" : "first_measurement_clock");
  }
  M.done(h.h, past >= 1, cfgs(c) + strf(" %d late predictions of %d ops", past, nops));
}
