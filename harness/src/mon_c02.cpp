// C02: every prediction in a history equals the kinematic model and its covariance.
#include "trans.hpp"
using namespace hist;

void run_case(Mon & M, Rng & R)
{
  Cfg c = randomCfg(R);
  c.diagP = R.b(0.7);
  c.diagR = R.b(0.7);
  World w(c);
  Weights W;
  W.w[PRED] = 10; W.w[GRAV] = 2; W.w[ZACC] = 2;
  Hash h;
  int nops = R.i(8, 40), preds = 0;
  bool stop = false;
  for (int k = 0; k < nops && !stop; ++k) {
    Op o = genOp(R, w, W);
    if (o.k == PRED && R.b(0.15)) {o.t = w.ekf->GetCurrentTime() + (R.b(0.3) ? R.logu(20, 1e5) : R.logu(0.3, 20));}    // long gaps
    Snap pre(*w.ekf);
    // the asserted zero-acceleration flag is only known after an explicit setting
    if (o.k == U_IMU) {w.apply(o); Op z; z.k = ZACC; z.flag = R.b(0.4); w.apply(z); continue;}
    w.apply(o);
    if (o.k != PRED && o.k != FRAME) {continue;}
    ++preds;
    State s;
    MatX P;
    predictRef(pre, o.t, w.zacc, c.noise, s, P);
    std::string ctx = strf("op %d %s dt=%.4g gravity=%d zero_acc=%d ", k, describe(o).c_str(), o.t - pre.t, pre.grav, w.zacc) + cfgs(c);
    const State & got = w.ekf->m_state;
    uint64_t v0 = M.viol;
    CloneDiff d = cloneDiff(pre.s, got);
    if (M.check(d.ok, "layout", d.why + " " + ctx)) {
      // estimates: body moved, sensors untouched, surviving clones untouched
      State want = withClones(s, got);
      sameState(M, got, want, 1e-9, "state", ctx);
      for (auto & b : layout(got)) {
        if (b.kind != 'A' || d.src[size_t(b.start)] < NB) {continue;}
        for (auto & b0 : layout(pre.s)) {
          if (b0.kind == 'A' && b0.start == d.src[size_t(b.start)]) {
            auto & x = got.aug_states.at(b.id)[size_t(b.n)];
            auto & y = pre.s.aug_states.at(b0.id)[size_t(b0.n)];
            M.check(x.pos_b_in_l == y.pos_b_in_l && x.ang_b_to_l.coeffs() == y.ang_b_to_l.coeffs(), "clone-untouched", ctx);
          }
        }
      }
      M.relM(cov(*w.ekf), select(P, d.src), 1e-9, pre.grav ? "covariance" : "covariance-before-gravity", ctx);
    }
    M.ev(pre.grav ? (w.zacc ? "predict_zero_acc" : "predict_moving") : "predict_before_gravity");
    if (o.t == pre.t) {M.ev("predict_dt0");}
    M.ev(c.root ? "predict_root" : "predict_std");
    h.add(o.t).add(uint64_t(P.rows()));
    stop = M.viol != v0;
  }
  // the transition matrix itself
  double dt = R.logu(1e-4, 10);
  MatX F = MatX::Identity(NB, NB);
  for (int k = 0; k < 3; ++k) {F(k, 3 + k) = dt;}
  M.nearM(EKF::GetStateTransition(dt), F, 1e-12 * (1 + dt), "transition-matrix");
  M.done(h.h, preds >= 2, cfgs(c) + strf(": %d predictions", preds));
}
