// C14: IMU measurements (stationary detection, stationary correction, single and several IMUs) against a reference.
#include "trans.hpp"
using namespace hist;

static VecX motionRef(const State & x, unsigned id)
{
  auto & im = x.imu_states.at(id);
  Mat3 Cb = ref::rot(x.body_state.ang_b_to_l), Ci = ref::rot(im.ang_i_to_b);
  Vec3 wb = Cb.transpose() * x.body_state.ang_vel_b_in_l, al = Cb.transpose() * x.body_state.ang_acc_b_in_l;
  Vec3 a = Cb.transpose() * x.body_state.acc_b_in_l + al.cross(im.pos_i_in_b) + wb.cross(wb.cross(im.pos_i_in_b));
  VecX y(6);
  y << im.acc_bias + Ci.transpose() * a, im.omg_bias + Ci.transpose() * wb;
  return y;
}
static VecX restRef(const State & x, unsigned id)
{
  auto & im = x.imu_states.at(id);
  Mat3 C = ref::rot(x.body_state.ang_b_to_l) * ref::rot(im.ang_i_to_b);
  Vec3 g = im.acc_bias + C.transpose() * ref::G;
  if (!im.GetIsIntrinsic()) {return g;}
  VecX y(6);
  y << g, im.omg_bias;
  return y;
}

void run_case(Mon & M, Rng & R)
{
  Cfg c = randomCfg(R);
  c.aug = R.pick(std::vector<AugmentationType>{AugmentationType::ALL, AugmentationType::PRIMARY});
  c.diagP = R.b();
  c.diagR = R.b();
  if (R.b(0.5)) {c.P0 *= 0.05;}
  World w(c);
  Weights W;
  W.w[U_IMU] = 0;
  if (R.b(0.5)) {W.w[REG_I] = 0;}
  Hash h;
  for (int k = R.i(1, 8); k > 0; --k) {w.apply(genOp(R, w, W));}
  int want_imus = R.pick(std::vector<int>{1, 1, 2, 3});
  while (int(w.ekf->m_state.imu_states.size()) < want_imus) {w.apply(regOp(R, w, REG_I));}
  {
    Op z;
    z.k = ZACC;
    z.flag = R.b();
    w.apply(z);
  }
  if (R.b(0.4)) {
    w.ekf->m_state.body_state.ang_vel_b_in_l.setZero();
    w.ekf->m_state.body_state.ang_acc_b_in_l.setZero();
    w.ekf->m_state.body_state.acc_b_in_l = ref::G;
  }
  std::map<unsigned, bool> latched;
  int reps = R.i(3, 12), stat = 0, mov = 0;
  for (int rep = 0; rep < reps; ++rep) {
    if (R.b(0.1)) {
      Op z;
      z.k = GRAV;
      w.apply(z);
    }
    auto ks = keys(w.ekf->m_state.imu_states);
    unsigned id = R.pick(std::vector<unsigned>(ks.begin(), ks.end()));
    Snap pre(*w.ekf);
    auto & im = pre.s.imu_states[id];
    bool late = R.b(0.1);
    double t = late ? w.local(pre.t - R.logu(1e-3, 2)) : nextTime(R, w, true);
    MatX Ra = randCov(R, 3, c.diagR) * R.logu(1e-3, 0.3), Rg = randCov(R, 3, c.diagR) * R.logu(1e-3, 0.3);
    MatX Rn = MatX::Zero(6, 6);
    Rn.topLeftCorner(3, 3) = Ra;
    Rn.bottomRightCorner(3, 3) = Rg;
    int mode = R.i(0, 2);
    VecX y(6);
    if (mode == 0 || !latched[id]) {
      VecX g = restRef(pre.s, id);
      y << g.head<3>(), im.omg_bias;
      double e = R.b(0.6) ? R.logu(1e-4, 0.05) : R.logu(0.05, 5);
      y.head<3>() += R.v(e);
      y.tail<3>() += R.v(R.b(0.6) ? e : e * 0.1);
    } else {
      y = motionRef(pre.s, id);
      y.head<3>() += R.v(R.logu(1e-3, 3));
      y.tail<3>() += R.v(R.logu(1e-3, 1));
      if (R.b(0.04)) {y.head<3>() += R.v(R.logu(10, 1500)), y.tail<3>() += R.v(R.logu(0.1, 100));}      // a shock
    }
    bool inn = im.GetIsIntrinsic();
    long m = inn ? 6 : 3;
    auto rest = [&](const State & x) {return restRef(x, id);};
    VecX r = y.head(m) - restRef(pre.s, id);
    MatX Hs = numJac(pre.s, rest), Rs = Rn.topLeftCorner(m, m);
    double score = r.dot((Hs * pre.P * Hs.transpose() + c.scale * Rs).ldlt().solve(r));
    if (!latched[id] && std::abs(score / c.chi2 - 1) < 1e-4) {
      M.ev("borderline_skipped");
      continue;
    }
    bool was = latched[id];
    bool stationary = !was && !(pre.grav && score > c.chi2);
    if (!stationary) {latched[id] = true;}
    State s, s2;
    double move = 0;     // size of the correction
    MatX P;
    int n = int(pre.s.imu_states.size());
    std::string ctx = strf("late=%d n=%d ext=%d int=%d rep=%d score=%g/%g latched=%d grav=%d ", late, n, im.GetIsExtrinsic(), inn, rep,
        score, c.chi2, was, pre.grav) + cfgs(c);
    Op o;
    o.k = U_IMU;
    o.id = id;
    o.t = t;
    o.a = y.head<3>();
    o.b = y.tail<3>();
    o.A = Ra;
    o.B = Rg;
    uint64_t v0 = M.viol;
    if (stationary) {
      Snap p2 = pre;
      p2.grav = pre.grav || score < c.chi2;
      predictRef(p2, t, w.zacc, c.noise, s, P);
      MatX H = numJac(s, rest), Pb = P;
      VecX dx = kalmanRef(P, H, r, Rs);
      VecX dx2 = kalmanRef(Pb, H, y.head(m) - restRef(s, id), Rs);
      auto fin = [&](const VecX & d) {
          State x = plus(s, d);
          x.body_state.acc_b_in_l = ref::G;
          x.body_state.ang_vel_b_in_l.setZero();
          x.body_state.ang_acc_b_in_l.setZero();
          return x;
        };
      move = dx.norm();
      s2 = fin(dx2);
      s = fin(dx);
      w.apply(o);
      w.zacc = true;
      M.check(w.ekf->IsGravityInitialized() == p2.grav, "gravity-flag", ctx);
      // the difference may be taken at the estimate before or after the time step
      if (minus(w.ekf->m_state, s2).norm() < minus(w.ekf->m_state, s).norm()) {s = s2;}
      M.ev(inn ? "stationary_with_gyro" : "stationary_accelerometer");
      ++stat;
    } else {
      s = pre.s;
      P = pre.P;
      if (n == 1) {
        Mat3 C = ref::rot(s.body_state.ang_b_to_l) * ref::rot(im.ang_i_to_b);
        s.body_state.acc_b_in_l = C * (o.a - im.acc_bias);
        s.body_state.ang_vel_b_in_l = C * (o.b - im.omg_bias);
        s.body_state.ang_acc_b_in_l.setZero();
        M.ev("moving_single");
      } else {
        MatX H = numJac(s, [&](const State & x) {return motionRef(x, id);});
        VecX dx = kalmanRef(P, H, y - motionRef(s, id), Rn);
        s = plus(s, dx);
        M.ev("moving_several");
      }
      Snap p2 = pre;
      p2.s = s;
      p2.P = P;
      predictRef(p2, t, false, c.noise, s, P);
      w.apply(o);
      w.zacc = false;
      M.check(w.ekf->IsGravityInitialized() == pre.grav, "gravity-flag", ctx);
      ++mov;
    }
    std::string tag = stationary ? "-stationary" : n == 1 ? "-single" : "-several";
    sameState(M, w.ekf->m_state, s, 2e-6 * (1 + move), "state" + tag, ctx);
    M.relM(cov(*w.ekf), P, 1e-6, "covariance" + tag, ctx);
    M.check(w.ekf->GetCurrentTime() == std::max(pre.t, t), "clock", ctx);
    for (auto & e : w.ekf->m_state.imu_states) {
      auto & b = pre.s.imu_states[e.first];
      if (!e.second.GetIsExtrinsic()) {
        M.check(e.second.pos_i_in_b == b.pos_i_in_b && e.second.ang_i_to_b.coeffs() == b.ang_i_to_b.coeffs(), "uncalibrated-moved", ctx);
      }
      if (!e.second.GetIsIntrinsic()) {
        M.check(e.second.acc_bias == b.acc_bias && e.second.omg_bias == b.omg_bias, "uncalibrated-moved", ctx);
      }
    }
    // helper functions used by callers
    State now = w.ekf->m_state;
    VecX pm = motionRef(now, id);
    M.nearM(w.imu[id]->PredictMeasurement(*w.ekf), pm, 1e-8 * (1 + pm.norm()), "predicted-measurement", ctx);
    MatX J = numJac(now, [&](const State & x) {return motionRef(x, id);});
    M.nearM(w.imu[id]->GetMeasurementJacobian(*w.ekf), J, 1e-6 * (1 + J.norm()), "jacobian", ctx);
    h.add(o.a).add(t);
    if (M.viol != v0) {break;}
  }
  if (stat && mov) {M.ev("histories_with_start_of_motion");}
  M.done(h.h, stat + mov > 0, cfgs(c) + strf(" %d imus, %d stationary, %d moving", want_imus, stat, mov));
}
