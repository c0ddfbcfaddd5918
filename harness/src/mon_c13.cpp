// C13: a GPS fix as a Kalman update, against a numerically differentiated reference prediction.
#include "trans.hpp"
using namespace hist;

void run_case(Mon & M, Rng & R)
{
  Cfg c = randomCfg(R);
  c.aug = R.pick(std::vector<AugmentationType>{AugmentationType::ALL, AugmentationType::PRIMARY});
  c.diagP = R.b();
  c.diagR = R.b();
  World w(c);
  Weights W;
  Hash h;
  std::map<unsigned, Vec3> first;      // antenna position of the first update of each receiver
  for (int k = R.i(1, 12); k > 0; --k) {
    Op o = genOp(R, w, W);
    if (o.k == U_GPS) {first.insert({o.id, w.ekf->m_state.gps_states[o.id].pos_a_in_b});}
    w.apply(o);
  }
  while (w.ekf->m_state.gps_states.empty() || R.b(0.3)) {w.apply(regOp(R, w, REG_G));}
  if (R.b(0.15)) {
    Vec3 sl(R.u(-80, 80), R.u(-179, 179), R.u(0, 1000));
    double sa = R.u(-3, 3);
    w.ekf->SetGpsReference(sl, sa);
    w.c.ref_lla = sl;
    w.c.ref_ang = sa;
  }
  {
    Op z;
    z.k = ZACC;
    z.flag = R.b(0.3);
    w.apply(z);
  }
  int reps = R.i(1, 5);
  for (int rep = 0; rep < reps; ++rep) {
    auto ks = keys(w.ekf->m_state.gps_states);
    unsigned id = R.pick(std::vector<unsigned>(ks.begin(), ks.end()));
    Snap pre(*w.ekf);
    bool late = R.b(0.15);
    double t = late ? w.local(pre.t - R.logu(1e-3, 2)) : nextTime(R, w);
    State s;
    MatX P;
    predictRef(pre, t, w.zacc, c.noise, s, P);
    auto pred = [&](const State & x) -> VecX {
        return x.body_state.pos_b_in_l + ref::rot(x.body_state.ang_b_to_l) * x.gps_states.at(id).pos_a_in_b;
      };
    Vec3 target = pred(s) + R.v(R.b(0.05) ? R.logu(5, 3000) : R.logu(1e-3, 5));
    Vec3 e = ref::lla2ecef(w.c.ref_lla) + ref::ecef2enuR(w.c.ref_lla).transpose() * ref::enu2local(target, -w.c.ref_ang);
    Vec3 fixl = ref::ecef2lla(e);
    MatX Rn = randCov(R, 3, c.diagR) * R.logu(1e-2, 10);
    if (!c.fej || !first.count(id)) {first[id] = s.gps_states.at(id).pos_a_in_b;} else {M.ev("updates_first_estimate");}
    State lin = s;       // Jacobians are taken there, residuals at the current calibration
    lin.gps_states.at(id).pos_a_in_b = first[id];
    VecX r = ref::enu2local(ref::lla2enu(fixl, w.c.ref_lla), w.c.ref_ang) - pred(s);
    MatX H = numJac(lin, pred);
    VecX dx = kalmanRef(P, H, r, Rn);
    State want = plus(s, dx);
    w.gps[id]->UpdateEKF(*w.ekf, c.T0 + t, fixl, Rn);
    std::string ctx = strf("late=%d cal=%d rep=%d ", late, int(s.gps_states[id].GetIsExtrinsic()), rep) + cfgs(c);
    uint64_t v0 = M.viol;
    sameState(M, w.ekf->m_state, want, 2e-6, "state", ctx);
    M.relM(cov(*w.ekf), P, 1e-6, "covariance", ctx);
    M.ev("updates_compared");
    M.check(w.ekf->GetCurrentTime() == std::max(pre.t, t), "clock", ctx);
    M.check(w.ekf->IsLlaInitialized() && Vec3(w.ekf->GetReferenceLLA()) == w.c.ref_lla && w.ekf->GetReferenceAngle() == w.c.ref_ang,
      "reference", ctx);
    for (auto & g : w.ekf->m_state.gps_states) {
      if (!g.second.GetIsExtrinsic()) {
        M.check(g.second.pos_a_in_b == pre.s.gps_states[g.first].pos_a_in_b, "uncalibrated-moved", ctx);
      }
    }
    // helper functions used by callers
    {
      Snap now(*w.ekf);
      M.nearM(w.gps[id]->PredictMeasurement(*w.ekf), pred(now.s), 1e-9 * (1 + pred(now.s).norm()), "predicted-position", ctx);
      if (!c.fej) M.nearM(w.gps[id]->GetMeasurementJacobian(*w.ekf), numJac(now.s, pred), 1e-7 * (1 + now.s.gps_states[id].pos_a_in_b.norm()), "jacobian", ctx);
    }
    h.add(fixl).add(t);
    if (M.viol != v0) {break;}
  }
  // before the reference is known no single-fix update happens; the collected fixes are applied once it is
  if (R.b(0.5)) {
    EKF::Parameters p;
    p.debug_logger = std::make_shared<DebugLogger>(LogLevel::FATAL, "");
    p.gps_init_type = GpsInitType::BASELINE_DIST;
    bool many = R.b(0.15);
    p.gps_init_baseline_dist = many ? R.u(100, 800) : R.u(20, 60);
    p.use_root_covariance = c.root;
    EKF ekf(p);
    ekf.CalculateLocalTime(0);
    GpsState gs;
    gs.SetIsExtrinsic(R.b());
    gs.pos_a_in_b = R.v(0.4);
    ekf.RegisterGPS(3, gs, Mat3(0.1 * Mat3::Identity()));
    GpsUpdater up(3, gs.GetIsExtrinsic(), "", 0.0, p.debug_logger);
    Vec3 lla(R.u(-70, 70), R.u(-170, 170), 30);
    double hd = R.u(-3, 3);
    std::vector<Vec3> fx, xs;
    for (int k = 0; k < (many ? 150 : 15); ++k) {
      Snap a(ekf);
      Vec3 q = a.s.body_state.pos_b_in_l = Vec3(7.0 * k, 3.0 * std::sin(k), 0.2 * k);
      ekf.m_state.body_state.pos_b_in_l = q;
      ekf.m_state.body_state.ang_b_to_l = a.s.body_state.ang_b_to_l = R.q();
      Vec3 e = ref::lla2ecef(lla) + ref::ecef2enuR(lla).transpose() * ref::enu2local(q + R.v(0.05), -hd);
      Vec3 fl = ref::ecef2lla(e);
      fx.push_back(fl);
      xs.push_back(q);
      up.UpdateEKF(ekf, 0.1 * k, fl, Mat3::Identity());
      if (!ekf.IsLlaInitialized()) {
        sameState(M, ekf.m_state, a.s, 1e-15, "early-fix-changed-state");
        M.nearM(cov(ekf), a.P, 1e-12, "early-fix-changed-covariance");
        M.ev("early_fixes");
      } else {
        auto pred = [&](const State & x) -> VecX {
            return x.body_state.pos_b_in_l + ref::rot(x.body_state.ang_b_to_l) * x.gps_states.at(3).pos_a_in_b;
          };
        MatX J = numJac(a.s, pred), H(3 * fx.size(), J.cols());
        VecX r(3 * fx.size());
        for (size_t j = 0; j < fx.size(); ++j) {
          H.middleRows(3 * long(j), 3) = J;
          r.segment<3>(3 * long(j)) =
            ref::enu2local(ref::lla2enu(fx[j], ekf.GetReferenceLLA()), ekf.GetReferenceAngle()) - xs[j];
        }
        MatX P = a.P;
        VecX dx = kalmanRef(P, H, r, MatX::Identity(r.size(), r.size()));
        sameState(M, ekf.m_state, plus(a.s, dx), 1e-6, "initial-batch-state");
        M.relM(cov(ekf), P, 1e-6, "initial-batch-covariance");
        M.ev("initial_batches");
        break;
      }
    }
  }
  M.done(h.h, true, cfgs(c) + strf(" %d fixes", reps));
}
