// C15: a board detection as a Kalman update, against a numerically differentiated reference prediction.
#include "trans.hpp"
using namespace hist;

void run_case(Mon & M, Rng & R)
{
  Cfg c = randomCfg(R);
  c.aug = R.pick(std::vector<AugmentationType>{AugmentationType::ALL, AugmentationType::PRIMARY});
  c.diagP = R.b();
  c.diagR = R.b();
  World w(c);
  Weights W;
  Hash h;
  // calibrations of the first update of each pair of board and camera
  std::map<std::pair<unsigned, unsigned>, std::pair<FidState, CamState>> first;
  for (int k = R.i(1, 12); k > 0; --k) {
    Op o = genOp(R, w, W);
    if (o.k == U_FID) {first.insert({{o.id, o.id2}, {w.ekf->m_state.fid_states[o.id], w.ekf->m_state.cam_states[o.id2]}});}
    w.apply(o);
  }
  while (w.ekf->m_state.cam_states.empty() || R.b(0.2)) {w.apply(regOp(R, w, REG_C));}
  while (w.ekf->m_state.fid_states.empty() || R.b(0.3)) {w.apply(regOp(R, w, REG_F));}
  {
    Op z;
    z.k = ZACC;
    z.flag = R.b(0.3);
    w.apply(z);
  }
  int reps = R.i(1, 5);
  for (int rep = 0; rep < reps; ++rep) {
    Op o;
    o.k = U_FID;
    State & now = w.ekf->m_state;
    auto kf = keys(now.fid_states), kc = keys(now.cam_states);
    o.id = R.pick(std::vector<unsigned>(kf.begin(), kf.end()));
    o.id2 = R.pick(std::vector<unsigned>(kc.begin(), kc.end()));
    Snap pre(*w.ekf);
    bool late = R.b(0.15);
    o.t = late ? w.local(pre.t - R.logu(1e-3, 2)) : nextTime(R, w);
    State s;
    MatX P;
    predictRef(pre, o.t, w.zacc, c.noise, s, P);
    auto ppos = [&](const State & x) -> Vec3 {
        auto & f = x.fid_states.at(o.id);
        auto & cm = x.cam_states.at(o.id2);
        return ref::rot(cm.ang_c_to_b).transpose() *
               (ref::rot(x.body_state.ang_b_to_l).transpose() * (f.pos_f_in_l - x.body_state.pos_b_in_l) - cm.pos_c_in_b);
      };
    auto pang = [&](const State & x) -> Quat {
        return ref::qmul(ref::qinv(x.cam_states.at(o.id2).ang_c_to_b),
                 ref::qmul(ref::qinv(x.body_state.ang_b_to_l), x.fid_states.at(o.id).ang_f_to_l));
      };
    Quat q0 = pang(s);
    o.det.pos_f_in_c = ppos(s) + R.v(R.logu(1e-4, 1));
    o.det.ang_f_to_c = ref::qmul(ref::qexp(R.b(0.2) ? Vec3(R.v(1).normalized() * R.u(0.5, 3.1)) : R.v(R.logu(1e-4, 0.5))), q0);
    if (R.b(0.3)) {o.det.ang_f_to_c.coeffs() *= -1;}
    for (int k = 0; k < 3; ++k) {
      o.det.pos_error[k] = R.logu(1e-4, 0.5);
      o.det.ang_error[k] = R.logu(1e-4, 0.5);
    }
    if (R.b(0.06)) {o.det.pos_error *= 1e-5;}      // very good detections
    if (R.b(0.04)) {o.det.pos_f_in_c += R.v(R.logu(1, 300));}      // far from the prediction
    o.det.frame_id = w.frame_no;
    o.det.frame_time = o.t;
    // measured minus predicted: positions in the camera frame, rotations as the camera-frame rotation vector
    if (!c.fej || !first.count({o.id, o.id2})) {
      first.erase({o.id, o.id2});
      first.insert({{o.id, o.id2}, {s.fid_states.at(o.id), s.cam_states.at(o.id2)}});
    } else {
      M.ev("updates_first_estimate");
    }
    State lin = s;       // Jacobians are taken there, residuals at the current calibration
    lin.fid_states.at(o.id).pos_f_in_l = first.at({o.id, o.id2}).first.pos_f_in_l;
    lin.fid_states.at(o.id).ang_f_to_l = first.at({o.id, o.id2}).first.ang_f_to_l;
    lin.cam_states.at(o.id2).pos_c_in_b = first.at({o.id, o.id2}).second.pos_c_in_b;
    lin.cam_states.at(o.id2).ang_c_to_b = first.at({o.id, o.id2}).second.ang_c_to_b;
    Quat l0 = pang(lin);
    auto pred = [&](const State & x) -> VecX {
        VecX y(6);
        y << ppos(x), ref::qlog(ref::qmul(pang(x), ref::qinv(l0)));
        return y;
      };
    VecX r(6);
    r << o.det.pos_f_in_c - ppos(s), ref::qlog(ref::qmul(o.det.ang_f_to_c, ref::qinv(q0)));
    MatX Rn = MatX::Zero(6, 6);
    for (int k = 0; k < 3; ++k) {
      Rn(k, k) = o.det.pos_error[k];
      Rn(3 + k, 3 + k) = o.det.ang_error[k];
    }
    MatX H = numJac(lin, pred);
    VecX dx = kalmanRef(P, H, r, Rn);
    State want = plus(s, dx);
    w.apply(o);
    bool fc = s.fid_states[o.id].GetIsExtrinsic(), cc = s.cam_states[o.id2].GetIsExtrinsic();
    std::string ctx = strf("late=%d board_cal=%d cam_cal=%d rep=%d ", late, fc, cc, rep) + cfgs(c);
    uint64_t v0 = M.viol;
    {
      sameState(M, w.ekf->m_state, want, 2e-6, "state", ctx);
      M.relM(cov(*w.ekf), P, 1e-6, "covariance", ctx);
      M.ev("updates_compared");
      M.ev(strf("board_cal=%d cam_cal=%d", fc, cc));
    }
    M.check(w.ekf->GetCurrentTime() == std::max(pre.t, o.t), "clock", ctx);
    for (auto & f : w.ekf->m_state.fid_states) {
      if (!f.second.GetIsExtrinsic()) {
        M.check(f.second.pos_f_in_l == pre.s.fid_states[f.first].pos_f_in_l &&
          f.second.ang_f_to_l.coeffs() == pre.s.fid_states[f.first].ang_f_to_l.coeffs(), "uncalibrated-moved", ctx);
      }
    }
    for (auto & f : w.ekf->m_state.cam_states) {
      if (!f.second.GetIsExtrinsic()) {
        M.check(f.second.pos_c_in_b == pre.s.cam_states[f.first].pos_c_in_b &&
          f.second.ang_c_to_b.coeffs() == pre.s.cam_states[f.first].ang_c_to_b.coeffs(), "uncalibrated-moved", ctx);
      }
    }
    {
      Snap a(*w.ekf);
      VecX y = w.fid[{o.id, o.id2}]->PredictMeasurement(*w.ekf);
      M.nearM(y.head<3>(), ppos(a.s), 1e-9 * (1 + ppos(a.s).norm()), "predicted-position", ctx);
      Vec3 e = ref::qlog(ref::qmul(ref::qexp(y.tail<3>()), ref::qinv(pang(a.s))));
      M.nearM(e, Vec3::Zero(), 1e-6, "predicted-rotation", ctx);
    }
    // a detection equal to the prediction changes no estimate
    if (R.b(0.2)) {
      Snap a(*w.ekf);
      Op z = o;
      z.t = a.t;
      z.det.pos_f_in_c = ppos(a.s);
      z.det.ang_f_to_c = pang(a.s);
      w.apply(z);
      sameState(M, w.ekf->m_state, a.s, 1e-7, "exact-detection", ctx);
      M.ev("exact_detections");
    }
    h.add(o.det.pos_f_in_c).add(o.t);
    if (M.viol != v0) {break;}
  }
  M.done(h.h, true, cfgs(c) + strf(" %d detections", reps));
}
