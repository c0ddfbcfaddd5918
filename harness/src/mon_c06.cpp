// C06: registration in any order on any filter.
#include "trans.hpp"
using namespace hist;

void run_case(Mon & M, Rng & R)
{
  Cfg c = randomCfg(R);
  c.diagP = R.b(0.6);
  c.diagR = true;
  c.max_sensors = 10;
  World w(c);
  Weights W;
  for (int k : {REG_I, REG_G, REG_C, REG_F}) {W.w[k] = 4;}
  Hash h;
  int nops = R.i(6, 40), regs = 0;
  std::string order;
  for (int k = 0; k < nops; ++k) {
    Op o = genOp(R, w, W);
    bool reg = o.k == REG_I || o.k == REG_G || o.k == REG_C || o.k == REG_F;
    if (reg && R.b(0.15)) {o.A *= R.logu(1e-16, 1);}      // almost certain priors
    Snap pre(*w.ekf);
    w.apply(o);
    if (!reg) {continue;}
    ++regs;
    order += strf("%c%u ", "?PIGCF"[o.k == REG_I ? 2 : o.k == REG_G ? 3 : o.k == REG_C ? 4 : 5], o.id);
    h.add(uint64_t(o.k)).add(uint64_t(o.id)).add(uint64_t(pre.P.rows()));
    std::string ctx = strf("op %d %s order %s", k, describe(o).c_str(), order.c_str()) + cfgs(c);
    State & g = w.ekf->m_state;
    // expected state
    State want = pre.s;
    bool dup = false;
    if (o.k == REG_I) {
      dup = want.imu_states.count(o.id);
      if (!dup) {want.imu_states[o.id] = o.imu;}
    } else if (o.k == REG_G) {
      dup = want.gps_states.count(o.id);
      if (!dup) {want.gps_states[o.id] = o.gps;}
    } else if (o.k == REG_C) {
      dup = want.cam_states.count(o.id);
      if (!dup) {want.cam_states[o.id] = o.cam;}
    } else {
      dup = want.fid_states.count(o.id);
      if (!dup) {want.fid_states[o.id] = o.fid;}
    }
    uint64_t v0 = M.viol;
    sameState(M, g, want, 1e-15, dup ? "duplicate-state" : "state", ctx);
    // expected covariance, addressed by state element
    auto L0 = layout(pre.s), L1 = layout(want);
    MatX P = MatX::Zero(total(L1), total(L1));
    int local = 0;
    for (auto & x : L1) {
      bool mine = !dup && x.id == o.id && ((o.k == REG_I && (x.kind == 'I' || x.kind == 'N')) ||
        (o.k == REG_G && x.kind == 'G') || (o.k == REG_C && x.kind == 'C') || (o.k == REG_F && x.kind == 'F'));
      if (mine) {
        int l2 = 0;
        for (auto & y : L1) {
          bool mine2 = y.id == o.id && (y.kind == x.kind || (o.k == REG_I && (y.kind == 'I' || y.kind == 'N')));
          if (!mine2) {continue;}
          P.block(x.start, y.start, x.size, y.size) = o.A.block(local, l2, x.size, y.size);
          l2 += y.size;
        }
        local += x.size;
        continue;
      }
      for (auto & y : L1) {
        const Blk * a = nullptr, * b = nullptr;
        for (auto & q : L0) {
          if (q.kind == x.kind && q.id == x.id && q.n == x.n) {a = &q;}
          if (q.kind == y.kind && q.id == y.id && q.n == y.n) {b = &q;}
        }
        if (a && b) {P.block(x.start, y.start, x.size, y.size) = pre.P.block(a->start, b->start, x.size, y.size);}
      }
    }
    M.relM(cov(*w.ekf), P, 1e-9, dup ? "duplicate-covariance" : std::string("covariance-") + kname(o.k), ctx);
    if (!dup && local > 0) {
      MatX C = cov(*w.ekf);
      int l = 0;
      for (auto & x : L1) {
        if (x.id == o.id && ((o.k == REG_I && (x.kind == 'I' || x.kind == 'N')) || (o.k == REG_G && x.kind == 'G') ||
          (o.k == REG_C && x.kind == 'C') || (o.k == REG_F && x.kind == 'F')))
        {
          MatX want = o.A.block(l, l, x.size, x.size);
          M.nearM(C.block(x.start, x.start, x.size, x.size), want, 1e-9 * want.cwiseAbs().maxCoeff(), "prior-block", ctx);
          l += x.size;
        }
      }
    }
    M.check(int(w.ekf->GetStateSize()) == total(L1), "size", ctx);
    int is = 0, gs = 0, cs = 0;
    for (auto & x : L1) {
      is += x.kind == 'I' || x.kind == 'N' ? x.size : 0;
      gs += x.kind == 'G' ? x.size : 0;
      cs += x.kind == 'C' ? x.size : 0;
    }
    M.check(int(w.ekf->GetImuStateSize()) == is && int(w.ekf->GetGpsStateSize()) == gs && int(w.ekf->GetCamStateSize()) == cs &&
      w.ekf->GetImuCount() == want.imu_states.size() && w.ekf->GetGpsCount() == want.gps_states.size() &&
      w.ekf->GetCamCount() == want.cam_states.size(), "reported-sizes", ctx);
    // the registered values and flags can be read back, at the index of their block
    if (!dup) {
      for (auto & x : L1) {
        if (x.kind == 'I') {M.check(int(g.imu_states[x.id].index_extrinsic) == x.start, "index", ctx);}
        if (x.kind == 'N') {M.check(int(g.imu_states[x.id].index_intrinsic) == x.start, "index", ctx);}
        if (x.kind == 'G') {M.check(int(g.gps_states[x.id].index) == x.start, "index", ctx);}
        if (x.kind == 'C') {M.check(int(g.cam_states[x.id].index) == x.start, "index", ctx);}
        if (x.kind == 'F') {M.check(int(g.fid_states[x.id].index) == x.start, "index", ctx);}
        if (x.kind == 'A') {M.check(int(g.aug_states[x.id][size_t(x.n)].index) == x.start, "index", ctx);}
      }
      if (o.k == REG_I) {
        ImuState r = w.ekf->GetImuState(o.id);
        M.check(r.pos_i_in_b == o.imu.pos_i_in_b && r.GetIsExtrinsic() == o.imu.GetIsExtrinsic() &&
          r.GetIsIntrinsic() == o.imu.GetIsIntrinsic() && r.acc_bias == o.imu.acc_bias && r.omg_bias == o.imu.omg_bias,
          "read-back", ctx);
      }
      if (o.k == REG_G) {
        GpsState r = w.ekf->GetGpsState(o.id);
        M.check(r.pos_a_in_b == o.gps.pos_a_in_b && r.GetIsExtrinsic() == o.gps.GetIsExtrinsic(), "read-back", ctx);
      }
      if (o.k == REG_C) {
        CamState r = w.ekf->GetCamState(o.id);
        M.check(r.pos_c_in_b == o.cam.pos_c_in_b && r.GetIsExtrinsic() == o.cam.GetIsExtrinsic() && r.rate == o.cam.rate,
          "read-back", ctx);
      }
    }
    M.check(w.ekf->GetCurrentTime() == pre.t && w.ekf->IsGravityInitialized() == pre.grav, "clock", ctx);
    bool aug = false;
    for (auto & x : L0) {aug |= x.kind == 'A';}
    M.ev(std::string(dup ? "duplicate_" : "register_") + kname(o.k));
    if (aug) {M.ev("register_with_clones");}
    if (M.viol != v0) {break;}
  }
  M.done(h.h, regs >= 2, order + cfgs(c));
}
