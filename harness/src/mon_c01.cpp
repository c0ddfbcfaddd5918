// C01: covariance soundness and layout over filter histories.
#include "hist.hpp"
using namespace hist;

static void invariants(Mon & M, World & w, const std::string & ctx)
{
  EKF & e = *w.ekf;
  auto L = layout(e.m_state);
  int n = total(L);
  M.check(e.m_cov.rows() == n && e.m_cov.cols() == n, "cov-size",
    strf("covariance is %dx%d for %d estimated elements ", int(e.m_cov.rows()), int(e.m_cov.cols()), n) + ctx);
  M.check(int(e.GetStateSize()) == n, "state-size", strf("reported %u, estimated %d ", e.GetStateSize(), n) + ctx);
  // indices tile the vector
  std::map<char, int> size;
  for (auto & b : L) {
    size[b.kind] += b.size;
    int idx = -1;
    switch (b.kind) {
      case 'B': idx = int(e.m_state.body_state.index); break;
      case 'I': idx = int(e.m_state.imu_states[b.id].index_extrinsic); break;
      case 'N': idx = int(e.m_state.imu_states[b.id].index_intrinsic); break;
      case 'G': idx = int(e.m_state.gps_states[b.id].index); break;
      case 'C': idx = int(e.m_state.cam_states[b.id].index); break;
      case 'F': idx = int(e.m_state.fid_states[b.id].index); break;
      case 'A': idx = int(e.m_state.aug_states[b.id][size_t(b.n)].index); break;
    }
    M.check(idx == b.start, std::string("index-") + b.kind,
      strf("block %c id %u has index %d, expected %d ", b.kind, b.id, idx, b.start) + ctx);
  }
  for (auto & i : e.m_state.imu_states) {
    int want = (i.second.GetIsExtrinsic() ? 6 : 0) + (i.second.GetIsIntrinsic() ? 6 : 0);
    M.check(int(i.second.size) == want, "imu-size", strf("IMU %u size %u expected %d ", i.first, i.second.size, want) + ctx);
  }
  int bs = NB, is = size['I'] + size['N'], gs = size['G'], cs = size['C'], fs = size['F'], as = size['A'];
  M.check(int(e.GetImuStateSize()) == is && int(e.GetGpsStateSize()) == gs && int(e.GetCamStateSize()) == cs &&
    int(e.GetAugStateSize()) == as, "class-size",
    strf("reported imu %u gps %u cam %u aug %u, estimated %d %d %d %d ", e.GetImuStateSize(), e.GetGpsStateSize(),
    e.GetCamStateSize(), e.GetAugStateSize(), is, gs, cs, as) + ctx);
  if (w.registered) {
    M.check(int(e.GetImuStateStart()) == bs && int(e.GetGpsStateStart()) == bs + is &&
      int(e.GetCamStateStart()) == bs + is + gs && int(e.GetFidStateStart()) == bs + is + gs + cs &&
      int(e.GetAugStateStart()) == bs + is + gs + cs + fs, "class-start",
      strf("starts imu %u gps %u cam %u fid %u aug %u ", e.GetImuStateStart(), e.GetGpsStateStart(), e.GetCamStateStart(),
      e.GetFidStateStart(), e.GetAugStateStart()) + ctx);
  }
  M.check(e.GetImuCount() == e.m_state.imu_states.size() && e.GetGpsCount() == e.m_state.gps_states.size() &&
    e.GetCamCount() == e.m_state.cam_states.size(), "counts", ctx);
  M.check(e.GetImuCount() == w.imu.size() && e.GetGpsCount() == w.gps.size() && e.GetCamCount() == w.vis.size(),
    "counts-registered", ctx);
  // numbers
  for (auto & f : flat(e.m_state)) {
    if (!M.check(f.second.allFinite(), "finite-estimate", f.first + "=" + vs(f.second) + " " + ctx)) {return;}
    if (f.first[0] == 'q') {
      M.near(f.second.norm(), 1.0, 1e-6, "unit-rotation", f.first + " " + ctx);
    }
  }
  if (!M.check(e.m_cov.allFinite(), "finite-cov", ctx)) {return;}
  if (e.m_cov.rows() != n || e.m_cov.cols() != n) {return;}
  MatX P = cov(e);
  double sc = P.cwiseAbs().maxCoeff();
  M.near((P - P.transpose()).cwiseAbs().maxCoeff() / sc, 0, 1e-9, "symmetric", ctx);
  Eigen::SelfAdjointEigenSolver<MatX> es(0.5 * (P + P.transpose()), Eigen::EigenvaluesOnly);
  double lo = es.eigenvalues().minCoeff(), hi = es.eigenvalues().maxCoeff();
  M.near(std::min(lo, 0.0) / hi, 0, 1e-9, "psd", strf("min eigenvalue %.3g max %.3g ", lo, hi) + ctx);
  M.check(P.diagonal().minCoeff() >= -1e-12 * sc, "diag-nonneg", ctx);
}

void run_case(Mon & M, Rng & R)
{
  Cfg c = randomCfg(R);
  c.diagP = R.b(0.7);
  c.diagR = R.b(0.7);
  World w(c);
  Weights W;
  Hash h;
  int nops = R.i(10, 60);
  std::set<int> kinds;
  std::string trace;
  for (int k = 0; k < nops; ++k) {
    Op o = genOp(R, w, W);
    w.apply(o);
    h.add(uint64_t(o.k)).add(uint64_t(o.id));
    kinds.insert(o.k);
    M.ev(std::string("op_") + kname(o.k));
    trace += std::string(kname(o.k)) + " ";
    uint64_t v0 = M.viol;
    invariants(M, w, "after op " + std::to_string(k) + " " + describe(o) + " " + cfgs(c));
    M.ev("states_seen");
    if (M.viol != v0) {break;}
  }
  M.ev(strf("aug_type_%d", int(c.aug)));
  M.done(h.h, kinds.size() >= 4, cfgs(c) + ": " + trace.substr(0, 150));
}
