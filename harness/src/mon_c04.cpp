// C04: the generic update against an independently computed Joseph update.
#include "trans.hpp"
using namespace hist;

void run_case(Mon & M, Rng & R)
{
  Cfg c = randomCfg(R);
  c.diagP = R.b();
  c.diagR = R.b();
  World w(c);
  Weights W;
  Hash h;
  // a history to get a realistic prior
  int n = R.i(1, 14);
  for (int k = 0; k < n; ++k) {w.apply(genOp(R, w, W));}
  int N = total(layout(w.ekf->m_state));
  if (R.b(0.4)) {           // arbitrary prior
    MatX P = R.spd(N, R.logu(1e-4, 10));
    w.ekf->m_cov = c.root ? upperRoot(P) : P;
  } else if (R.b(0.3)) {    // some elements known exactly
    MatX P = MatX::Zero(N, N);
    for (int k = 0; k < N; ++k) {P(k, k) = R.b(0.3) ? 0.0 : R.logu(1e-3, 1);}
    w.ekf->m_cov = c.root ? MatX(P.cwiseSqrt()) : P;
  }
  for (int rep = 0; rep < 3; ++rep) {
    Snap pre(*w.ekf);
    int m = R.i(1, 8);
    MatX H = R.m(m, N);
    for (int q = 0; q < H.size(); ++q) {if (R.b(0.6)) {H.data()[q] = 0;}}
    if (R.b(0.15)) {H.row(R.i(0, m - 1)).setZero();}
    if (R.b(0.15) && m > 1) {H.row(0) = H.row(1);}
    VecX r = R.m(m, 1, R.logu(1e-4, 0.3));
    if (R.b(0.1)) {r.setZero();}
    MatX Rn = randCov(R, m, c.diagR) * R.logu(1e-3, 10);
    MatX P = pre.P;
    VecX dx = kalmanRef(P, H, r, Rn);
    Updater::KalmanUpdate(*w.ekf, H, r, Rn);
    std::string ctx = strf("m=%d N=%d diagR=%d ", m, N, c.diagR) + cfgs(c);
    State want = plus(pre.s, dx);
    sameState(M, w.ekf->m_state, want, 1e-6, "state", ctx);
    MatX got = cov(*w.ekf);
    M.relM(got, P, 1e-7, "covariance", ctx);
    if (got.rows() == N && got.allFinite()) {
      Eigen::SelfAdjointEigenSolver<MatX> es(pre.P - 0.5 * (got + got.transpose()), Eigen::EigenvaluesOnly);
      double sc = pre.P.cwiseAbs().maxCoeff();
      M.near(std::min(0.0, es.eigenvalues().minCoeff()) / sc, 0, 1e-9, "uncertainty-grows", ctx);
      // elements with no correlation to the measurement keep value and variance
      MatX C = pre.P * H.transpose();
      for (int k = 0; k < N; ++k) {
        if (C.row(k).cwiseAbs().maxCoeff() < 1e-15 * sc) {
          M.near(got(k, k), pre.P(k, k), 1e-9 * sc, "uncorrelated-variance", ctx);
          M.ev("uncorrelated_elements");
        }
      }
    } else {
      break;
    }
    M.check(w.ekf->GetCurrentTime() == pre.t, "clock", ctx);
    M.ev(c.root ? "update_root" : "update_std");
    M.ev(c.diagR ? "noise_diagonal" : "noise_full");
    h.add(H).add(r);
  }
  M.done(h.h, true, cfgs(c) + strf(" N=%d", N));
}
