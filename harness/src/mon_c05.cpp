// C05: the same history in square-root and standard form.
#include "trans.hpp"
using namespace hist;

void run_case(Mon & M, Rng & R)
{
  Cfg c = randomCfg(R);
  c.diagP = R.b(0.7);
  c.diagR = R.b(0.7);
  Cfg a = c, b = c;
  a.root = false;
  b.root = true;
  World wa(a), wb(b);
  Weights W;
  Hash h;
  std::set<int> kinds;
  int nops = R.i(8, 45);
  for (int k = 0; k < nops; ++k) {
    Op o = genOp(R, wa, W);
    wa.apply(o);
    wb.apply(o);
    wb.frame_no = wa.frame_no;
    kinds.insert(o.k);
    std::string ctx = strf("op %d %s ", k, describe(o).c_str()) + cfgs(c);
    uint64_t v0 = M.viol;
    Snap x(*wa.ekf), y(*wb.ekf);
    std::string kn = kname(o.k);
    M.check(x.t == y.t && x.grav == y.grav && x.lla == y.lla, "decision-" + kn, ctx);
    sameState(M, y.s, x.s, 1e-5, "state-" + kn, ctx);
    if (x.P.allFinite()) {M.relM(y.P, x.P, 1e-6, "covariance-" + kn, ctx);}
    M.ev("pairs_" + kn);
    if (M.viol != v0 || !x.P.allFinite()) {break;}
    // agreed: remove the round-off difference, which the nonlinear models would otherwise amplify
    wb.ekf->m_state = wa.ekf->m_state;
    h.add(uint64_t(o.k)).add(o.t);
  }
  M.done(h.h, kinds.size() >= 4, cfgs(c) + strf(" %d ops %d kinds", nops, int(kinds.size())));
}
