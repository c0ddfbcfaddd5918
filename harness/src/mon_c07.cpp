// C07: the clone window.
#include "trans.hpp"
using namespace hist;

void run_case(Mon & M, Rng & R)
{
  Cfg c = randomCfg(R);
  if (c.aug == AugmentationType::NONE && R.b(0.7)) {c.aug = AugmentationType::ALL;}
  c.diagP = R.b(0.7);
  c.diagR = R.b(0.7);
  World w(c);
  Weights W;
  W.w[FRAME] = 14; W.w[PRED] = 8; W.w[SETLEN] = 1.0; W.w[REG_C] = 2; W.w[PAST] = 0.5; W.w[GRAV] = 2;
  bool byTime = c.aug == AugmentationType::TIME || c.aug == AugmentationType::ERROR;
  Hash h;
  int nops = R.i(15, 70), frames = 0, adds = 0, drops = 0;
  bool flag = true;
  double prev = 0;
  for (int k = 0; k < nops; ++k) {
    Op o = genOp(R, w, W);
    Snap pre(*w.ekf);
    bool z0 = w.zacc;
    w.apply(o);
    if (o.k == U_IMU) {Op z; z.k = ZACC; z.flag = R.b(0.3); w.apply(z);}
    std::string ctx = strf("op %d %s window %d policy %d ", k, describe(o).c_str(), w.len, int(c.aug)) + cfgs(c);
    const State & got = w.ekf->m_state;
    uint64_t v0 = M.viol;
    bool reg = o.k == REG_I || o.k == REG_G || o.k == REG_C || o.k == REG_F;
    CloneDiff d = cloneDiff(pre.s, got);
    if (!reg && !M.check(d.ok, "layout", d.why + " " + ctx)) {break;}
    bool timed = o.k == PRED || o.k == FRAME || o.k == U_IMU || o.k == U_GPS || o.k == U_FID || o.k == U_VIS;
    if (reg || !timed) {
      bool same = true;
      for (auto & l : pre.s.aug_states) {same &= l.second.empty() || (got.aug_states.count(l.first) && got.aug_states.at(l.first).size() == l.second.size());}
      for (auto & l : got.aug_states) {same &= l.second.empty() || pre.s.aug_states.count(l.first);}
      M.check(same, "window-changes-without-frame", ctx);
    } else if (o.k == PRED || o.k == FRAME) {
      // poses at the moment of cloning: the predicted body
      State s;
      MatX P;
      predictRef(pre, o.t, z0, c.noise, s, P);
      M.relM(cov(*w.ekf), select(P, d.src), 1e-8, d.added.empty() ? (d.dropped.empty() ? "cov-unchanged" : "cov-drop") : d.dropped.empty() ? "cov-add" : "cov-add-drop", ctx);
      for (auto & a : d.added) {
        M.check(a.second.pos_b_in_l == got.body_state.pos_b_in_l &&
          a.second.ang_b_to_l.coeffs() == got.body_state.ang_b_to_l.coeffs(), "clone-pose", ctx);
        M.check(a.second.time == w.ekf->GetCurrentTime(), "clone-time", ctx);
        unsigned key = byTime ? 0 : o.id;
        M.check(a.first == key, "clone-key", ctx);
        if (!byTime) {M.check(a.second.frame_id == o.frame, "clone-frame", ctx);}
        // newest at the back
        M.check(got.aug_states.at(a.first).back().time == a.second.time &&
          got.aug_states.at(a.first).back().frame_id == a.second.frame_id, "clone-order", ctx);
      }
      // policy
      size_t want_add = 0, want_drop = 0;
      bool add_known = true;
      if (c.aug == AugmentationType::NONE) {
      } else if (!byTime) {
        if (o.k == FRAME && (c.aug == AugmentationType::ALL || o.id == w.primary)) {
          want_add = 1;
          size_t n0 = pre.s.aug_states.count(o.id) ? pre.s.aug_states.at(o.id).size() : 0;
          want_drop = n0 + 1 > size_t(w.len) ? 1 : 0;
          // the oldest frame of that camera goes
          for (auto & x : d.dropped) {M.check(x.first == o.id && x.second == 0, "drop-oldest", ctx);}
        }
      } else {
        auto it = pre.s.aug_states.find(0u);
        bool empty = it == pre.s.aug_states.end() || it->second.empty();
        double now = w.ekf->GetCurrentTime(), lo = w.maxT * w.len, hi = w.maxT * (w.len + 1), eps = 1e-9;
        bool need = false;
        if (empty) {
          need = true;
        } else if (c.aug == AugmentationType::TIME) {
          double gap = std::fabs(now - prev);
          need = gap > c.aug_dt;
          add_known = std::fabs(gap - c.aug_dt) > eps;
        } else {
          const AugState & l = it->second.back();
          double gap = now - l.time;
          Vec3 dp = got.body_state.pos_b_in_l - gap * got.body_state.vel_b_in_l - l.pos_b_in_l;
          Quat dq = ref::qmul(ref::qmul(got.body_state.ang_b_to_l, ref::qinv(ref::qexp(gap * got.body_state.ang_vel_b_in_l))),
              ref::qinv(l.ang_b_to_l));
          double pe = dp.norm(), ae = ref::qlog(dq).norm();
          bool err = gap > w.minT && (pe > c.aug_pos || ae > c.aug_ang);
          bool sharp = std::fabs(gap - w.minT) > eps && std::fabs(pe - c.aug_pos) > 1e-7 && std::fabs(ae - c.aug_ang) > 1e-7;
          need = err || gap > hi;
          add_known = sharp && (err || gap > hi + eps || gap < lo - eps);
        }
        want_add = (need && flag) ? 1 : 0;
        if (!flag) {add_known = true;}
        // pruning: a clone goes once its successor is older than the window duration
        if (!empty) {
          auto & list = it->second;
          for (size_t q = 0; q < list.size(); ++q) {
            bool gone = false;
            for (auto & x : d.dropped) {gone |= x.first == 0 && size_t(x.second) == q;}
            if (q + 1 == list.size()) {
              M.check(!gone, "newest-dropped", ctx);
            } else {
              double age = now - list[q + 1].time;
              if (age > hi + eps) {M.check(gone, "old-clone-kept", strf("successor age %.4g > %.4g ", age, hi) + ctx);}
              if (age < lo - eps) {M.check(!gone, "needed-clone-dropped", strf("successor age %.4g < %.4g ", age, lo) + ctx);}
            }
            if (gone) {++want_drop;}
          }
        }
        want_drop = d.dropped.size();
      }
      if (add_known) {
        M.check(d.added.size() == want_add, want_add ? "clone-missing" : "clone-unwanted",
          strf("%d clones added, policy wants %d ", int(d.added.size()), int(want_add)) + ctx);
      }
      M.check(d.dropped.size() == want_drop, "drop-count",
        strf("%d clones dropped, expected %d ", int(d.dropped.size()), int(want_drop)) + ctx);
      if (o.k == FRAME) {++frames;}
      adds += int(d.added.size());
      drops += int(d.dropped.size());
      M.ev("clones_added", d.added.size());
      M.ev("clones_dropped", d.dropped.size());
    } else {
      // an update with a prediction in it: the clone set obeys the same bounds
      if (!byTime) {M.check(d.added.empty() && d.dropped.empty(), "update-changes-window", ctx);}
    }
    if (!d.added.empty() && byTime) {
      prev = w.ekf->GetCurrentTime();
      flag = false;
    }
    if (o.k == FRAME) {flag = true;}
    // bounded and ordered
    for (auto & l : got.aug_states) {
      if (!byTime) {
        M.check(int(l.second.size()) <= w.len, "window-too-long", strf("%d frames ", int(l.second.size())) + ctx);
      }
      for (size_t q = 1; q < l.second.size(); ++q) {
        M.check(l.second[q - 1].time <= l.second[q].time, "clone-time-order", ctx);
      }
      if (c.aug == AugmentationType::NONE) {M.check(l.second.empty(), "clone-with-policy-none", ctx);}
      if (c.aug == AugmentationType::PRIMARY) {M.check(l.second.empty() || l.first == w.primary, "clone-of-secondary", ctx);}
    }
    // lookups
    if (!got.cam_states.empty() && R.b(0.5)) {
      auto kc = keys(got.cam_states);
      unsigned cam = R.pick(std::vector<unsigned>(kc.begin(), kc.end()));
      if (frameLookup(w, cam)) {
        auto it = got.aug_states.find(cam);
        if (it != got.aug_states.end() && !it->second.empty()) {
          const AugState e = R.pick(it->second);
          AugState a = w.ekf->GetAugState(cam, e.frame_id, e.time);
          M.check(a.frame_id == e.frame_id && a.pos_b_in_l == e.pos_b_in_l && a.ang_b_to_l.coeffs() == e.ang_b_to_l.coeffs() &&
            a.index == e.index && a.alpha == 0.0, "lookup-frame", ctx);
          M.ev("lookup_frame");
        }
      } else if (c.aug != AugmentationType::NONE) {
        unsigned key = c.aug == AugmentationType::PRIMARY ? w.primary : 0;
        auto it = got.aug_states.find(key);
        if (it != got.aug_states.end() && !it->second.empty()) {
          auto list = it->second;
          double now = w.ekf->GetCurrentTime(), first = list.front().time;
          double t = R.b(0.2) ? R.pick(list).time : R.b(0.1) ? now : R.b(0.1) ? first - R.u(0, 1) : R.u(first, now);
          t = std::min(t, now);
          AugState a = w.ekf->GetAugState(cam, 0, t);
          Vec3 p;
          Quat q;
          int idx = -1;
          double al = 0;
          if (t <= first) {
            p = list[0].pos_b_in_l; q = list[0].ang_b_to_l; idx = int(list[0].index);
          } else {
            for (size_t i = 0; i < list.size(); ++i) {
              bool lastc = i + 1 == list.size();
              double ta = list[i].time, tb = lastc ? now : list[i + 1].time;
              if (t < ta || t > tb) {continue;}
              al = tb > ta ? (t - ta) / (tb - ta) : 0.0;
              Vec3 pb = lastc ? got.body_state.pos_b_in_l : list[i + 1].pos_b_in_l;
              Quat qb = lastc ? got.body_state.ang_b_to_l : list[i + 1].ang_b_to_l;
              p = list[i].pos_b_in_l + al * (pb - list[i].pos_b_in_l);
              q = ref::slerp(list[i].ang_b_to_l, qb, al);
              // half-turn between neighbours: interpolation is ambiguous
              if (std::fabs(list[i].ang_b_to_l.dot(qb)) < 1e-3) {idx = -2;} else {idx = int(list[i].index);}
              if (al < 1 - 1e-12) {break;}
            }
          }
          if (idx != -2) {
            M.nearM(a.pos_b_in_l, p, 1e-9 * (1 + p.norm()), "lookup-pos", strf("t=%.6g ", t) + ctx);
            M.quatNear(a.ang_b_to_l, q, 1e-6, "lookup-ang", strf("t=%.6g ", t) + ctx);
            if (al > 1e-9 && al < 1 - 1e-9) {
              M.check(int(a.index) == idx, "lookup-index", ctx);
              M.near(a.alpha, al, 1e-6, "lookup-alpha", ctx);
            }
            M.check(a.time == t, "lookup-time", ctx);
          }
          M.ev(t <= first ? "lookup_before_first" : t >= list.back().time ? "lookup_after_last" : "lookup_between");
        }
      }
    }
    h.add(uint64_t(o.k)).add(uint64_t(o.id)).add(o.t);
    if (M.viol != v0) {break;}
  }
  // explicit covariance augmentation helper
  {
    int n = total(layout(w.ekf->m_state));
    MatX P = R.spd(n);
    int at = R.i(NB, n);
    MatX in = c.root ? upperRoot(P) : P;
    MatX out = w.ekf->AugmentCovariance(in, unsigned(at));
    MatX po = c.root ? MatX(out.transpose() * out) : out;
    std::vector<int> src;
    for (int k = 0; k < at; ++k) {src.push_back(k);}
    for (int k : {0, 1, 2, 9, 10, 11}) {src.push_back(k);}
    for (int k = at; k < n; ++k) {src.push_back(k);}
    M.relM(po, select(P, src), 1e-10, "augment-helper", strf("index %d of %d root %d", at, n, c.root));
  }
  M.ev(strf("policy_%d", int(c.aug)));
  M.done(h.h, adds > 0, cfgs(c) + strf(" frames %d added %d dropped %d", frames, adds, drops));
}
