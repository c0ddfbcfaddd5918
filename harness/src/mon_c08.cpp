// C08: vector form, increments and setters of the state agree element by element.
#include "hist.hpp"
using namespace hist;

static State randomState(Rng & R, int & nblk)
{
  State s;
  auto & b = s.body_state;
  double big = R.b(0.2) ? 1e4 : 3.0;
  b.pos_b_in_l = R.v(big); b.vel_b_in_l = R.v(big); b.acc_b_in_l = R.v(9);
  b.ang_b_to_l = R.b() ? R.q() : R.qa(R.b() ? 1e-7 : 3.1);
  b.ang_vel_b_in_l = R.v(); b.ang_acc_b_in_l = R.v();
  auto id = [&]() {return unsigned(R.b() ? R.i(0, 6) : R.i(0, 70000));};
  nblk = 0;
  for (int k = R.i(0, 3); k > 0; --k) {
    ImuState x;
    x.SetIsExtrinsic(R.b(0.6));
    x.SetIsIntrinsic(R.b(0.6));
    if (R.b(0.2)) {x.SetIsExtrinsic(!x.GetIsExtrinsic());}
    if (R.b(0.2)) {x.SetIsIntrinsic(x.GetIsIntrinsic());}
    if (R.b(0.2)) {x.SetIsIntrinsic(!x.GetIsIntrinsic());}
    x.pos_i_in_b = R.v(); x.ang_i_to_b = R.q(); x.acc_bias = R.v(); x.omg_bias = R.v();
    s.imu_states[id()] = x;
    ++nblk;
  }
  for (int k = R.i(0, 3); k > 0; --k) {
    GpsState x;
    x.SetIsExtrinsic(R.b(0.6));
    for (int j = R.b(0.5) ? 0 : R.i(1, 3); j > 0; --j) {x.SetIsExtrinsic(R.b(0.6));}
    x.pos_a_in_b = R.v();
    s.gps_states[id()] = x;
    ++nblk;
  }
  for (int k = R.i(0, 3); k > 0; --k) {
    CamState x;
    x.SetIsExtrinsic(R.b(0.6));
    for (int j = R.b(0.5) ? 0 : R.i(1, 3); j > 0; --j) {x.SetIsExtrinsic(R.b(0.6));}
    x.pos_c_in_b = R.v(); x.ang_c_to_b = R.q();
    s.cam_states[id()] = x;
    ++nblk;
  }
  for (int k = R.i(0, 3); k > 0; --k) {
    FidState x;
    x.SetIsExtrinsic(R.b(0.6));
    for (int j = R.b(0.5) ? 0 : R.i(1, 3); j > 0; --j) {x.SetIsExtrinsic(R.b(0.6));}
    x.pos_f_in_l = R.v(); x.ang_f_to_l = R.q();
    s.fid_states[id()] = x;
    ++nblk;
  }
  for (int k = R.i(0, 2); k > 0; --k) {
    std::vector<AugState> l;
    for (int j = R.i(0, 4); j > 0; --j) {
      AugState x;
      x.frame_id = unsigned(j); x.time = j; x.pos_b_in_l = R.v(); x.ang_b_to_l = R.q();
      l.push_back(x);
      ++nblk;
    }
    s.aug_states[id()] = l;
  }
  return s;
}

// the vector form the covariance layout prescribes
static VecX vec(const State & s)
{
  auto L = layout(s);
  VecX o(total(L));
  for (auto & b : L) {
    switch (b.kind) {
      case 'B': {
          auto & x = s.body_state;
          o.segment(b.start, 18) << x.pos_b_in_l, x.vel_b_in_l, x.acc_b_in_l, ref::qlog(x.ang_b_to_l),
            x.ang_vel_b_in_l, x.ang_acc_b_in_l;
          break;
        }
      case 'I': {auto & x = s.imu_states.at(b.id); o.segment(b.start, 6) << x.pos_i_in_b, ref::qlog(x.ang_i_to_b); break;}
      case 'N': {auto & x = s.imu_states.at(b.id); o.segment(b.start, 6) << x.acc_bias, x.omg_bias; break;}
      case 'G': {o.segment(b.start, 3) = s.gps_states.at(b.id).pos_a_in_b; break;}
      case 'C': {auto & x = s.cam_states.at(b.id); o.segment(b.start, 6) << x.pos_c_in_b, ref::qlog(x.ang_c_to_b); break;}
      case 'F': {auto & x = s.fid_states.at(b.id); o.segment(b.start, 6) << x.pos_f_in_l, ref::qlog(x.ang_f_to_l); break;}
      case 'A': {
          auto & x = s.aug_states.at(b.id)[size_t(b.n)];
          o.segment(b.start, 6) << x.pos_b_in_l, ref::qlog(x.ang_b_to_l);
          break;
        }
    }
  }
  return o;
}
// compare vector forms; rotation vectors compared as rotations (pi ambiguity)
static void cmpVec(Mon & M, const State & s, const VecX & got, const VecX & want, const std::string & key)
{
  if (!M.check(got.size() == want.size(), key + "-size", strf("vector has %d elements, state has %d", int(got.size()), int(want.size())))) {
    return;
  }
  for (auto & b : layout(s)) {
    for (int k = 0; k < b.size; k += 3) {
      Vec3 g = got.segment<3>(b.start + k), w = want.segment<3>(b.start + k);
      bool rot = (b.kind == 'B' && k == 9) || (strchr("ICFA", b.kind) && k == 3);
      std::string n = key + strf("-%c%d", b.kind, k);
      if (rot) {
        M.quatNear(ref::qexp(g), ref::qexp(w), 2e-9, n);
        M.check(g.norm() <= M_PI + 1e-9, n + "-angle");
      } else {
        M.nearM(g, w, 1e-12 * (1 + w.norm()), n);
      }
    }
  }
}

void run_case(Mon & M, Rng & R)
{
  int nblk;
  State s = randomState(R, nblk);
  auto L = layout(s);
  int n = total(L);
  M.check(int(s.GetStateSize()) == n, "size", strf("GetStateSize %u, estimated elements %d", s.GetStateSize(), n));
  for (auto & e : s.imu_states) {
    int w = (e.second.GetIsExtrinsic() ? 6 : 0) + (e.second.GetIsIntrinsic() ? 6 : 0);
    M.check(int(e.second.size) == w, "imu-size");
    VecX v = e.second.ToVector();
    M.check(v.size() == w, "imu-vector-size");
  }
  for (auto & e : s.gps_states) {M.check(e.second.size == (e.second.GetIsExtrinsic() ? 3u : 0u), "gps-size");}
  for (auto & e : s.cam_states) {M.check(e.second.size == (e.second.GetIsExtrinsic() ? 6u : 0u), "cam-size");}
  for (auto & e : s.fid_states) {
    M.check(e.second.size == (e.second.GetIsExtrinsic() ? 6u : 0u), "fid-size");
    M.check(e.second.ToVector().size() == int(e.second.size), "fid-vector-size");
  }
  cmpVec(M, s, s.ToVector(), vec(s), "tovector");

  // increment
  {
    State t = s;
    VecX d = R.b(0.3) ? VecX(R.m(n, 1, 1e-5)) : VecX(R.m(n, 1));
    if (R.b(0.3)) {
      // touch a single block only
      auto & b = L[size_t(R.i(0, int(L.size()) - 1))];
      VecX z = VecX::Zero(n);
      z.segment(b.start, b.size) = d.segment(b.start, b.size);
      d = z;
    }
    t += d;
    sameState(M, t, plus(s, d), 1e-9, "increment");
    M.ev("increments");
  }
  // the smaller increment operators
  {
    BodyState b = s.body_state;
    VecX d = R.m(18, 1);
    b += d;
    State w = s, g = s;
    w = plus(s, [&]() {VecX x = VecX::Zero(n); x.head(18) = d; return x;}());
    g.body_state = b;
    sameState(M, g, w, 1e-9, "increment-body");
    for (auto & e : s.imu_states) {
      VecX di = R.m(int(e.second.size), 1);
      if (!e.second.size) {continue;}
      ImuState x = e.second;
      x += di;
      VecX full = VecX::Zero(n);
      for (auto & q : L) {
        if ((q.kind == 'I' || q.kind == 'N') && q.id == e.first) {
          int off = (q.kind == 'N' && e.second.GetIsExtrinsic()) ? 6 : 0;
          full.segment(q.start, 6) = di.segment(off, 6);
        }
      }
      State gi = s;
      gi.imu_states[e.first] = x;
      sameState(M, gi, plus(s, full), 1e-9, "increment-imu");
    }
    int ni = 0, nc = 0, i0 = -1, c0 = -1;
    bool allcal = true;
    for (auto & q : L) {
      if (q.kind == 'I' || q.kind == 'N') {if (i0 < 0) {i0 = q.start;} ni += q.size;}
      if (q.kind == 'C') {if (c0 < 0) {c0 = q.start;} nc += q.size;}
    }
    for (auto & e : s.cam_states) {allcal = allcal && e.second.GetIsExtrinsic();}
    if (ni) {
      VecX di = R.m(ni, 1), full = VecX::Zero(n);
      full.segment(i0, ni) = di;
      State g2 = s;
      g2.imu_states += di;
      sameState(M, g2, plus(s, full), 1e-9, "increment-imus");
      M.ev("imu_maps");
    }
    if (nc && allcal) {
      VecX di = R.m(nc, 1), full = VecX::Zero(n);
      full.segment(c0, nc) = di;
      State g2 = s;
      g2.cam_states += di;
      sameState(M, g2, plus(s, full), 1e-9, "increment-cameras");
      M.ev("camera_maps");
    }
    for (auto & e : s.aug_states) {
      if (e.second.empty()) {continue;}
      VecX di = R.m(6 * int(e.second.size()), 1), full = VecX::Zero(n);
      for (auto & q : L) {
        if (q.kind == 'A' && q.id == e.first) {full.segment(q.start, 6) = di.segment(6 * q.n, 6);}
      }
      State g2 = s;
      g2.aug_states[e.first] += di;
      sameState(M, g2, plus(s, full), 1e-9, "increment-clones");
      M.ev("clone_lists");
    }
  }
  // set from a vector
  {
    int nb2;
    State src = randomState(R, nb2);
    (void)src;
    VecX v = R.m(n, 1);
    State t = s;
    for (auto & b : L) {         // keep rotation vectors inside the principal ball so that reading back is unambiguous
      for (int k = 0; k < b.size; k += 3) {
        bool rot = (b.kind == 'B' && k == 9) || (strchr("ICFA", b.kind) && k == 3);
        if (rot) {
          Vec3 x = v.segment<3>(b.start + k);
          double a = R.b(0.1) ? 0.0 : (R.b(0.2) ? R.u(3.0, 3.1415) : R.u(0, 3.0));
          x = x.normalized() * a;
          v.segment<3>(b.start + k) = x;
        }
      }
    }
    t.SetState(v);
    cmpVec(M, t, vec(t), v, "setstate");
    cmpVec(M, t, t.ToVector(), v, "set-then-get");
    M.check(t.GetStateSize() == s.GetStateSize(), "setstate-size");
    // uncalibrated elements and structure stay
    State u = t;
    u.SetState(vec(s));
    sameState(M, u, s, 1e-7, "setstate-restores");
    M.ev("setstate");
  }
  // state plus state: vectors add up, rotations compose
  {
    State r = s;
    VecX d = R.m(n, 1);
    r = plus(s, d);
    State l = s;
    l += r;
    State w = s;
    auto q = [&](Quat & a, const Quat & x) {a = ref::qmul(x, a);};
    w.body_state.pos_b_in_l += r.body_state.pos_b_in_l; w.body_state.vel_b_in_l += r.body_state.vel_b_in_l;
    w.body_state.acc_b_in_l += r.body_state.acc_b_in_l; w.body_state.ang_vel_b_in_l += r.body_state.ang_vel_b_in_l;
    w.body_state.ang_acc_b_in_l += r.body_state.ang_acc_b_in_l; q(w.body_state.ang_b_to_l, r.body_state.ang_b_to_l);
    for (auto & e : w.imu_states) {
      auto & x = r.imu_states.at(e.first);
      e.second.pos_i_in_b += x.pos_i_in_b; e.second.acc_bias += x.acc_bias; e.second.omg_bias += x.omg_bias;
      q(e.second.ang_i_to_b, x.ang_i_to_b);
    }
    for (auto & e : w.gps_states) {e.second.pos_a_in_b += r.gps_states.at(e.first).pos_a_in_b;}
    for (auto & e : w.cam_states) {
      auto & x = r.cam_states.at(e.first);
      e.second.pos_c_in_b += x.pos_c_in_b;
      q(e.second.ang_c_to_b, x.ang_c_to_b);
    }
    for (auto & e : w.fid_states) {
      auto & x = r.fid_states.at(e.first);
      e.second.pos_f_in_l += x.pos_f_in_l;
      q(e.second.ang_f_to_l, x.ang_f_to_l);
    }
    for (auto & e : w.aug_states) {
      for (size_t k = 0; k < e.second.size(); ++k) {
        auto & x = r.aug_states.at(e.first)[k];
        e.second[k].pos_b_in_l += x.pos_b_in_l;
        q(e.second[k].ang_b_to_l, x.ang_b_to_l);
      }
    }
    sameState(M, l, w, 1e-9, "state-plus-state");
  }
  Hash h;
  h.add(vec(s));
  for (auto & b : L) {M.ev(std::string("block_") + b.kind);}
  M.done(h.h, L.size() >= 3, strf("%d elements in %d blocks", n, int(L.size())));
}
