// C16: projection, distortion, triangulation and the feature-track update against a numerically differentiated reference.
#include "trans.hpp"
using namespace hist;
using Vec2 = Eigen::Vector2d;

static Vec2 distortRef(const Vec2 & u, const Intrinsics & in)
{
  // the OpenCV plumb-bob model
  double x = u.x(), y = u.y(), r2 = x * x + y * y, k = 1 + in.k_1 * r2 + in.k_2 * r2 * r2;
  return Vec2(x * k + 2 * in.p_1 * x * y + in.p_2 * (r2 + 2 * x * x), y * k + in.p_1 * (r2 + 2 * y * y) + 2 * in.p_2 * x * y);
}
static MatX distortJacRef(const Vec2 & u, const Intrinsics & in)
{
  MatX J(2, 2);
  double e = 1e-4;
  for (int k = 0; k < 2; ++k) {
    Vec2 d = Vec2::Zero();
    d[k] = e;
    J.col(k) = (8 * (distortRef(u + d, in) - distortRef(u - d, in)) - (distortRef(u + 2 * d, in) - distortRef(u - 2 * d, in))) / (12 * e);
  }
  return J;
}
static Vec2 undistortRef(const Vec2 & d, const Intrinsics & in)
{
  Vec2 u = d;
  for (int k = 0; k < 50; ++k) {
    Vec2 f = distortRef(u, in) - d;
    u -= distortJacRef(u, in).inverse() * f;
    if (f.norm() < 1e-15) {break;}
  }
  return u;
}
static cv::KeyPoint toPixel(const Vec2 & d, const Intrinsics & in)
{
  cv::KeyPoint k;
  k.pt.x = float(in.f_x / in.pixel_size * d.x() + in.width / 2);
  k.pt.y = float(in.f_y / in.pixel_size * d.y() + in.height / 2);
  return k;
}
static Vec2 fromPixel(const cv::KeyPoint & k, const Intrinsics & in)
{
  return Vec2((double(k.pt.x) - in.width / 2) / (in.f_x / in.pixel_size), (double(k.pt.y) - in.height / 2) / (in.f_y / in.pixel_size));
}

// where an observation was taken from: a mix of two poses of the state
struct Src
{
  bool ok = false;
  int k0 = -1, k1 = -1;      // clone number, or -1 for the body
  unsigned key = 0;
  double al = 0;
};
struct Pose {Vec3 p; Quat q;};
static Pose poseOf(const State & s, unsigned key, int k)
{
  if (k < 0) {return {s.body_state.pos_b_in_l, s.body_state.ang_b_to_l};}
  auto & a = s.aug_states.at(key)[size_t(k)];
  return {a.pos_b_in_l, a.ang_b_to_l};
}
static Pose mix(const Pose & a, const Pose & b, double al)
{
  if (al == 0) {return a;}
  Quat qb = b.q;
  if (a.q.dot(qb) < 0) {qb.coeffs() *= -1;}
  Pose o;
  o.p = a.p + al * (b.p - a.p);
  o.q = ref::qmul(a.q, ref::qexp(al * ref::qlog(ref::qmul(ref::qinv(a.q), qb))));
  return o;
}
static Src lookup(const World & w, const State & s, double now, unsigned cam, unsigned frame, double t)
{
  Src o;
  if (frameLookup(w, cam)) {
    o.key = cam;
    auto it = s.aug_states.find(cam);
    if (it == s.aug_states.end()) {return o;}
    for (size_t k = 0; k < it->second.size(); ++k) {
      if (it->second[k].frame_id == frame) {o.k0 = int(k); o.ok = true;}
    }
    return o;
  }
  o.key = w.c.aug == AugmentationType::PRIMARY ? w.primary : 0;
  auto it = s.aug_states.find(o.key);
  if (it == s.aug_states.end() || it->second.empty()) {return o;}
  auto & l = it->second;
  o.ok = true;
  if (t <= l.front().time) {
    o.k0 = 0;
  } else if (t < l.back().time) {
    for (size_t k = 0; k + 1 < l.size(); ++k) {
      if (l[k].time <= t && t <= l[k + 1].time && l[k + 1].time > l[k].time) {
        o.k0 = int(k);
        o.k1 = int(k + 1);
        o.al = (t - l[k].time) / (l[k + 1].time - l[k].time);
      }
    }
  } else {
    o.k0 = int(l.size()) - 1;
    if (now > l.back().time) {o.al = (t - l.back().time) / (now - l.back().time);}
  }
  return o;
}
// pose right-incremented by d = (position, rotation)
static Pose inc(const Pose & a, const VecX & d) {return {a.p + d.head<3>(), ref::qmul(a.q, ref::qexp(d.tail<3>()))};}

void run_case(Mon & M, Rng & R)
{
  Hash h;
  // image model
  {
    Intrinsics in;
    in.k_1 = R.n(0.2); in.k_2 = R.n(0.1); in.p_1 = R.n(0.02); in.p_2 = R.n(0.02);
    for (int k = 0; k < 20; ++k) {
      Vec3 p(R.u(-2, 2), R.u(-2, 2), R.logu(0.2, 50));
      p.head<2>() *= p.z();
      Vec2 u = p.head<2>() / p.z();
      M.nearM(MsckfUpdater::Project(p), u, 1e-12 * (1 + u.norm()), "project");
      M.nearM(MsckfUpdater::Distort(u, in), distortRef(u, in), 1e-11 * (1 + distortRef(u, in).norm()), "distort");
      MatX J(2, 2);
      MsckfUpdater::DistortionJacobian(u, in, J);
      M.nearM(J, distortJacRef(u, in), 1e-8 * (1 + J.norm()), "distortion-jacobian");
      MatX Jp(2, 3);
      MsckfUpdater::ProjectionJacobian(p, Jp);
      MatX Jr(2, 3);
      Jr << 1 / p.z(), 0, -p.x() / p.z() / p.z(), 0, 1 / p.z(), -p.y() / p.z() / p.z();
      M.nearM(Jp, Jr, 1e-12 * (1 + Jr.norm()), "projection-jacobian");
      M.ev("points_projected");
    }
  }
  Cfg c = randomCfg(R);
  c.aug = R.pick(std::vector<AugmentationType>{AugmentationType::ALL, AugmentationType::PRIMARY, AugmentationType::PRIMARY,
        AugmentationType::TIME, AugmentationType::NONE});
  c.diagP = R.b();
  c.diagR = R.b();
  c.L = R.i(2, 6);
  c.aug_dt = R.logu(0.01, 0.2);
  World w(c);
  bool distorted = R.b(0.6);
  int ncam = R.pick(std::vector<int>{1, 1, 2, 3});
  while (int(w.ekf->m_state.cam_states.size()) < ncam) {
    Op o = regOp(R, w, REG_C);
    auto & in = o.cam.intrinsics;
    in.f_x = R.logu(0.003, 0.02); in.f_y = R.logu(0.003, 0.02); in.pixel_size = R.logu(2e-6, 2e-5);
    in.width = R.i(300, 2000); in.height = R.i(300, 2000);
    if (distorted) {in.k_1 = R.n(0.05); in.k_2 = R.n(0.02); in.p_1 = R.n(0.005); in.p_2 = R.n(0.005);}
    o.cam.rate = 10;
    w.apply(o);
  }
  Weights W;
  W.w[REG_C] = 0; W.w[SETLEN] = 0; W.w[U_VIS] = 0; W.w[FRAME] = 10; W.w[KUPD] = 1;
  for (int k = R.i(0, 10); k > 0; --k) {w.apply(genOp(R, w, W));}
  if (R.b(0.85)) {
    Op z;
    z.k = GRAV;
    w.apply(z);
  }
  {
    Op z;
    z.k = ZACC;
    z.flag = R.b(0.3);
    w.apply(z);
  }
  int L = w.len;
  for (int k = R.i(L, L + 4); k > 0; --k) {
    // a moving platform gives the track parallax
    w.ekf->m_state.body_state.vel_b_in_l = R.v(2);
    w.ekf->m_state.body_state.ang_vel_b_in_l = R.v(0.3);
    Op o;
    o.k = FRAME;
    o.t = w.local(w.ekf->GetCurrentTime() + R.u(0.03, 0.15));
    auto kc = keys(w.ekf->m_state.cam_states);
    for (unsigned id : kc) {
      o.id = id;
      o.frame = ++w.frame_no;
      w.apply(o);
      if (R.b(0.5)) {o.t = w.local(o.t + R.u(0.001, 0.02));}
    }
  }
  std::map<unsigned, std::pair<Vec3, Quat>> first;      // calibration of the first update of each camera
  bool unitsReported = false;
  int reps = R.i(1, 3);
  for (int rep = 0; rep < reps; ++rep) {
    auto kc = keys(w.ekf->m_state.cam_states);
    unsigned cam = R.pick(std::vector<unsigned>(kc.begin(), kc.end()));
    Snap pre(*w.ekf);
    double now = pre.t;
    State s = pre.s;
    MatX P = pre.P;
    CamState & cs = s.cam_states[cam];
    const Intrinsics in = cs.intrinsics;
    // candidate observation instants
    struct Obs {unsigned frame; double t; Src src; Pose pose;};
    std::vector<Obs> obs;
    bool byFrame = frameLookup(w, cam);
    std::vector<std::pair<unsigned, double>> cand;
    if (byFrame) {
      auto it = s.aug_states.find(cam);
      if (it != s.aug_states.end()) {for (auto & a : it->second) {cand.push_back({a.frame_id, a.time});}}
    } else {
      unsigned key = c.aug == AugmentationType::PRIMARY ? w.primary : 0;
      auto it = s.aug_states.find(key);
      double t0 = it == s.aug_states.end() || it->second.empty() ? now - 1 : it->second.front().time;
      for (int k = R.i(2, 6); k > 0; --k) {cand.push_back({0u, R.b(0.1) ? now : R.b(0.07) ? t0 - 0.05 : R.u(t0, now)});}
      if (it != s.aug_states.end() && R.b(0.3)) {for (auto & a : it->second) {cand.push_back({0u, a.time});}}
      std::sort(cand.begin(), cand.end(), [](auto & a, auto & b) {return a.second < b.second;});
      for (size_t k = 0; k < cand.size(); ++k) {cand[k].first = unsigned(k);}
    }
    for (auto & x : cand) {
      Obs o{x.first, x.second, lookup(w, s, now, cam, x.first, x.second), {}};
      if (o.src.ok) {o.pose = mix(poseOf(s, o.src.key, o.src.k0), poseOf(s, o.src.key, o.src.k1), o.src.al);}
      obs.push_back(o);
    }
    bool nowin = false;      // no clone to look observations up in
    for (auto & o : obs) {nowin |= !o.src.ok;}
    if (cand.empty() && byFrame) {
      nowin = true;
      for (unsigned k = 0; k < 3; ++k) {obs.push_back({900000 + k, now - 0.1 * (3 - k), Src(), {}});}
    }
    FeatureTracks tracks;
    std::vector<std::vector<int>> which;
    bool truth = R.b(0.5), stale = !nowin && R.b(0.12), exactTracks = R.b(0.25), far = R.b(0.1);
    int nf = R.b(0.03) ? R.i(20, 60) : R.i(1, 5);
    for (int f = 0; f < nf && obs.size() >= 2; ++f) {
      const Pose & v = obs.back().pose;
      Vec3 pl = R.v(5);
      if (!nowin) {
        Vec3 pc(R.u(-1, 1), R.u(-1, 1), far ? (R.b() ? R.u(90, 102) : R.logu(40, 400)) : R.u(2, 15));
        pc.head<2>() *= 0.3 * pc.z();
        pl = v.p + ref::rot(v.q) * (cs.pos_c_in_b + ref::rot(cs.ang_c_to_b) * pc);
      }
      FeatureTrack tr;
      if (truth) {
        tr.true_feature_position = pl;
      } else {
        // left as constructed: the position is unknown
      }
      std::vector<int> wh;
      size_t from = R.b(0.3) ? size_t(R.i(0, int(obs.size()) - 2)) : 0;
      for (size_t k = from; k < obs.size(); ++k) {
        Vec3 p = nowin ? Vec3(0.1, 0.2, 3) : Vec3(ref::rot(cs.ang_c_to_b).transpose() *
            (ref::rot(obs[k].pose.q).transpose() * (pl - obs[k].pose.p) - cs.pos_c_in_b));
        if (p.z() < 0.5) {continue;}
        Vec2 u = p.head<2>() / p.z();
        if (u.norm() > 0.9) {continue;}
        FeaturePoint fp;
        fp.frame_id = obs[k].frame;
        fp.frame_time = obs[k].t;
        fp.key_point = toPixel(distortRef(u, in), in);
        if (!exactTracks) {fp.key_point.pt.x += float(R.n(1.0)); fp.key_point.pt.y += float(R.n(1.0));}
        fp.key_point.class_id = f;
        tr.track.push_back(fp);
        wh.push_back(int(k));
      }
      if (tr.track.size() < 2) {continue;}
      tracks.push_back(tr);
      which.push_back(wh);
    }
    if (stale && byFrame && !tracks.empty()) {
      // one observation of one track refers to a frame that has left the window
      tracks[0].track[0].frame_id = 800000;
      which[0].clear();
    } else {
      stale = false;
    }
    if (tracks.empty()) {
      M.ev("no_tracks");
      continue;
    }
    double px = R.b(0.3) ? R.logu(0.01, 0.5) : R.logu(0.5, 5);
    std::string ctx = strf("cam=%u ncam=%d cal=%d tracks=%d truth=%d distort=%d rep=%d ", cam, ncam, cs.GetIsExtrinsic(), int(tracks.size()),
        truth, distorted, rep) + cfgs(c);
    // reference
    bool skip = false;
    if (!c.fej || !first.count(cam)) {first[cam] = {cs.pos_c_in_b, cs.ang_c_to_b};} else {M.ev("updates_first_estimate");}
    // Jacobians are taken there, residuals at the current calibration
    const Vec3 lp = first[cam].first;
    const Quat lq = first[cam].second;
    std::vector<MatX> Hs, Hpx;
    std::vector<VecX> rs, rpx;
    int rows = 0, n = total(layout(s)), usedTracks = 0;
    double sens = 1;
    for (size_t f = 0; f < tracks.size() && !nowin; ++f) {
      auto & tr = tracks[f];
      auto & wh = which[f];
      if (wh.empty()) {continue;}          // refers to a frame outside the window: not used
      Vec3 pl;
      // triangulation: the point closest (in the least-squares sense) to all viewing rays
      Mat3 A = Mat3::Zero();
      Vec3 b = Vec3::Zero();
      Mat3 Rc = ref::rot(cs.ang_c_to_b);
      for (size_t k = 0; k < wh.size(); ++k) {
        auto & o = obs[size_t(wh[k])];
        Vec2 u = undistortRef(fromPixel(tr.track[k].key_point, in), in);
        Vec3 d = (ref::rot(o.pose.q) * Rc * Vec3(u.x(), u.y(), 1)).normalized();
        Vec3 pc = o.pose.p + ref::rot(o.pose.q) * cs.pos_c_in_b;
        Mat3 Q = Mat3::Identity() - d * d.transpose();
        A += Q;
        b += Q * pc;
      }
      Eigen::SelfAdjointEigenSolver<Mat3> es(A);
      double cond = es.eigenvalues()[2] / std::max(es.eigenvalues()[0], 1e-300);
      Vec3 tri = A.ldlt().solve(b);
      auto & o0 = obs[size_t(wh[0])];
      double z = (Rc.transpose() * (ref::rot(o0.pose.q).transpose() * (tri - o0.pose.p) - cs.pos_c_in_b)).z();
      if (tr.true_feature_position.allFinite()) {
        pl = tr.true_feature_position;
      } else {
        if (cond > 1e5) {skip = true;}
        if (std::abs(z - 0.1) < 1e-2 || std::abs(z - 100) < 0.1) {skip = true;}
        if (z < 0.1 || z > 100) {
          M.ev("triangulation_out_of_range");
          continue;
        }
        pl = tri;
        sens = std::max(sens, cond * 1e-2);
        M.ev("triangulated");
        if (exactTracks && cond < 1e4) {
          Vec3 p = Rc.transpose() * (ref::rot(obs.back().pose.q).transpose() * (tri - obs.back().pose.p) - cs.pos_c_in_b);
          (void)p;
        }
      }
      int m = 2 * int(wh.size());
      VecX r(m);
      MatX H = MatX::Zero(m, n), Hf(m, 3);
      auto L0 = layout(s);
      for (size_t k = 0; k < wh.size(); ++k) {
        auto & o = obs[size_t(wh[k])];
        auto see = [&](const Pose & b0, const Vec3 & pc, const Quat & qc, const Vec3 & pf) -> Vec2 {
            Vec3 p = ref::rot(qc).transpose() * (ref::rot(b0.q).transpose() * (pf - b0.p) - pc);
            return distortRef(p.head<2>() / p.z(), in);
          };
        Vec3 pcam = ref::rot(cs.ang_c_to_b).transpose() * (ref::rot(o.pose.q).transpose() * (pl - o.pose.p) - cs.pos_c_in_b);
        if (pcam.z() < 0.3) {skip = true;}
        Vec3 lcam = ref::rot(lq).transpose() * (ref::rot(o.pose.q).transpose() * (pl - o.pose.p) - lp);
        if (lcam.z() < 0.3) {skip = true;}
        r.segment<2>(2 * long(k)) = fromPixel(tr.track[k].key_point, in) - see(o.pose, cs.pos_c_in_b, cs.ang_c_to_b, pl);
        auto diff = [&](auto g, int dim) -> MatX {
            double e = 2e-4;
            MatX J(2, dim);
            for (int q = 0; q < dim; ++q) {
              VecX d = VecX::Zero(dim);
              d[q] = e;
              J.col(q) = (8 * (g(d) - g(VecX(-d))) - (g(VecX(2 * d)) - g(VecX(-2 * d)))) / (12 * e);
            }
            return J;
          };
        Hf.middleRows(2 * long(k), 2) = diff([&](const VecX & d) {return see(o.pose, lp, lq, pl + Vec3(d));}, 3);
        MatX Hp = diff([&](const VecX & d) {return see(inc(o.pose, d), lp, lq, pl);}, 6);
        auto add = [&](int clone, double f2) {
            for (auto & blk : L0) {
              if (clone >= 0 && blk.kind == 'A' && blk.id == o.src.key && blk.n == clone) {
                H.block(2 * long(k), blk.start, 2, 6) += f2 * Hp;
              }
              if (clone < 0 && blk.kind == 'B') {
                H.block(2 * long(k), 0, 2, 3) += f2 * Hp.leftCols(3);
                H.block(2 * long(k), 9, 2, 3) += f2 * Hp.rightCols(3);
              }
            }
          };
        add(o.src.k0, 1 - o.src.al);
        if (o.src.al != 0) {add(o.src.k1, o.src.al); M.ev(o.src.k1 < 0 ? "between_clone_and_body" : "between_clones");}
        if (cs.GetIsExtrinsic()) {
          for (auto & blk : L0) {
            if (blk.kind == 'C' && blk.id == cam) {
              H.block(2 * long(k), blk.start, 2, 6) = diff([&](const VecX & d) {
                    return see(o.pose, lp + Vec3(d.head<3>()), ref::qmul(lq, ref::qexp(Vec3(d.tail<3>()))), pl);
                  }, 6);
            }
          }
        }
      }
      // left null space of the feature part
      Eigen::JacobiSVD<MatX> svd(Hf, Eigen::ComputeFullU);
      if (svd.singularValues()[2] < 1e-5 * svd.singularValues()[0]) {skip = true;}
      sens = std::max(sens, 1e-2 * svd.singularValues()[0] / svd.singularValues()[2]);
      MatX N = svd.matrixU().rightCols(m - 3);
      Hs.push_back(N.transpose() * H);
      rs.push_back(N.transpose() * r);
      // the same in pixels
      VecX u(m);
      for (int k = 0; k < m; k += 2) {u[k] = in.f_x / in.pixel_size; u[k + 1] = in.f_y / in.pixel_size;}
      Eigen::JacobiSVD<MatX> svdPx(u.asDiagonal() * Hf, Eigen::ComputeFullU);
      MatX Np = svdPx.matrixU().rightCols(m - 3).transpose() * u.asDiagonal();
      Hpx.push_back(Np * H);
      rpx.push_back(Np * r);
      rows += m - 3;
      ++usedTracks;
    }
    Op o;
    o.k = U_VIS;
    o.id = cam;
    o.t = now;
    o.v = VecX::Constant(1, px);
    o.tracks = tracks;
    if (R.b(0.3)) {o.t = w.local(now - R.logu(1e-3, 0.5));}
    w.apply(o);
    uint64_t v0 = M.viol;
    bool unitsWrong = false, inPixels = false;
    h.add(double(rows)).add(now).add(px);
    M.check(w.ekf->GetCurrentTime() == now, "clock", ctx);
    M.check(w.ekf->m_cov.allFinite(), "finite", ctx);
    if (skip) {
      M.ev("degenerate_geometry_skipped");
      break;
    }
    if (rows == 0 || nowin) {
      sameState(M, w.ekf->m_state, pre.s, 1e-12, "unusable-tracks-changed-state", ctx);
      M.relM(cov(*w.ekf), pre.P, 1e-12, "unusable-tracks-changed-covariance", ctx);
      M.ev(nowin ? "no_window" : stale ? "stale_only" : "no_usable_track");
    } else {
      double sg = std::max(px, 0.5);
      MatX P0 = P;
      auto ref = [&](const std::vector<MatX> & hs, const std::vector<VecX> & res, MatX & Q) -> State {
          MatX H(rows, n);
          VecX r(rows);
          int at = 0;
          for (size_t k = 0; k < hs.size(); ++k) {
            H.middleRows(at, hs[k].rows()) = hs[k];
            r.segment(at, hs[k].rows()) = res[k];
            at += int(hs[k].rows());
          }
          return plus(s, kalmanRef(Q, H, r, sg * sg * MatX::Identity(rows, rows)));
        };
      State want = ref(Hs, rs, P);
      {
        // The configured error is one of pixels
        State wantPx = ref(Hpx, rpx, P0);
        auto apart = [&](const MatX & a, const MatX & b) {return (a - b).norm() / std::max(a.norm(), 1e-300);};
        double toPx = apart(P0, cov(*w.ekf)), between = apart(P0, P);
        if (toPx < 1e-6 * sens && toPx < 1e-3 * between) {
          inPixels = true;
          want = wantPx;
          P = P0;
          M.ev("noise_in_pixels");
        } else if (between > 1e-5 * sens && rows > 1) {
          unitsWrong = true;
        }
      }
      // a single leftover constraint may be ignored
      if (rows == 1 && cov(*w.ekf) == pre.P) {
        want = pre.s;
        P = pre.P;
        M.ev("single_row_ignored");
      }
      sameState(M, w.ekf->m_state, want, 1e-6 * sens, "state", ctx + strf("rows=%d", rows));
      M.relM(cov(*w.ekf), P, 1e-6 * sens, "covariance", ctx + strf("rows=%d", rows));
      M.ev("updates_compared");
      if (rows >= n) {M.ev("updates_compressed");}
      if (stale) {M.ev("updates_without_stale_track");}
      if (exactTracks && !nowin) {
        sameState(M, w.ekf->m_state, pre.s, inPixels ? 5e-5 : 2e-6, "consistent-track-moved-state", ctx);
        M.ev("consistent_tracks");
      }
    }
    if (M.viol != v0) {break;}
    if (unitsWrong && !unitsReported) {
      M.check(false, "pixel-noise-units", ctx + strf(": an error of %g pixels was taken for %g focal lengths (%g pixels)", px, std::max(px, 0.5), std::max(px, 0.5) * in.f_x / in.pixel_size));
      unitsReported = true;
    }
  }
  M.done(h.h, true, cfgs(c) + strf(" %d cameras", ncam));
}
