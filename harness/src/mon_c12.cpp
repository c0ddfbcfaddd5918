// C12: estimation of the GPS reference.
#include "hist.hpp"
#include "utility/math_helper.hpp"
using namespace hist;

struct Fit {double ang, pos_sd, ang_sd, base; int count; Vec3 t; std::vector<Vec3> loc;};
static Fit fit(const std::vector<Vec3> & ecef, const std::vector<Vec3> & loc)
{
  Vec3 m = Vec3::Zero();
  for (auto & e : ecef) {m += e;}
  m /= double(ecef.size());
  Vec3 lla = ref::ecef2lla(m);
  Mat3 R = ref::ecef2enuR(lla);
  Vec3 o = ref::lla2ecef(lla), cs = Vec3::Zero(), ct = Vec3::Zero();
  std::vector<Vec3> enu;
  for (size_t k = 0; k < ecef.size(); ++k) {
    enu.push_back(R * (ecef[k] - o));
    cs += enu.back();
    ct += loc[k];
  }
  double n = double(ecef.size());
  cs /= n;
  ct /= n;
  double s = 0, c = 0;
  for (size_t k = 0; k < ecef.size(); ++k) {
    Vec3 a = enu[k] - cs, b = loc[k] - ct;
    s += a.x() * b.y() - a.y() * b.x();
    c += a.x() * b.x() + a.y() * b.y();
  }
  Fit f;
  f.ang = std::atan2(s, c);
  f.t = ct - ref::enu2local(cs, f.ang);
  f.base = 0;
  Vec3 em = Vec3::Zero();
  std::vector<Vec3> er;
  double sl = 0;
  f.count = 0;
  for (size_t k = 0; k < ecef.size(); ++k) {
    f.loc.push_back(ref::enu2local(enu[k], f.ang) + f.t);
    Vec3 e = loc[k] - f.loc.back();
    er.push_back(e);
    em += e / n;
    double b = (loc[k] - ct).norm();
    if (b > e.norm()) {
      sl += e.squaredNorm() / (b * b);
      ++f.count;
    }
    for (auto & x : enu) {f.base = std::max(f.base, (x - enu[k]).head<2>().norm());}
  }
  double q = 0;
  for (auto & e : er) {q += (e - em).squaredNorm();}
  f.pos_sd = std::sqrt(q) / n;
  f.ang_sd = f.count ? std::sqrt(sl) / f.count : 0;
  return f;
}

void run_case(Mon & M, Rng & R)
{
  Vec3 lla(R.u(-75, 75), R.u(-180, 180), R.u(-450, 9000));
  if (R.b(0.15)) {lla[1] = (R.b() ? 1 : -1) * (180 - R.logu(1e-6, 1e-3));}
  double heading = R.pick(std::vector<double>{0.0, M_PI, -M_PI / 2, R.u(-3.1, 3.1), R.u(-3.1, 3.1), R.u(-3.1, 3.1)});
  EKF::Parameters p;
  p.debug_logger = std::make_shared<DebugLogger>(LogLevel::FATAL, "");
  int type = R.i(0, 9);
  GpsInitType gt = type < 1 ? GpsInitType::CONSTANT : type < 5 ? GpsInitType::BASELINE_DIST : GpsInitType::ERROR_THRESHOLD;
  p.gps_init_type = gt;
  p.gps_init_baseline_dist = R.logu(0.1, 150);
  p.gps_init_pos_thresh = R.logu(1e-3, 3);
  p.gps_init_ang_thresh = R.logu(1e-3, 0.5);
  Vec3 plla(R.u(-80, 80), R.u(-170, 170), R.u(0, 100));
  double pang = R.u(-3, 3);
  p.pos_e_in_g = plla;
  p.ang_l_to_e = pang;
  p.use_root_covariance = R.b();
  EKF ekf(p);
  ekf.CalculateLocalTime(100.0);
  unsigned id = unsigned(R.i(0, 5));
  GpsState gs;
  ekf.RegisterGPS(id, gs, Mat3::Identity());
  GpsUpdater up(id, false, "", 0.0, p.debug_logger);
  bool via = R.b();
  double noise = R.b(0.5) ? 0.0 : R.logu(1e-3, 2);
  // path: straight, circular, random or almost stationary, somewhere away from the origin
  int shape = R.i(0, 3);
  Vec3 off = R.b(0.4) ? R.v(80).eval() : Vec3::Zero().eval();
  int n = R.b(0.15) ? R.i(60, 150) : R.i(4, 25);
  double step = R.logu(0.03, 15) / (n > 25 && R.b(0.7) ? 30 : 1);
  Vec3 dir = R.v(); dir.z() *= 0.1; dir.normalize();
  double w = R.u(0.1, 1.5);
  std::vector<Vec3> ecef, loc;
  M.check(ekf.IsLlaInitialized() == (gt == GpsInitType::CONSTANT), "initial-flag");
  bool was = ekf.IsLlaInitialized();
  Vec3 got = plla;
  double gang = pang;
  Mat3 E = ref::ecef2enuR(lla);
  Vec3 o = ref::lla2ecef(lla);
  int adopted_at = -1;
  double reach = 0;
  std::string ctx = strf("type %d shape %d noise %.3g heading %.4g lat %.3g", int(gt), shape, noise, heading, lla[0]);
  for (int k = 0; k < n; ++k) {
    Vec3 q = off;
    if (shape == 0) {q += dir * step * k;}
    if (shape == 1) {q += step * 3 * Vec3(std::cos(w * k), std::sin(w * k), 0.1 * std::sin(k));}
    if (shape == 2) {q += R.v(step);}
    if (shape == 3) {q += R.v(1e-3);}
    q.z() *= 0.3;
    Vec3 e = o + E.transpose() * ref::enu2local(q + R.v(noise), -heading);
    Vec3 fixl = ref::ecef2lla(e);
    reach = std::max(reach, q.norm() + 3 * noise);
    ekf.m_state.body_state.pos_b_in_l = q;
    if (via) {up.UpdateEKF(ekf, 100.0 + k, fixl, Mat3::Identity());} else {
      if (!was) {ekf.AttemptGpsInitialization(k, fixl);}
    }
    bool is = ekf.IsLlaInitialized();
    if (was) {
      M.check(is, "reference-lost", ctx);
      M.check(Vec3(ekf.GetReferenceLLA()) == got && ekf.GetReferenceAngle() == gang, "reference-changed", ctx);
      M.ev("kept");
      continue;
    }
    ecef.push_back(ref::lla2ecef(fixl));
    loc.push_back(q);
    Fit f = fit(ecef, loc);
    int want = -1;      // -1 too close to call
    if (ecef.size() < 4) {
      want = 0;
    } else if (gt == GpsInitType::BASELINE_DIST) {
      if (f.base > p.gps_init_baseline_dist * 1.0001 + 1e-3) {want = 1;}
      if (f.base < p.gps_init_baseline_dist * 0.9999 - 1e-3) {want = 0;}
    } else {
      double pt = p.gps_init_pos_thresh, at = std::tan(p.gps_init_ang_thresh);
      if (f.count == 0 || f.pos_sd > pt * 1.001 || f.ang_sd > at * 1.001) {want = 0;}
      if (f.count > 0 && f.pos_sd < pt * 0.999 && f.ang_sd < at * 0.999 && f.ang_sd > 1e-13) {want = 1;}
      // whether a baseline counts is decided by a comparison: near-degenerate data is undecided
      if (shape == 3) {want = f.pos_sd > pt * 1.001 ? 0 : -1;}
    }
    std::string c2 = ctx + strf(" fixes %d base %.4g/%.4g pos %.3g/%.3g ang %.3g/%.3g", int(ecef.size()), f.base,
        p.gps_init_baseline_dist, f.pos_sd, p.gps_init_pos_thresh, f.ang_sd, std::tan(p.gps_init_ang_thresh));
    if (want >= 0) {
      M.check(is == (want == 1), want ? "not-adopted" : "adopted-early", c2);
      M.ev(want ? "decided_adopt" : "decided_wait");
    }
    if (is) {
      was = true;
      adopted_at = int(ecef.size());
      got = ekf.GetReferenceLLA();
      gang = ekf.GetReferenceAngle();
      if (shape != 3) {
        double ft = 0;
        for (auto & l : f.loc) {ft = std::max(ft, (l - f.loc[0]).norm());}
        double tan = std::fabs(std::tan(lla[0] * M_PI / 180));
        double tol = 4 * (reach + ft) * (reach + ft) / 6.3e6 * (1 + tan) + 1e-4;
        for (size_t j = 0; j < ecef.size(); ++j) {
          Vec3 enu = ref::ecef2enuR(got) * (ecef[j] - ref::lla2ecef(got));
          Vec3 l = ref::enu2local(enu, gang);
          if (!M.nearM(l, f.loc[j], tol, noise > 0 ? "alignment-least-squares" : "alignment", c2)) {break;}
          if (noise == 0) {M.nearM(l, loc[j], tol + 1e-3, "alignment-exact", c2);}
        }
        M.check(std::fabs(gang) <= M_PI + 1e-9, "heading-range", c2);
        M.ev(noise > 0 ? "adopted_noisy" : "adopted_exact");
      }
    }
  }
  if (R.b(0.2)) {
    Vec3 sl(R.u(-80, 80), R.u(-170, 170), 5);
    double sa = R.u(-3, 3);
    ekf.SetGpsReference(sl, sa);
    M.check(ekf.IsLlaInitialized() && Vec3(ekf.GetReferenceLLA()) == sl && ekf.GetReferenceAngle() == sa, "set-reference");
  }
  // the planar fit itself
  {
    std::vector<Vec3> a, b;
    double an = R.u(-3.14, 3.14);
    Vec3 t = R.v(20);
    int m = R.b(0.2) ? R.i(13, 200) : R.i(1, 12);
    for (int k = 0; k < m; ++k) {
      a.push_back(R.v(10));
      b.push_back(ref::enu2local(a.back(), an) + t);
    }
    Eigen::Affine3d T;
    double ps = -1, as = -1;
    bool okf = kabsch_2d(b, a, T, ps, as);
    M.check(okf == (m >= 4), "fit-success", strf("%d points", m));
    if (okf) {
      for (int k = 0; k < m; ++k) {M.nearM(T * a[size_t(k)], b[size_t(k)], 1e-8, "fit");}
      M.near(std::remainder(affine_angle(T) - an, 2 * M_PI), 0, 1e-8, "fit-angle");
      M.near(ps, 0, 1e-8, "fit-error");
    }
    std::vector<Vec3> sh(a.begin(), a.end() - 1);
    M.check(!kabsch_2d(b, sh, T, ps, as), "fit-size-mismatch");
  }
  M.done(Hash().add(lla).add(heading).add(uint64_t(type)).add(uint64_t(n)).h, gt != GpsInitType::CONSTANT && adopted_at > 0, ctx + strf(" adopted %d", adopted_at));
}
