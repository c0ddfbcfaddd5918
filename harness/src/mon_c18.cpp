// C18: simulated sensors against the exact measurement of the truth, their noise against its configured size.
#include "trans.hpp"
#include <opencv2/opencv.hpp>
#include "ekf/constants.hpp"
#include "infrastructure/sim/truth_engine_cyclic.hpp"
#include "sensors/sim/sim_imu.hpp"
#include "sensors/sim/sim_gps.hpp"
#include "sensors/sim/sim_camera.hpp"
#include "trackers/sim/sim_feature_tracker.hpp"
#include "trackers/sim/sim_fiducial_tracker.hpp"
#include "utility/sim/sim_rng.hpp"
using namespace hist;
typedef Eigen::Vector2d Vec2;

static std::shared_ptr<DebugLogger> lg() {return std::make_shared<DebugLogger>(LogLevel::FATAL, "");}

struct SimWorld
{
  double st, mt;
  std::shared_ptr<TruthEngineCyclic> truth;
  std::shared_ptr<EKF> ekf;
  Vec3 ref;
  double heading;
};
struct WP {Vec3 pf, af, po, ao; double pa, aa, st, mt, lat, lon, alt, head;};
static WP worldParams(Rng & R, double mt)
{
  WP w;
  w.pf = R.uv(0.05, 1); w.af = R.uv(0.05, 1); w.po = R.v(1); w.ao = Vec3(R.u(-1, 1), R.u(-0.6, 0.6), R.u(-3, 3));
  w.pa = R.u(-2, 2); w.aa = R.u(-0.5, 0.5); w.st = R.b(0.3) ? 0.0 : R.u(0, 0.5 * mt); w.mt = mt;
  w.lat = R.u(-80, 80); w.lon = R.u(-179, 179); w.alt = R.u(-100, 3000); w.head = R.u(-3.1, 3.1);
  return w;
}
static SimWorld make(const WP & p)
{
  SimWorld w;
  w.st = p.st; w.mt = p.mt;
  w.truth = std::make_shared<TruthEngineCyclic>(p.pf, p.af, p.po, p.ao, p.pa, p.aa, p.st, p.mt, lg());
  w.ref = Vec3(p.lat, p.lon, p.alt);
  w.heading = p.head;
  w.truth->SetLocalPosition(w.ref);
  w.truth->SetLocalHeading(p.head);
  EKF::Parameters ep;
  ep.debug_logger = lg();
  w.ekf = std::make_shared<EKF>(ep);
  return w;
}

// measurement times: the configured rate over the run, a common offset inside the first period, jitter of the configured size
static bool times(Mon & M, const std::vector<double> & t, double mt, double rate, bool exact, double terr, const std::string & ctx)
{
  size_t n = size_t(std::floor(mt * rate));
  // a product that rounds across an integer may go either way
  double frac = mt * rate - std::round(mt * rate);
  if (std::abs(frac) < 1e-9) {M.check(t.size() == n || t.size() + 1 == n || t.size() == n + 1, "message-count", ctx + strf(" got %zu want %zu", t.size(), n));}
  else {M.check(t.size() == n, "message-count", ctx + strf(" got %zu want %zu", t.size(), n));}
  if (t.empty()) {return false;}
  double T = 1 / rate;
  if (exact) {
    M.near(t[0], 0, 1e-12, "first-time", ctx);
  } else if (terr == 0) {
    M.check(t[0] >= 0 && t[0] <= T, "first-time", ctx + strf(" %g", t[0]));
  }
  double off = 0;
  if (exact || terr == 0) {off = t[0];} else {for (size_t k = 0; k < t.size(); ++k) {off += (t[k] - double(k) * T) / double(t.size());}}
  double tol = exact || terr == 0 ? 1e-9 * (1 + mt) : 7 * terr;
  for (size_t k = 0; k < t.size(); ++k) {M.near(t[k], off + double(k) * T, tol, "message-time", ctx + strf(" k=%zu", k));}
  M.ev("messages", t.size());
  return true;
}

// samples should be zero mean with the given deviation (bounds at six standard errors)
struct Stat
{
  std::vector<double> x;
  void add(double v) {x.push_back(v);}
  void judge(Mon & M, double sd, const std::string & key, const std::string & ctx)
  {
    if (x.size() < 300) {return;}
    double m = 0, s = 0, n = double(x.size());
    for (double v : x) {m += v / n;}
    for (double v : x) {s += v * v / n;}
    s = std::sqrt(s);
    M.near(m / sd, 0, 6 / std::sqrt(n), key + "-mean", ctx + strf(" n=%g", n));
    M.near(s / sd, 1, 6 / std::sqrt(2 * n), key + "-deviation", ctx + strf(" n=%g", n));
    M.ev("noise_samples", x.size());
  }
};

static void imu(Mon & M, Rng & R, Hash & h)
{
  bool exact = R.b();
  WP wp = worldParams(R, exact ? R.u(0.3, 3) : R.u(4, 8));
  SimIMU::Parameters p;
  p.no_errors = exact;
  p.time_error = R.b(0.3) ? R.logu(1e-6, 1e-3) : 0.0;
  p.imu_params.rate = exact ? R.u(1, 200) : R.u(100, 200);
  p.imu_params.logger = lg();
  p.imu_params.pos_i_in_b = R.v(0.5); p.imu_params.ang_i_to_b = R.q();
  p.imu_params.acc_bias = R.v(0.1); p.imu_params.omg_bias = R.v(0.1);
  p.imu_params.is_extrinsic = R.b(); p.imu_params.is_intrinsic = R.b();
  p.imu_params.variance = VecX::Constant(12, 0.01);
  p.acc_error = R.uv(0.01, 0.3); p.omg_error = R.uv(0.001, 0.03);
  p.pos_error = R.uv(0.01, 0.1); p.ang_error = R.uv(0.01, 0.1); p.acc_bias_error = R.uv(0.01, 0.1); p.omg_bias_error = R.uv(0.01, 0.1);
  unsigned sd = unsigned(R.i(1, 1 << 30));
  auto run = [&](SimWorld & w, std::shared_ptr<SimIMU> & s) {
      SimRNG::SetSeed(sd);
      p.imu_params.ekf = w.ekf;
      s = std::make_shared<SimIMU>(p, w.truth);
      return s->GenerateMessages();
    };
  SimWorld w = make(wp), w2 = make(wp);
  std::shared_ptr<SimIMU> s, s2;
  auto ms = run(w, s), ms2 = run(w2, s2);
  std::string ctx = strf("imu exact=%d rate=%g max=%g terr=%g seed=%u", exact, p.imu_params.rate, wp.mt, p.time_error, sd);
  h.add(ctx.size()).add(p.acc_error).add(wp.pf);
  M.check(ms.size() == ms2.size(), "same-seed", ctx);
  unsigned id = s->GetId();
  Vec3 tp = w.truth->GetImuPosition(id), tb = w.truth->GetImuAccelerometerBias(id), tg = w.truth->GetImuGyroscopeBias(id);
  Quat tq = w.truth->GetImuAngularPosition(id);
  Vec3 dp = tp - p.imu_params.pos_i_in_b, db = tb - p.imu_params.acc_bias, dg = tg - p.imu_params.omg_bias;
  Vec3 dq = ref::qlog(ref::qmul(tq, ref::qinv(p.imu_params.ang_i_to_b)));
  for (int k = 0; k < 3; ++k) {
    double f = exact ? 1e-9 : 6.5;
    M.check(std::abs(dp[k]) <= f * p.pos_error[k] && std::abs(db[k]) <= f * p.acc_bias_error[k] && std::abs(dg[k]) <= f * p.omg_bias_error[k] &&
      std::abs(dq[k]) <= f * 1.1 * p.ang_error[k] + (exact ? 1e-7 : 0), "true-calibration", ctx + vs(dp) + vs(db) + vs(dg) + vs(dq));
  }
  if (!exact) {M.check(dp.norm() > 0 && dq.norm() > 0 && db.norm() > 0 && dg.norm() > 0, "no-calibration-error", ctx);}
  auto st = w.ekf->m_state.imu_states[id];
  M.nearM(st.pos_i_in_b, p.imu_params.pos_i_in_b, 1e-12, "filter-calibration", ctx);
  std::vector<double> t;
  std::vector<Stat> sa(3), sg(3);
  for (size_t k = 0; k < ms.size(); ++k) {
    auto & m = *ms[k];
    t.push_back(m.time);
    M.check(m.sensor_id == id && m.sensor_type == SensorType::IMU, "message-identity", ctx);
    M.nearM(m.acceleration_covariance, MatX(p.acc_error.cwiseProduct(p.acc_error).asDiagonal()), 1e-12, "stated-noise", ctx);
    M.nearM(m.angular_rate_covariance, MatX(p.omg_error.cwiseProduct(p.omg_error).asDiagonal()), 1e-12, "stated-noise", ctx);
    if (k < ms2.size()) {
      M.check(m.time == ms2[k]->time && m.acceleration == ms2[k]->acceleration && m.angular_rate == ms2[k]->angular_rate, "same-seed", ctx);
    }
    double T = m.time;
    Vec3 om = w.truth->GetBodyAngularRate(T), al = w.truth->GetBodyAngularAcceleration(T);
    Mat3 C = ref::rot(w.truth->GetBodyAngularPosition(T)).transpose(), Ci = ref::rot(tq).transpose();
    Vec3 a = C * (w.truth->GetBodyAcceleration(T) + Vec3(0, 0, 9.80665)) + al.cross(tp) + om.cross(om.cross(tp));
    Vec3 ea = m.acceleration - (Ci * a + tb), eg = m.angular_rate - (Ci * om + tg);
    if (exact) {
      M.nearM(ea, Vec3::Zero(), 1e-9 * (1 + a.norm()), "exact-acceleration", ctx + strf(" t=%g", T));
      M.nearM(eg, Vec3::Zero(), 1e-9 * (1 + om.norm()), "exact-angular-rate", ctx + strf(" t=%g", T));
    } else {
      for (int j = 0; j < 3; ++j) {sa[size_t(j)].add(ea[j] / p.acc_error[j]); sg[size_t(j)].add(eg[j] / p.omg_error[j]);}
    }
  }
  for (int j = 0; j < 3; ++j) {sa[size_t(j)].judge(M, 1, "accelerometer-noise", ctx); sg[size_t(j)].judge(M, 1, "gyroscope-noise", ctx);}
  times(M, t, wp.mt, p.imu_params.rate, exact, p.time_error, ctx);
  M.ev(exact ? "exact_imu" : "noisy_imu");
}

static void gps(Mon & M, Rng & R, Hash & h)
{
  bool exact = R.b();
  WP wp = worldParams(R, exact ? R.u(1, 10) : R.u(30, 60));
  SimGPS::Parameters p;
  p.no_errors = exact;
  p.time_error = R.b(0.3) ? R.logu(1e-6, 1e-3) : 0.0;
  p.gps_params.rate = exact ? R.u(0.5, 20) : R.u(15, 30);
  p.gps_params.logger = lg();
  p.gps_params.pos_a_in_b = R.v(1);
  p.gps_params.is_extrinsic = R.b();
  p.lla_error = R.uv(0.05, 2);
  p.pos_a_in_b_err = R.uv(0.01, 0.3);
  unsigned sd = unsigned(R.i(1, 1 << 30));
  auto run = [&](SimWorld & w, std::shared_ptr<SimGPS> & s) {
      SimRNG::SetSeed(sd);
      p.gps_params.ekf = w.ekf;
      s = std::make_shared<SimGPS>(p, w.truth);
      return s->GenerateMessages();
    };
  SimWorld w = make(wp), w2 = make(wp);
  std::shared_ptr<SimGPS> s, s2;
  auto ms = run(w, s), ms2 = run(w2, s2);
  std::string ctx = strf("gps exact=%d rate=%g max=%g terr=%g heading=%g ref=", exact, p.gps_params.rate, wp.mt, p.time_error, w.heading) + vs(w.ref);
  h.add(p.lla_error).add(w.heading);
  unsigned id = s->GetId();
  Vec3 ta = w.truth->GetGpsPosition(id), da = ta - p.gps_params.pos_a_in_b;
  for (int k = 0; k < 3; ++k) {M.check(std::abs(da[k]) <= (exact ? 1e-9 : 6.5) * p.pos_a_in_b_err[k], "true-calibration", ctx + vs(da));}
  if (!exact) {M.check(da.norm() > 0, "no-calibration-error", ctx);}
  std::vector<double> t;
  std::vector<Stat> sp(3);
  M.check(ms.size() == ms2.size(), "same-seed", ctx);
  for (size_t k = 0; k < ms.size(); ++k) {
    auto & m = *ms[k];
    t.push_back(m.time);
    M.check(m.sensor_id == id && m.sensor_type == SensorType::GPS, "message-identity", ctx);
    M.nearM(m.pos_covariance, MatX(p.lla_error.cwiseProduct(p.lla_error).asDiagonal()), 1e-12, "stated-noise", ctx);
    if (k < ms2.size()) {M.check(m.time == ms2[k]->time && m.gps_lla == ms2[k]->gps_lla, "same-seed", ctx);}
    Vec3 want = w.truth->GetBodyPosition(m.time) + ref::rot(w.truth->GetBodyAngularPosition(m.time)) * ta;
    Vec3 enu = ref::lla2enu(m.gps_lla, w.ref), got = ref::enu2local(enu, w.heading);
    Vec3 e = got - want;
    if (exact) {
      M.nearM(e, Vec3::Zero(), 1e-5 + 1e-6 * want.norm(), "exact-fix", ctx + strf(" t=%g", m.time));
    } else {
      for (int j = 0; j < 3; ++j) {sp[size_t(j)].add(e[j] / p.lla_error[j]);}
    }
  }
  for (auto & x : sp) {x.judge(M, 1, "gps-noise", ctx);}
  times(M, t, wp.mt, p.gps_params.rate, exact, p.time_error, ctx);
  M.ev(exact ? "exact_gps" : "noisy_gps");
}

static Vec2 project(const Vec3 & p, const Intrinsics & in)
{
  double x = p.x() / p.z(), y = p.y() / p.z(), r2 = x * x + y * y, k = 1 + in.k_1 * r2 + in.k_2 * r2 * r2;
  double xd = x * k + 2 * in.p_1 * x * y + in.p_2 * (r2 + 2 * x * x), yd = y * k + in.p_1 * (r2 + 2 * y * y) + 2 * in.p_2 * x * y;
  return Vec2(in.f_x / in.pixel_size * xd + in.width / 2, in.f_y / in.pixel_size * yd + in.height / 2);
}

static void camera(Mon & M, Rng & R, Hash & h)
{
  bool camExact = R.b(), trkExact = R.b(), fidExact = R.b();
  bool manyFid = !fidExact && R.b(0.5);
  WP wp = worldParams(R, manyFid ? R.u(40, 60) : R.u(2, 6));
  SimWorld w = make(wp);
  SimCamera::Parameters p;
  p.no_errors = camExact;
  p.time_error = 0.0;
  p.cam_params.rate = manyFid ? R.u(9, 10) : R.u(2, 10);
  p.cam_params.logger = lg();
  p.cam_params.ekf = w.ekf;
  p.cam_params.pos_c_in_b = R.v(0.2);
  p.cam_params.ang_c_to_b = R.q();
  p.cam_params.is_extrinsic = R.b();
  p.pos_error = R.uv(0.01, 0.1);
  p.ang_error = R.uv(0.01, 0.1);
  Intrinsics in;
  if (R.b()) {
    in.f_x = R.u(0.004, 0.012); in.f_y = R.u(0.004, 0.012); in.pixel_size = 5e-6; in.width = R.i(300, 1000) * 2; in.height = R.i(200, 600) * 2;
    if (R.b()) {in.k_1 = R.n(0.03); in.k_2 = R.n(0.01); in.p_1 = R.n(0.003); in.p_2 = R.n(0.003);}
  }
  p.cam_params.intrinsics = in;
  SimRNG::SetSeed(unsigned(R.i(1, 1 << 30)));
  auto cam = std::make_shared<SimCamera>(p, w.truth);
  unsigned cid = cam->GetId();
  Vec3 cp = w.truth->GetCameraPosition(cid), dp = cp - p.cam_params.pos_c_in_b;
  Quat cq = w.truth->GetCameraAngularPosition(cid);
  Vec3 dq = ref::qlog(ref::qmul(cq, ref::qinv(p.cam_params.ang_c_to_b)));
  std::string ctx = strf("camera exact=%d%d%d rate=%g max=%g", camExact, trkExact, fidExact, p.cam_params.rate, wp.mt);
  h.add(p.pos_error).add(wp.mt);
  for (int k = 0; k < 3; ++k) {
    double f = camExact ? 1e-9 : 6.5;
    M.check(std::abs(dp[k]) <= f * p.pos_error[k] && std::abs(dq[k]) <= f * 1.1 * p.ang_error[k] + (camExact ? 1e-7 : 0), "true-calibration", ctx + vs(dp) + vs(dq));
  }
  if (!camExact) {M.check(dp.norm() > 0 && dq.norm() > 0, "no-calibration-error", ctx);}

  SimFeatureTracker::Parameters tp;
  tp.no_errors = trkExact;
  tp.feature_count = unsigned(R.i(0, 40));
  tp.tracker_params.camera_id = cid; tp.tracker_params.logger = lg(); tp.tracker_params.ekf = w.ekf; tp.tracker_params.intrinsics = in;
  tp.tracker_params.min_track_length = unsigned(R.i(1, 4));
  tp.tracker_params.max_track_length = unsigned(R.i(4, 12));
  auto trk = std::make_shared<SimFeatureTracker>(tp, w.truth);

  SimFiducialTracker::Parameters fp;
  fp.no_errors = fidExact;
  fp.pos_error = R.uv(0.01, 0.1); fp.ang_error = R.uv(0.01, 0.1); fp.t_vec_error = R.uv(0.01, 0.3); fp.r_vec_error = R.uv(0.005, 0.05);
  fp.fiducial_params.detector_type = R.b() ? FiducialType::ARUCO_BOARD : FiducialType::CHARUCO_BOARD;
  fp.fiducial_params.squares_x = 5; fp.fiducial_params.squares_y = 7; fp.fiducial_params.square_length = 0.1; fp.fiducial_params.marker_length = 0.05;
  fp.fiducial_params.camera_id = cid; fp.fiducial_params.logger = lg(); fp.fiducial_params.ekf = w.ekf; fp.fiducial_params.intrinsics = in;
  fp.fiducial_params.pos_f_in_l = R.v(2); fp.fiducial_params.ang_f_to_l = R.q();
  auto fid = std::make_shared<SimFiducialTracker>(fp, w.truth);
  Vec3 bp = w.truth->GetBoardPosition(fid->GetID()), bdp = bp - fp.fiducial_params.pos_f_in_l;
  Quat bq = w.truth->GetBoardOrientation(fid->GetID());
  Vec3 bdq = ref::qlog(ref::qmul(bq, ref::qinv(fp.fiducial_params.ang_f_to_l)));
  for (int k = 0; k < 3; ++k) {
    double f = fidExact ? 1e-9 : 6.5;
    M.check(std::abs(bdp[k]) <= f * fp.pos_error[k] && std::abs(bdq[k]) <= f * 1.1 * fp.ang_error[k] + (fidExact ? 1e-7 : 0), "true-board", ctx + vs(bdp) + vs(bdq));
  }

  auto camPose = [&](double t, Mat3 & Rlc, Vec3 & pc) {
      Mat3 Rb = ref::rot(w.truth->GetBodyAngularPosition(t)), Rc = ref::rot(cq);
      Rlc = (Rb * Rc).transpose();
      pc = w.truth->GetBodyPosition(t) + Rb * cp;
    };
  std::vector<Stat> sp(3), sq(3);
  auto board = [&](const SimFiducialTrackerMessage & m, double t, unsigned frame) {
      M.check(m.is_board_visible && m.time == t && m.tracker_id == fid->GetID() && m.sensor_id == cid && m.sensor_type == SensorType::Tracker &&
        m.board_detection.frame_id == frame && m.board_detection.frame_time == t, "detection-identity", ctx);
      Mat3 Rlc; Vec3 pc;
      camPose(t, Rlc, pc);
      Vec3 want = Rlc * (bp - pc);
      Quat wq = ref::qmul(ref::qinv(cq), ref::qmul(ref::qinv(w.truth->GetBodyAngularPosition(t)), bq));
      Vec3 e = m.board_detection.pos_f_in_c - want, er = ref::qlog(ref::qmul(m.board_detection.ang_f_to_c, ref::qinv(wq)));
      M.nearM(m.board_detection.pos_error, fp.t_vec_error.cwiseProduct(fp.t_vec_error), 1e-12, "stated-detection-variance", ctx);
      M.nearM(m.board_detection.ang_error, fp.r_vec_error.cwiseProduct(fp.r_vec_error), 1e-12, "stated-detection-variance", ctx);
      if (fidExact) {
        M.nearM(e, Vec3::Zero(), 1e-9 * (1 + want.norm()), "exact-detection-position", ctx + strf(" t=%g", t));
        M.nearM(er, Vec3::Zero(), 1e-7, "exact-detection-rotation", ctx + strf(" t=%g", t));
      } else {
        for (int j = 0; j < 3; ++j) {sp[size_t(j)].add(e[j] / fp.t_vec_error[j]); sq[size_t(j)].add(er[j] / fp.r_vec_error[j]);}
      }
      M.ev("detections");
    };

  if (manyFid) {
    cam->AddFiducial(fid);
    auto ms = cam->GenerateMessages();
    std::vector<double> t;
    for (auto & m : ms) {
      t.push_back(m->time);
      M.check(m->fiducial_track_messages.size() == 1 && m->feature_track_messages.empty(), "frame-content", ctx);
      if (m->fiducial_track_messages.size() == 1) {board(*m->fiducial_track_messages[0], m->time, m->frame_id);}
    }
    for (auto & x : sp) {x.judge(M, 1, "detection-noise", ctx);}
    for (auto & x : sq) {x.judge(M, 1, "detection-rotation-noise", ctx);}
    times(M, t, wp.mt, p.cam_params.rate, camExact, 0, ctx);
    return;
  }

  // frame by frame, so that the features known at each frame are known here
  std::map<int, std::vector<std::pair<unsigned, double>>> open;
  std::map<int, std::vector<Vec2>> px;
  std::vector<double> ts;
  unsigned frame = unsigned(R.i(0, 5));
  double t = R.u(0, 0.2);
  bool unsure = false;
  size_t emitted = 0;
  for (int k = 0; k < 14 && !unsure; ++k, t += R.u(0.01, 0.3), frame += unsigned(R.i(1, 3))) {
    auto m = trk->GenerateMessage(t, frame);
    auto fm = fid->GenerateMessage(t, frame);
    board(*fm, t, frame);
    M.check(m->time == t && m->tracker_id == trk->GetID() && m->sensor_id == cid && m->sensor_type == SensorType::Tracker, "track-identity", ctx);
    Mat3 Rlc; Vec3 pc;
    camPose(t, Rlc, pc);
    auto feats = w.truth->GetFeatures();
    std::set<int> seen;
    for (size_t f = 0; f < feats.size(); ++f) {
      Vec3 q = Rlc * (Vec3(feats[f].x, feats[f].y, feats[f].z) - pc);
      if (std::abs(q.z()) < 1e-7) {unsure = true; continue;}
      if (q.z() < 0) {continue;}
      Vec2 u = project(q, in);
      double b = std::min(std::min(u.x(), u.y()), std::min(in.width - u.x(), in.height - u.y()));
      if (std::abs(b) < 1e-6 * (1 + 1 / q.z())) {unsure = true; continue;}
      if (b < 0) {continue;}
      seen.insert(int(f));
      open[int(f)].push_back({frame, t});
      px[int(f)].push_back(u);
    }
    if (unsure) {break;}
    M.ev("visible_features", seen.size());
    // expected tracks: features no longer seen, or seen for the maximum length
    std::map<int, const FeatureTrack *> got;
    for (auto & ft : m->feature_tracks) {
      M.check(!ft.track.empty(), "empty-track", ctx);
      if (ft.track.empty()) {continue;}
      int id = ft.track[0].key_point.class_id;
      M.check(!got.count(id), "feature-twice", ctx);
      got[id] = &ft;
    }
    for (auto it = open.begin(); it != open.end(); ) {
      int id = it->first;
      bool due = !seen.count(id) || it->second.size() >= tp.tracker_params.max_track_length;
      if (!due) {
        M.check(!got.count(id), "track-early", ctx + strf(" feature %d", id));
        ++it;
        continue;
      }
      bool report = it->second.size() >= tp.tracker_params.min_track_length;
      M.check(report == (got.count(id) > 0), report ? "track-missing" : "track-too-short", ctx + strf(" feature %d length %zu", id, it->second.size()));
      if (report && got.count(id)) {
        auto & ft = *got[id];
        ++emitted;
        M.check(ft.track.size() == it->second.size(), "track-length", ctx);
        for (size_t q = 0; q < std::min(ft.track.size(), it->second.size()); ++q) {
          auto & pt = ft.track[q];
          M.check(pt.frame_id == it->second[q].first && pt.frame_time == it->second[q].second && pt.key_point.class_id == id, "track-frames", ctx);
          Vec2 g(pt.key_point.pt.x, pt.key_point.pt.y);
          // float pixels; whole pixels with errors on
          M.nearM(g, px[id][q], trkExact ? 2e-3 : 0.502, trkExact ? "exact-pixel" : "rounded-pixel", ctx + strf(" feature %d", id));
          if (!trkExact) {M.check(g.x() == std::round(g.x()) && g.y() == std::round(g.y()), "whole-pixels", ctx);}
        }
        Vec3 want(feats[size_t(id)].x, feats[size_t(id)].y, feats[size_t(id)].z);
        M.nearM(ft.true_feature_position, want, 1e-12, "true-feature-position", ctx);
      }
      px.erase(id);
      it = open.erase(it);
    }
    M.ev("frames");
  }
  M.ev("tracks", emitted);
  M.ev(trkExact ? "exact_tracks" : "rounded_tracks");

  // whole camera runs: identity, frame numbers, one entry per attached tracker
  cam->AddTracker(trk);
  cam->AddFiducial(fid);
  auto ms = cam->GenerateMessages();
  std::vector<double> tt;
  for (size_t k = 0; k < ms.size(); ++k) {
    tt.push_back(ms[k]->time);
    M.check(ms[k]->sensor_id == cid && ms[k]->sensor_type == SensorType::Camera, "message-identity", ctx);
    M.check(k == 0 || ms[k]->frame_id > ms[k - 1]->frame_id, "frame-number", ctx);
    M.check(ms[k]->fiducial_track_messages.size() == 1 && ms[k]->feature_track_messages.size() == 1, "frame-content", ctx);
    if (ms[k]->fiducial_track_messages.size() == 1) {board(*ms[k]->fiducial_track_messages[0], ms[k]->time, ms[k]->frame_id);}
  }
  times(M, tt, wp.mt, p.cam_params.rate, camExact, 0, ctx);
}

void run_case(Mon & M, Rng & R)
{
  Hash h;
  imu(M, R, h);
  gps(M, R, h);
  camera(M, R, h);
  M.done(h.h, true, "one IMU, one GPS and one camera with trackers on one random trajectory each");
}
