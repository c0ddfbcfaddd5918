// C22: hostile values. Nothing is compared; the sanitizers, the library assertions and Eigen's are the oracle.
#include "hist.hpp"
#include "tailguard.hpp"
#include <opencv2/opencv.hpp>
#include "infrastructure/sim/truth_engine_cyclic.hpp"
#include "infrastructure/sim/truth_engine_smoother.hpp"
#include "infrastructure/sim/truth_engine_spline.hpp"
#include "sensors/camera.hpp"
#include "sensors/gps.hpp"
#include "sensors/imu.hpp"
#include "trackers/feature_tracker.hpp"
#include "trackers/fiducial_tracker.hpp"
#include "utility/gps_helper.hpp"
#include "utility/math_helper.hpp"
#include "utility/string_helper.hpp"
#include "utility/type_helper.hpp"
using namespace hist;

static std::shared_ptr<DebugLogger> lg() {return std::make_shared<DebugLogger>(LogLevel::FATAL, "");}

static double bad(Rng & R, double x)
{
  switch (R.i(0, 9)) {
    case 0: return NAN;
    case 1: return INFINITY;
    case 2: return -INFINITY;
    case 3: return 0.0;
    case 4: return 1e300;
    case 5: return -1e300;
    case 6: return 1e-310;
    case 7: return -x;
    case 8: return x * 1e9;
    default: return x * 1e-9;
  }
}
template<class D> static void hurt(Rng & R, Eigen::DenseBase<D> & m)
{
  if (m.size() == 0) {return;}
  if (R.b(0.2)) {
    m.setConstant(R.b() ? 0.0 : bad(R, 1.0));
  } else {
    int r = R.i(0, int(m.rows()) - 1), c = R.i(0, int(m.cols()) - 1);
    m(r, c) = bad(R, m(r, c));
  }
}
static void hurtq(Rng & R, Quat & q)
{
  if (R.b(0.3)) {q.coeffs().setZero();} else {hurt(R, q.coeffs());}
}

// exceptions are a legal answer to nonsense, memory errors are not
template<class F> static bool tryit(Mon & M, const char * what, F f)
{
  M.ev(what);
  ++M.checks;
  try {
    f();
    return true;
  } catch (const std::exception &) {
    M.ev("exceptions");
    return false;
  }
}

static void damage(Rng & R, World & w, Op & o)
{
  switch (o.k) {
    case PRED:
      o.t = R.b(0.5) ? o.t * 1e6 + 1e6 : R.pick(std::vector<double>{0.0, -1.0, -1e12, 1e12, o.t});
      break;
    case REG_I: case REG_G: case REG_C: case REG_F:
      switch (R.i(0, 6)) {
        case 0: hurt(R, o.A); break;
        case 1: hurt(R, o.imu.pos_i_in_b); hurtq(R, o.imu.ang_i_to_b); break;
        case 2: hurt(R, o.imu.acc_bias); hurt(R, o.imu.omg_bias); o.imu.pos_stability = bad(R, 1); break;
        case 3: hurt(R, o.gps.pos_a_in_b); hurt(R, o.fid.pos_f_in_l); hurtq(R, o.fid.ang_f_to_l); break;
        case 4: hurt(R, o.cam.pos_c_in_b); hurtq(R, o.cam.ang_c_to_b); break;
        case 5: o.cam.intrinsics.f_x = bad(R, 0.01); o.cam.intrinsics.k_1 = bad(R, 0.1); break;
        default: o.cam.intrinsics.pixel_size = bad(R, 1e-5); break;
      }
      break;
    case KUPD:
      switch (R.i(0, 2)) {
        case 0: hurt(R, o.A); break;
        case 1: hurt(R, o.v); break;
        default: if (R.b()) {o.B.setZero();} else {hurt(R, o.B);}
      }
      break;
    case U_IMU: case U_GPS:
      switch (R.i(0, 4)) {
        case 0: hurt(R, o.a); break;
        case 1: hurt(R, o.b); break;
        case 2: hurt(R, o.A); break;
        case 3: if (o.B.size()) {hurt(R, o.B);} break;
        default: o.t = R.b() ? o.t + 1e9 : -1e9; break;
      }
      break;
    case U_FID:
      switch (R.i(0, 4)) {
        case 0: hurt(R, o.det.pos_f_in_c); break;
        case 1: hurtq(R, o.det.ang_f_to_c); break;
        case 2: hurt(R, o.det.pos_error); hurt(R, o.det.ang_error); break;
        case 3: o.det.frame_id = unsigned(R.i(0, 1 << 30)); o.det.frame_time = bad(R, o.t); break;
        default: o.t = R.b() ? o.t + 1e9 : -1e9; break;
      }
      break;
    case U_VIS: {
        auto & t = o.tracks[size_t(R.i(0, int(o.tracks.size()) - 1))];
        size_t n = size_t(R.i(0, int(t.track.size()) - 1));
        switch (R.i(0, 8)) {
          case 0: t.track[n].key_point.pt.x = float(bad(R, 100)); break;
          case 1: t.track[n].frame_id = unsigned(R.i(0, 1 << 30)); t.track[n].frame_time = bad(R, o.t); break;
          case 2: hurt(R, t.true_feature_position); break;
          case 3: t.true_feature_position.setConstant(INFINITY); t.track.resize(1); break;
          case 4: t.track.clear(); break;
          case 5: t.track.resize(1); break;
          case 6: while (t.track.size() < 40) {t.track.push_back(t.track[n]);} t.true_feature_position.setConstant(R.b() ? INFINITY : 1.0); break;
          case 7: o.v[0] = bad(R, 1); break;
          default: o.tracks.clear(); break;
        }
        break;
      }
    case FRAME: o.frame = R.b() ? 0 : unsigned(R.i(0, 1 << 30)); break;
    case SETLEN: o.id = unsigned(R.pick(std::vector<int>{0, 1, 2, 1000})); break;
  }
}

static void history(Mon & M, Rng & R, Hash & h)
{
  Cfg c = randomCfg(R);
  if (R.b(0.3)) {hurt(R, c.noise);}
  if (R.b(0.1)) {hurt(R, c.ref_lla);}
  if (R.b(0.1)) {c.ref_ang = bad(R, 1);}
  if (R.b(0.1)) {c.chi2 = bad(R, 1);}
  if (R.b(0.1)) {c.scale = bad(R, 1);}
  if (R.b(0.1)) {c.aug_dt = bad(R, 1);}
  if (R.b(0.1)) {c.aug_pos = bad(R, 1); c.aug_ang = bad(R, 1);}
  if (R.b(0.1)) {hurt(R, c.body.pos_b_in_l); hurtq(R, c.body.ang_b_to_l);}
  World w(c);
  Weights W;
  W.w[PAST] = 0;
  int nops = R.i(8, 40);
  bool sound = true;
  double rate = R.pick(std::vector<double>{0.0, 0.1, 0.3});
  for (int k = 0; k < nops; ++k) {
    // after damage the generator may not rely on the estimate any more
    for (auto & f : flat(w.ekf->m_state)) {if (!f.second.allFinite()) {sound = false;}}
    if (!sound) {W.w[U_VIS] = 0;}
    if (!(w.ekf->GetCurrentTime() < 1e6)) {sound = false;}
    Op o = genOp(R, w, W);
    if (R.b(rate)) {damage(R, w, o); M.ev("damaged_operations");}
    M.ev(std::string("op_") + kname(o.k));
    h.add(uint64_t(o.k)).add(uint64_t(o.id));
    tryit(M, "operations", [&] {w.apply(o);});
  }
}

static void helpers(Mon & M, Rng & R, Hash & h)
{
  for (int k = 0; k < 20; ++k) {
    Vec3 v = R.v(), u = R.v();
    Quat q = R.q();
    if (R.b()) {hurt(R, v);}
    if (R.b(0.3)) {hurt(R, u);}
    if (R.b()) {hurtq(R, q);}
    h.add(v).add(u);
    tryit(M, "helper_calls", [&] {RotVecToQuat(v); EigVecToQuat(v); QuatToRotVec(q); SkewSymmetric(v); QuaternionJacobian(q);});
    tryit(M, "helper_calls", [&] {cv::Vec3d r = QuatToRodrigues(q); RodriguesToQuat(r); CvVectorToEigen(r);});
    tryit(M, "helper_calls", [&] {ecef_to_lla(v); ecef_to_lla(v * 6.4e6); lla_to_ecef(v); lla_to_enu(v, u); enu_to_lla(v, u);
        ecef_to_enu(v, u); enu_to_ecef(v, u); local_to_enu(v, u[0]); enu_to_local(v, u[0]); wgs84_m_to_deg(v[0]); sign(v[0]);});
    int n = R.i(0, 6);
    std::vector<Vec3> a, b;
    std::vector<double> w, l;
    for (int i = 0; i < n; ++i) {
      a.push_back(R.v(R.logu(1e-6, 1e6)));
      b.push_back(R.v());
      w.push_back(R.u());
      if (R.b(0.15)) {hurt(R, a.back());}
      if (R.b(0.15)) {hurt(R, b.back());}
      if (R.b(0.15)) {w.back() = bad(R, 1);}
    }
    for (int i = R.i(0, 9); i > 0; --i) {l.push_back(R.b(0.2) ? bad(R, 1) : R.n());}
    tryit(M, "helper_calls", [&] {average_vectors(a); average_vectors(a, w); maximum_distance(a); mean_standard_deviation(a);});
    tryit(M, "helper_calls", [&] {Eigen::Affine3d t; double p, s; kabsch_2d(a, b, t, p, s); affine_angle(t);});
    tryit(M, "helper_calls", [&] {matrix2d_from_vectors3d(a); a - v; StdToEigVec(l); StdToEigQuat(l);});
    tryit(M, "helper_calls", [&] {VectorToCommaString(StdToEigVec(l)); VectorToCommaString(StdToEigVec(l), R.i(0, 20)); QuaternionToCommaString(q);
        EnumerateHeader("x", unsigned(n));});
    VecX x = StdToEigVec(l);
    tryit(M, "helper_calls", [&] {MinBoundVector(x, R.b() ? 1e-6 : bad(R, 1));});
    int rows = R.i(0, 12), cols = R.i(1, 12);
    MatX J = R.m(rows, cols);
    VecX r = VecX(R.m(rows, 1));
    if (rows && R.b(0.4)) {hurt(R, J);}
    tryit(M, "helper_calls", [&] {CompressMeasurements(J, r);});
    int sz = R.i(0, 6), at = R.i(0, sz), k2 = R.i(0, sz - at);
    MatX big = R.m(sz, sz);
    tryit(M, "helper_calls", [&] {RemoveFromMatrix(big, unsigned(at), unsigned(at), unsigned(k2)); InsertInMatrix(R.m(k2, k2), big, unsigned(at), unsigned(at));});
  }
}

static cv::Mat picture(Rng & R)
{
  int w = R.pick(std::vector<int>{1, 2, 5, 9, 10, 11, 40, 64, 120, 200, 320}), hgt = R.pick(std::vector<int>{1, 2, 5, 9, 10, 11, 40, 64, 120, 200});
  int type = R.b(0.8) ? CV_8UC1 : CV_8UC3;
  cv::Mat m(hgt, w, type);
  switch (R.i(0, 5)) {
    case 0: m.setTo(R.i(0, 255)); break;
    case 1: for (size_t k = 0; k < m.total() * m.elemSize(); ++k) {m.data[k] = uchar(R.g());} break;
    case 2: case 3: {
        // shapes, some of them thin, on an even or speckled ground
        m.setTo(R.i(0, 255));
        if (R.b(0.3)) {for (size_t k = 0; k < m.total() * m.elemSize(); ++k) {m.data[k] = uchar(m.data[k] / 2 + R.i(0, 20));}}
        for (int n = R.i(1, 80); n > 0; --n) {
          cv::Rect r(R.i(0, w), R.i(0, hgt), R.b(0.3) ? R.i(1, 2) : R.i(3, 30), R.b(0.3) ? R.i(1, 2) : R.i(3, 30));
          auto col = cv::Scalar::all(R.i(0, 255));
          if (R.b()) {cv::rectangle(m, r, col, -1);} else if (R.b()) {cv::circle(m, r.tl(), R.i(0, 12), col, -1);}
          else {cv::line(m, r.tl(), cv::Point(R.i(0, w), R.i(0, hgt)), col, R.i(1, 3));}
        }
        break;
      }
    default: {
        cv::Mat s(hgt / 8 + 1, w / 8 + 1, type);
        for (size_t k = 0; k < s.total() * s.elemSize(); ++k) {s.data[k] = uchar(R.g());}
        cv::resize(s, m, m.size(), 0, 0, R.b() ? cv::INTER_NEAREST : cv::INTER_LINEAR);
      }
  }
  return m;
}

static void pictures(Mon & M, Rng & R, Hash & h)
{
  EKF::Parameters ep;
  ep.debug_logger = lg();
  ep.augmenting_type = AugmentationType(R.i(0, 4));
  ep.use_root_covariance = R.b();
  auto e = std::make_shared<EKF>(ep);
  e->SetMaxTrackLength(unsigned(R.i(1, 6)));
  Camera::Parameters cp;
  cp.name = "c";
  cp.ekf = e;
  cp.logger = lg();
  cp.rate = R.b(0.8) ? 10 : bad(R, 10);
  cp.is_extrinsic = R.b();
  cp.pos_c_in_b = R.v();
  cp.ang_c_to_b = R.q();
  cp.variance = VecX::Constant(6, R.b(0.8) ? 0.01 : 0.0);
  if (R.b(0.2)) {cp.intrinsics.f_x = bad(R, 0.01);}
  Camera cam(cp);
  FeatureTracker::Parameters p;
  p.camera_id = cam.GetId(); p.logger = lg(); p.ekf = e; p.intrinsics = cp.intrinsics;
  p.detector = Detector(R.i(0, 5));
  p.descriptor = Descriptor(R.i(0, 1));
  p.matcher = Matcher(R.i(0, 1));
  p.threshold = R.b(0.8) ? R.i(5, 30) : R.i(0, 1000);
  p.px_error = R.b(0.8) ? 1.0 : bad(R, 1);
  p.min_track_length = unsigned(R.i(0, 4));
  p.max_track_length = unsigned(R.i(0, 6));
  if (R.b(0.2)) {p.down_sample = true; p.down_sample_width = R.i(1, 80); p.down_sample_height = R.i(1, 80);}
  if (R.b(0.8)) {tryit(M, "trackers", [&] {cam.AddTracker(std::make_shared<FeatureTracker>(p));});}
  FiducialTracker::Parameters f;
  f.camera_id = cam.GetId(); f.logger = lg(); f.ekf = e; f.intrinsics = cp.intrinsics;
  f.detector_type = R.b() ? FiducialType::ARUCO_BOARD : FiducialType::CHARUCO_BOARD;
  f.squares_x = unsigned(R.i(0, 5)); f.squares_y = unsigned(R.i(0, 5));
  f.square_length = R.b(0.8) ? 0.1 : bad(R, 1); f.marker_length = R.b(0.8) ? 0.05 : bad(R, 1);
  f.pos_f_in_l = R.v(); f.ang_f_to_l = R.q();
  if (R.b(0.4)) {tryit(M, "trackers", [&] {cam.AddFiducial(std::make_shared<FiducialTracker>(f));});}
  cv::Mat last = picture(R);
  double t = 0;
  int n = R.i(2, 10);
  for (int k = 0; k < n; ++k) {
    double pr = R.u();
    if (pr < 0.2) {last = picture(R);} else if (pr < 0.3) {last = cv::Mat();} else if (!last.empty()) {
      // the same scene, moved
      cv::Mat A = (cv::Mat_<double>(2, 3) << 1, 0, R.u(-3, 3), 0, 1, R.u(-3, 3)), o;
      cv::warpAffine(last, o, A, last.size(), cv::INTER_NEAREST, cv::BORDER_REFLECT);
      last = o;
    } else {
      last = picture(R);
    }
    CameraMessage m(last.clone());
    m.sensor_id = cam.GetId();
    m.sensor_type = SensorType::Camera;
    t += R.b(0.9) ? R.u(0, 0.2) : R.pick(std::vector<double>{0.0, -1.0, 1e9});
    m.time = t;
    h.add(uint64_t(last.cols)).add(uint64_t(last.rows)).add(uint64_t(p.detector));
    tryit(M, "images", [&] {cam.Callback(m);});
  }
}

static void truths(Mon & M, Rng & R, Hash & h)
{
  auto num = [&](double s) {return R.b(0.1) ? bad(R, s) : R.u(-s, s);};
  auto list = [&](int n) {std::vector<double> o; for (int k = 0; k < n; ++k) {o.push_back(num(2));} return o;};
  double T = R.u(0, 3), st = R.b(0.8) ? R.u(0.1, 1) : R.pick(std::vector<double>{10, 1e9, T});
  for (int kind = 0; kind < 3; ++kind) {
    std::shared_ptr<TruthEngine> t;
    tryit(M, "truth_engines", [&] {
        if (kind == 0) {
          t = std::make_shared<TruthEngineCyclic>(Vec3(num(1), num(1), num(1)), Vec3(num(1), num(1), num(1)), Vec3(num(1), num(1), num(1)),
          Vec3(num(1), num(1), num(1)), num(1), num(1), st, T, lg());
        } else if (kind == 1) {
          t = std::make_shared<TruthEngineSpline>(list(R.i(0, 20)), list(R.i(0, 20)), list(3), list(3), st, T, lg());
        } else {
          t = std::make_shared<TruthEngineSmoother>(list(R.i(0, 8)), list(R.i(0, 20)), list(R.i(0, 20)), list(3), list(3), st, T, 100.0, lg());
        }
      });
    if (!t) {continue;}
    for (int k = 0; k < 30; ++k) {
      double s = R.b(0.7) ? R.u(-1, T + 2) : R.pick(std::vector<double>{0.0, T, T + st, st, -1e9, 1e9, 1e300});
      h.add(s);
      tryit(M, "truth_queries", [&] {
          t->GetBodyPosition(s); t->GetBodyVelocity(s); t->GetBodyAcceleration(s); t->GetBodyAngularPosition(s);
          t->GetBodyAngularRate(s); t->GetBodyAngularAcceleration(s);
        });
    }
  }
}

void run_case(Mon & M, Rng & R)
{
  Hash h;
  uint64_t e0 = M.checks;
  switch (M.idx % 8) {
    case 0: helpers(M, R, h); break;
    case 1: pictures(M, R, h); break;
    case 2: truths(M, R, h); break;
    default: history(M, R, h); break;
  }
  M.done(h.h, M.checks - e0 > 5, strf("kind %d, %d guarded calls", int(M.idx % 8), int(M.checks - e0)));
}
