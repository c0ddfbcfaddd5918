// Filter histories: a random but replayable sequence of public filter operations, plus the
// bookkeeping (layout, snapshots, shadow clock and clone policy) that the oracles use.
// Only the public interface of the filter is used.
#pragma once
#include "mon.hpp"
#include "ref.hpp"
#include "ekf/ekf.hpp"
#include "ekf/types.hpp"
#include "ekf/update/updater.hpp"
#include "ekf/update/imu_updater.hpp"
#include "ekf/update/gps_updater.hpp"
#include "ekf/update/fiducial_updater.hpp"
#include "ekf/update/msckf_updater.hpp"

namespace hist
{
const int NB = 18;

struct Blk
{
  char kind;        // B body, I imu extrinsic, N imu intrinsic, G gps, C camera, F fiducial, A clone
  unsigned id;
  int n;            // position in the clone list of that camera
  int start, size;
};

inline std::vector<Blk> layout(const State & s)
{
  std::vector<Blk> o;
  int at = 0;
  auto put = [&](char k, unsigned id, int n, int size) {
      o.push_back({k, id, n, at, size});
      at += size;
    };
  put('B', 0, 0, NB);
  for (auto & e : s.imu_states) {
    if (e.second.GetIsExtrinsic()) {put('I', e.first, 0, 6);}
    if (e.second.GetIsIntrinsic()) {put('N', e.first, 0, 6);}
  }
  for (auto & e : s.gps_states) {if (e.second.GetIsExtrinsic()) {put('G', e.first, 0, 3);}}
  for (auto & e : s.cam_states) {if (e.second.GetIsExtrinsic()) {put('C', e.first, 0, 6);}}
  for (auto & e : s.fid_states) {if (e.second.GetIsExtrinsic()) {put('F', e.first, 0, 6);}}
  for (auto & e : s.aug_states) {
    for (size_t k = 0; k < e.second.size(); ++k) {put('A', e.first, int(k), 6);}
  }
  return o;
}
inline int total(const std::vector<Blk> & l) {return l.back().start + l.back().size;}

inline MatX cov(const EKF & e)
{
  if (e.GetUseRootCovariance()) {return e.m_cov.transpose() * e.m_cov;}
  return e.m_cov;
}

struct Snap
{
  State s;
  MatX P;
  double t;
  bool grav, lla;
  explicit Snap(const EKF & e)
  : s(e.m_state), P(cov(e)), t(e.GetCurrentTime()), grav(e.IsGravityInitialized()), lla(e.IsLlaInitialized()) {}
};

// every number of the estimate, including the uncalibrated ones, as (name, value); quaternions as 4 numbers
inline std::vector<std::pair<std::string, VecX>> flat(const State & s)
{
  std::vector<std::pair<std::string, VecX>> o;
  auto v = [&](const std::string & n, const VecX & x) {o.push_back({n, x});};
  auto q = [&](const std::string & n, const Quat & x) {
      VecX a(4);
      a << x.w(), x.x(), x.y(), x.z();
      o.push_back({n, a});
    };
  auto & b = s.body_state;
  v("body_pos", b.pos_b_in_l); v("body_vel", b.vel_b_in_l); v("body_acc", b.acc_b_in_l);
  q("qbody_ang", b.ang_b_to_l); v("body_angvel", b.ang_vel_b_in_l); v("body_angacc", b.ang_acc_b_in_l);
  for (auto & e : s.imu_states) {
    std::string i = std::to_string(e.first);
    v("imu_pos" + i, e.second.pos_i_in_b); q("qimu_ang" + i, e.second.ang_i_to_b);
    v("imu_ab" + i, e.second.acc_bias); v("imu_gb" + i, e.second.omg_bias);
  }
  for (auto & e : s.gps_states) {v("gps_pos" + std::to_string(e.first), e.second.pos_a_in_b);}
  for (auto & e : s.cam_states) {
    v("cam_pos" + std::to_string(e.first), e.second.pos_c_in_b);
    q("qcam_ang" + std::to_string(e.first), e.second.ang_c_to_b);
  }
  for (auto & e : s.fid_states) {
    v("fid_pos" + std::to_string(e.first), e.second.pos_f_in_l);
    q("qfid_ang" + std::to_string(e.first), e.second.ang_f_to_l);
  }
  for (auto & e : s.aug_states) {
    for (size_t k = 0; k < e.second.size(); ++k) {
      std::string i = std::to_string(e.first) + "#" + std::to_string(k);
      v("aug_pos" + i, e.second[k].pos_b_in_l);
      q("qaug_ang" + i, e.second[k].ang_b_to_l);
    }
  }
  return o;
}

// compare two estimates element by element; sign-free for rotations. Names the worst element.
inline bool sameState(
  Mon & M, const State & got, const State & want, double tol, const std::string & key, const std::string & ctx = "")
{
  auto a = flat(got), b = flat(want);
  ++M.checks;
  if (a.size() != b.size()) {
    M.violation(key, strf("number of estimated quantities %d, expected %d ", int(a.size()), int(b.size())) + ctx);
    return false;
  }
  double & w = M.worst[key];
  for (size_t k = 0; k < a.size(); ++k) {
    if (a[k].first != b[k].first) {
      M.violation(key, "estimate has " + a[k].first + ", expected " + b[k].first + " " + ctx);
      return false;
    }
    double e = (a[k].second - b[k].second).cwiseAbs().maxCoeff();
    double sc = 1 + b[k].second.cwiseAbs().maxCoeff();
    if (a[k].first[0] == 'q') {e = std::min(e, (a[k].second + b[k].second).cwiseAbs().maxCoeff());}
    if (!a[k].second.allFinite()) {e = INFINITY;}
    if (std::isfinite(e) && e / (tol * sc) > w) {w = e / (tol * sc);}
    if (!(e <= tol * sc)) {
      M.violation(key, a[k].first + " got " + vs(a[k].second) + " want " + vs(b[k].second) + " " + ctx);
      return false;
    }
  }
  return true;
}

// reference increment: additive, rotations right-multiplied
inline State plus(const State & s0, const VecX & d)
{
  State s = s0;
  auto inc = [](Quat & q, const Vec3 & v) {q = ref::qmul(q, ref::qexp(v));};
  for (auto & b : layout(s0)) {
    VecX x = d.segment(b.start, b.size);
    switch (b.kind) {
      case 'B':
        s.body_state.pos_b_in_l += x.segment<3>(0); s.body_state.vel_b_in_l += x.segment<3>(3);
        s.body_state.acc_b_in_l += x.segment<3>(6); inc(s.body_state.ang_b_to_l, x.segment<3>(9));
        s.body_state.ang_vel_b_in_l += x.segment<3>(12); s.body_state.ang_acc_b_in_l += x.segment<3>(15);
        break;
      case 'I':
        s.imu_states[b.id].pos_i_in_b += x.head<3>(); inc(s.imu_states[b.id].ang_i_to_b, x.tail<3>()); break;
      case 'N':
        s.imu_states[b.id].acc_bias += x.head<3>(); s.imu_states[b.id].omg_bias += x.tail<3>(); break;
      case 'G': s.gps_states[b.id].pos_a_in_b += x; break;
      case 'C':
        s.cam_states[b.id].pos_c_in_b += x.head<3>(); inc(s.cam_states[b.id].ang_c_to_b, x.tail<3>()); break;
      case 'F':
        s.fid_states[b.id].pos_f_in_l += x.head<3>(); inc(s.fid_states[b.id].ang_f_to_l, x.tail<3>()); break;
      case 'A':
        s.aug_states[b.id][size_t(b.n)].pos_b_in_l += x.head<3>();
        inc(s.aug_states[b.id][size_t(b.n)].ang_b_to_l, x.tail<3>()); break;
    }
  }
  return s;
}

// difference b (-) a in the same coordinates, a and b of the same layout
inline VecX minus(const State & b, const State & a)
{
  auto L = layout(a);
  VecX d = VecX::Zero(total(L));
  auto dq = [](const Quat & x, const Quat & y) {return ref::qlog(ref::qmul(ref::qinv(y), x));};
  for (auto & k : L) {
    switch (k.kind) {
      case 'B':
        d.segment<3>(0) = b.body_state.pos_b_in_l - a.body_state.pos_b_in_l;
        d.segment<3>(3) = b.body_state.vel_b_in_l - a.body_state.vel_b_in_l;
        d.segment<3>(6) = b.body_state.acc_b_in_l - a.body_state.acc_b_in_l;
        d.segment<3>(9) = dq(b.body_state.ang_b_to_l, a.body_state.ang_b_to_l);
        d.segment<3>(12) = b.body_state.ang_vel_b_in_l - a.body_state.ang_vel_b_in_l;
        d.segment<3>(15) = b.body_state.ang_acc_b_in_l - a.body_state.ang_acc_b_in_l;
        break;
      case 'I':
        d.segment<3>(k.start) = b.imu_states.at(k.id).pos_i_in_b - a.imu_states.at(k.id).pos_i_in_b;
        d.segment<3>(k.start + 3) = dq(b.imu_states.at(k.id).ang_i_to_b, a.imu_states.at(k.id).ang_i_to_b);
        break;
      case 'N':
        d.segment<3>(k.start) = b.imu_states.at(k.id).acc_bias - a.imu_states.at(k.id).acc_bias;
        d.segment<3>(k.start + 3) = b.imu_states.at(k.id).omg_bias - a.imu_states.at(k.id).omg_bias;
        break;
      case 'G': d.segment<3>(k.start) = b.gps_states.at(k.id).pos_a_in_b - a.gps_states.at(k.id).pos_a_in_b; break;
      case 'C':
        d.segment<3>(k.start) = b.cam_states.at(k.id).pos_c_in_b - a.cam_states.at(k.id).pos_c_in_b;
        d.segment<3>(k.start + 3) = dq(b.cam_states.at(k.id).ang_c_to_b, a.cam_states.at(k.id).ang_c_to_b);
        break;
      case 'F':
        d.segment<3>(k.start) = b.fid_states.at(k.id).pos_f_in_l - a.fid_states.at(k.id).pos_f_in_l;
        d.segment<3>(k.start + 3) = dq(b.fid_states.at(k.id).ang_f_to_l, a.fid_states.at(k.id).ang_f_to_l);
        break;
      case 'A':
        d.segment<3>(k.start) = b.aug_states.at(k.id)[size_t(k.n)].pos_b_in_l -
          a.aug_states.at(k.id)[size_t(k.n)].pos_b_in_l;
        d.segment<3>(k.start + 3) = dq(
          b.aug_states.at(k.id)[size_t(k.n)].ang_b_to_l, a.aug_states.at(k.id)[size_t(k.n)].ang_b_to_l);
        break;
    }
  }
  return d;
}

enum Kind { PRED, PAST, REG_I, REG_G, REG_C, REG_F, FRAME, SETLEN, GRAV, ZACC, KUPD, U_IMU, U_GPS, U_FID, U_VIS, NKIND };
inline const char * kname(int k)
{
  static const char * n[] = {"predict", "predict_past", "reg_imu", "reg_gps", "reg_cam", "reg_fid", "frame", "set_len",
    "init_gravity", "zero_acc", "kalman", "imu", "gps", "fiducial", "visual"};
  return n[k];
}

struct Op
{
  int k = PRED;
  double t = 0;
  unsigned id = 0, id2 = 0, frame = 0;
  bool flag = false;
  VecX v;
  MatX A, B;
  Vec3 a = Vec3::Zero(), b = Vec3::Zero();
  ImuState imu;
  GpsState gps;
  CamState cam;
  FidState fid;
  FeatureTracks tracks;
  BoardDetection det;
};

struct Cfg
{
  bool root = false, fej = false;
  AugmentationType aug = AugmentationType::ALL;
  double aug_dt = 1, aug_pos = 0.1, aug_ang = 0.1;
  VecX noise = VecX::Ones(NB);
  Vec3 ref_lla = Vec3(40, -75, 100);
  double ref_ang = 0;
  BodyState body;
  MatX P0;             // initial body covariance
  int L = 20;
  double chi2 = 1, scale = 100;
  bool diagR = true, diagP = true;
  int max_sensors = 6;
  double log_rate = 0;
  std::string log_dir;
  LogLevel log_level = LogLevel::FATAL;
  double T0 = 0;       // absolute time of the first measurement
};

inline MatX upperRoot(const MatX & P)
{
  Eigen::LLT<MatX> l(P);
  return l.matrixU();
}

inline Cfg randomCfg(Rng & R)
{
  Cfg c;
  c.root = R.b();
  c.fej = R.b(0.25);
  c.aug = R.pick(
    std::vector<AugmentationType>{AugmentationType::NONE, AugmentationType::ALL, AugmentationType::ALL,
      AugmentationType::PRIMARY, AugmentationType::TIME, AugmentationType::ERROR});
  c.aug_dt = R.logu(0.02, 1.0);
  c.aug_pos = R.logu(0.001, 0.3);
  c.aug_ang = R.logu(0.001, 0.3);
  for (int k = 0; k < NB; ++k) {c.noise[k] = R.b(0.1) ? 0.0 : R.logu(1e-6, 1.0);}
  c.ref_lla = Vec3(R.u(-80, 80), R.u(-179, 179), R.u(-100, 3000));
  c.ref_ang = R.u(-3.1, 3.1);
  c.body.pos_b_in_l = R.v(3);
  c.body.vel_b_in_l = R.v(1);
  c.body.acc_b_in_l = ref::G + R.v(1);
  c.body.ang_b_to_l = R.q();
  c.body.ang_vel_b_in_l = R.v(0.5);
  c.body.ang_acc_b_in_l = R.v(0.2);
  c.P0 = R.b(0.3) ? MatX(1e-2 * MatX::Identity(NB, NB)) : R.spd(NB, R.logu(1e-4, 1.0));
  c.L = R.i(1, 5);
  c.chi2 = R.logu(0.5, 20);
  c.scale = R.logu(1, 100);
  c.T0 = R.pick(std::vector<double>{0.0, 1.0, -3.5, 1000.25, 1.7e9});
  return c;
}

struct World
{
  Cfg c;
  std::shared_ptr<DebugLogger> log;
  std::shared_ptr<EKF> ekf;
  std::map<unsigned, std::shared_ptr<ImuUpdater>> imu;
  std::map<unsigned, std::shared_ptr<GpsUpdater>> gps;
  std::map<std::pair<unsigned, unsigned>, std::shared_ptr<FiducialUpdater>> fid;   // (board, camera)
  std::map<unsigned, std::shared_ptr<MsckfUpdater>> vis;
  unsigned frame_no = 0;
  unsigned primary = 0;
  int len = 20;              // configured window length
  double maxT = 0, minT = 1.0;
  bool zacc = true;
  double prev_aug_t = 0;     // time of last policy-created clone
  bool frame_flag = true;
  bool registered = false;

  explicit World(const Cfg & cfg)
  : c(cfg)
  {
    log = std::make_shared<DebugLogger>(c.log_level, "");
    EKF::Parameters p;
    p.debug_logger = log;
    p.augmenting_type = c.aug;
    p.augmenting_delta_time = c.aug_dt;
    p.augmenting_pos_error = c.aug_pos;
    p.augmenting_ang_error = c.aug_ang;
    p.process_noise = c.noise;
    p.pos_e_in_g = c.ref_lla;
    p.ang_l_to_e = c.ref_ang;
    p.gps_init_type = GpsInitType::CONSTANT;
    p.motion_detection_chi_squared = c.chi2;
    p.imu_noise_scale_factor = c.scale;
    p.use_root_covariance = c.root;
    p.use_first_estimate_jacobian = c.fej;
    p.data_log_rate = c.log_rate;
    p.log_directory = c.log_dir;
    ekf = std::make_shared<EKF>(p);
    ekf->m_state.body_state = c.body;
    ekf->m_cov = c.root ? upperRoot(c.P0) : c.P0;
    ekf->SetMaxTrackLength(unsigned(c.L));
    len = c.L;
    ekf->CalculateLocalTime(c.T0);
  }
  // the local time that an absolute time c.T0 + t stands for (absolute times are rounded to double)
  double local(double t) const {return (c.T0 + t) - c.T0;}

  void apply(const Op & o)
  {
    EKF & e = *ekf;
    switch (o.k) {
      case PRED: case PAST: e.PredictModel(o.t); break;
      case REG_I:
        e.RegisterIMU(o.id, o.imu, o.A);
        if (!imu.count(o.id)) {
          imu[o.id] = std::make_shared<ImuUpdater>(
            o.id, o.imu.GetIsExtrinsic(), o.imu.GetIsIntrinsic(), c.log_dir, c.log_rate, log);
        }
        registered = true;
        break;
      case REG_G:
        e.RegisterGPS(o.id, o.gps, o.A);
        if (!gps.count(o.id)) {
          gps[o.id] = std::make_shared<GpsUpdater>(o.id, o.gps.GetIsExtrinsic(), c.log_dir, c.log_rate, log);
        }
        registered = true;
        break;
      case REG_C:
        e.RegisterCamera(o.id, o.cam, o.A);
        if (!vis.count(o.id)) {
          vis[o.id] = std::make_shared<MsckfUpdater>(
            o.id, o.cam.GetIsExtrinsic(), c.log_dir, c.log_rate, 0.1, log);
          if (!primary) {primary = o.id;}
          maxT = std::max(maxT, 1 / o.cam.rate);
          minT = std::min(minT, 1 / o.cam.rate);
        }
        registered = true;
        break;
      case REG_F: e.RegisterFiducial(o.fid, o.A); registered = true; break;
      case FRAME:
        e.PredictModel(o.t);
        e.AugmentStateIfNeeded(o.id, o.frame);
        frame_flag = true;
        break;
      case SETLEN: e.SetMaxTrackLength(unsigned(o.id)); len = int(o.id); break;
      case GRAV: e.InitializeGravity(); break;
      case ZACC: e.SetZeroAcceleration(o.flag); zacc = o.flag; break;
      case KUPD: Updater::KalmanUpdate(e, o.A, o.v, o.B); break;
      case U_IMU: imu[o.id]->UpdateEKF(e, c.T0 + o.t, o.a, o.A, o.b, o.B); break;
      case U_GPS: gps[o.id]->UpdateEKF(e, c.T0 + o.t, o.a, o.A); break;
      case U_FID: {
          auto & u = fid[{o.id, o.id2}];
          if (!u) {
            u = std::make_shared<FiducialUpdater>(
              o.id, o.id2, e.m_state.fid_states[o.id].GetIsExtrinsic(),
              e.m_state.cam_states[o.id2].GetIsExtrinsic(), c.log_dir, c.log_rate, log);
          }
          u->UpdateEKF(e, c.T0 + o.t, o.det);
          break;
        }
      case U_VIS: vis[o.id]->UpdateEKF(e, c.T0 + o.t, o.tracks, o.v[0]); break;
    }
  }
};

inline unsigned newId(Rng & R, const std::set<unsigned> & used, unsigned lo)
{
  for (;;) {
    unsigned id = R.b(0.85) ? unsigned(R.i(int(lo), 12)) : unsigned(R.i(13, 100000));
    if (!used.count(id)) {return id;}
  }
}

// the next time: mostly forward by a random step, sometimes equal
inline double nextTime(Rng & R, const World & w, bool starts = false)
{
  double now = w.ekf->GetCurrentTime();
  // until gravity is known only the clock moves: a long wait (short when the event itself finds gravity
  // and predicts over the wait: the numbers would be too ill-conditioned to compare)
  if (!w.ekf->IsGravityInitialized() && R.b(0.05)) {
    double wait = R.logu(0.3, 1e4);
    return std::max(now, w.local(now + (starts ? std::min(wait, 3.0) : wait)));
  }
  return std::max(now, w.local(now + (R.b(0.07) ? 0.0 : R.logu(1e-3, 0.3))));
}

template<class M> std::set<unsigned> keys(const M & m)
{
  std::set<unsigned> s;
  for (auto & e : m) {s.insert(e.first);}
  return s;
}

inline MatX randCov(Rng & R, int n, bool diag)
{
  MatX P;
  if (diag) {
    P = MatX::Zero(n, n);
    for (int k = 0; k < n; ++k) {P(k, k) = R.logu(1e-4, 1.0);}
  } else {
    P = R.spd(n, R.logu(1e-3, 1.0));
  }
  return P;
}

inline Op regOp(Rng & R, World & w, int k)
{
  Op o;
  o.k = k;
  State & s = w.ekf->m_state;
  bool dup = R.b(0.05);
  auto choose = [&](std::set<unsigned> used, unsigned lo) {
      if (dup && !used.empty()) {return R.pick(std::vector<unsigned>(used.begin(), used.end()));}
      return newId(R, used, lo);
    };
  if (k == REG_I) {
    o.id = choose(keys(s.imu_states), 0);
    o.imu.SetIsExtrinsic(R.b()); o.imu.SetIsIntrinsic(R.b());
    o.imu.pos_i_in_b = R.v(0.3); o.imu.ang_i_to_b = R.q(); o.imu.acc_bias = R.v(0.1); o.imu.omg_bias = R.v(0.05);
    o.imu.pos_stability = R.logu(1e-9, 1e-2); o.imu.ang_stability = R.logu(1e-9, 1e-2);
    o.imu.acc_bias_stability = R.logu(1e-9, 1e-2); o.imu.omg_bias_stability = R.logu(1e-9, 1e-2);
    o.A = randCov(R, 12, w.c.diagP);
  } else if (k == REG_G) {
    o.id = choose(keys(s.gps_states), 0);
    o.gps.SetIsExtrinsic(R.b(0.6));
    o.gps.pos_a_in_b = R.v(0.5); o.gps.pos_stability = R.logu(1e-9, 1e-2);
    o.A = randCov(R, 3, w.c.diagP);
  } else if (k == REG_C) {
    o.id = choose(keys(s.cam_states), 1);
    o.cam.SetIsExtrinsic(R.b(0.6));
    o.cam.pos_c_in_b = R.v(0.3); o.cam.ang_c_to_b = R.q();
    o.cam.pos_stability = R.logu(1e-9, 1e-2); o.cam.ang_stability = R.logu(1e-9, 1e-2);
    o.cam.rate = R.logu(2, 30);
    o.cam.intrinsics.f_x = 0.01; o.cam.intrinsics.f_y = 0.01; o.cam.intrinsics.pixel_size = 1e-5;
    o.cam.intrinsics.width = 1000; o.cam.intrinsics.height = 800;
    o.A = randCov(R, 6, w.c.diagP);
  } else {
    o.fid.id = choose(keys(s.fid_states), 0);
    o.id = o.fid.id;
    o.fid.SetIsExtrinsic(R.b(0.6));
    o.fid.pos_f_in_l = R.v(5); o.fid.ang_f_to_l = R.q();
    o.fid.pos_stability = R.logu(1e-9, 1e-2); o.fid.ang_stability = R.logu(1e-9, 1e-2);
    o.A = randCov(R, 6, w.c.diagP);
  }
  return o;
}

struct Weights
{
  double w[NKIND] = {6, 1, 1.2, 0.8, 1.2, 0.8, 6, 0.3, 1, 0.7, 2, 4, 2, 2, 2};
};

inline cv::KeyPoint pixel(const Vec3 & pc, const Intrinsics & in)
{
  cv::KeyPoint k;
  k.pt.x = float(in.f_x / in.pixel_size * pc.x() / pc.z() + in.width / 2);
  k.pt.y = float(in.f_y / in.pixel_size * pc.y() / pc.z() + in.height / 2);
  return k;
}

// is the camera's track lookup answered by exact frames (rather than interpolation)?
inline bool frameLookup(const World & w, unsigned cam)
{
  return w.c.aug == AugmentationType::ALL || (w.c.aug == AugmentationType::PRIMARY && cam == w.primary);
}

// visible-feature tracks over the current window, consistent with the clones up to pixel noise
inline FeatureTracks makeTracks(Rng & R, World & w, unsigned cam, double noise_px, int nfeat, double t_now)
{
  FeatureTracks out;
  State & s = w.ekf->m_state;
  struct View {unsigned frame; double t; Vec3 p; Quat q;};
  std::vector<View> views;
  if (frameLookup(w, cam)) {
    for (auto & a : s.aug_states[cam]) {views.push_back({a.frame_id, a.time, a.pos_b_in_l, a.ang_b_to_l});}
  } else {
    unsigned key = w.c.aug == AugmentationType::PRIMARY ? w.primary : 0;
    auto & list = s.aug_states[key];
    if (list.empty()) {return out;}
    double t0 = list.front().time, t1 = std::max(t0, t_now);
    int n = R.i(2, 4);
    std::vector<double> ts;
    for (int k = 0; k < n; ++k) {ts.push_back(R.u(t0, t1));}
    std::sort(ts.begin(), ts.end());
    for (double t : ts) {
      AugState a = w.ekf->GetAugState(cam, 0, t);
      if (!a.pos_b_in_l.allFinite() || !a.ang_b_to_l.coeffs().allFinite()) {continue;}
      views.push_back({unsigned(views.size()), t, a.pos_b_in_l, a.ang_b_to_l});
    }
  }
  if (views.size() < 2) {return out;}
  CamState & c = s.cam_states[cam];
  for (int f = 0; f < nfeat; ++f) {
    // a point in front of the newest view
    const View & v = views.back();
    Vec3 pc(R.u(-1, 1), R.u(-1, 1), R.u(3, 12));
    pc.head<2>() *= 0.4 * pc.z();
    Vec3 pl = v.p + ref::rot(v.q) * (c.pos_c_in_b + ref::rot(c.ang_c_to_b) * pc);
    FeatureTrack tr;
    tr.true_feature_position = pl;
    for (auto & x : views) {
      Vec3 p = ref::rot(c.ang_c_to_b).transpose() * (ref::rot(x.q).transpose() * (pl - x.p) - c.pos_c_in_b);
      if (p.z() < 0.5) {continue;}
      FeaturePoint fp;
      fp.frame_id = x.frame;
      fp.frame_time = x.t;
      fp.key_point = pixel(p, c.intrinsics);
      fp.key_point.pt.x += float(R.n(noise_px));
      fp.key_point.pt.y += float(R.n(noise_px));
      fp.key_point.class_id = f;
      tr.track.push_back(fp);
    }
    if (tr.track.size() >= 2) {out.push_back(tr);}
  }
  return out;
}

// generate the next operation for the world's current abstract state
inline Op genOp(Rng & R, World & w, const Weights & W)
{
  State & s = w.ekf->m_state;
  for (int tries = 0; ; ++tries) {
    double sum = 0;
    for (double x : W.w) {sum += x;}
    double r = R.u(0, sum);
    int k = 0;
    while (k < NKIND - 1 && r >= W.w[k]) {r -= W.w[k++];}
    if (!w.registered) {k = R.pick(std::vector<int>{REG_I, REG_C, REG_G, REG_F});}
    Op o;
    o.k = k;
    int sensors = int(s.imu_states.size() + s.gps_states.size() + s.cam_states.size() + s.fid_states.size());
    double now = w.ekf->GetCurrentTime();
    switch (k) {
      case PRED: o.t = nextTime(R, w); return o;
      case PAST:
        o.t = now - R.logu(1e-9, 10);
        if (!(o.t < now)) {continue;}
        return o;
      case REG_I: case REG_G: case REG_C: case REG_F:
        if (sensors >= w.c.max_sensors) {continue;}
        return regOp(R, w, k);
      case FRAME:
        if (s.cam_states.empty()) {continue;}
        o.t = nextTime(R, w);
        {auto ks = keys(s.cam_states); o.id = R.pick(std::vector<unsigned>(ks.begin(), ks.end()));}
        o.frame = ++w.frame_no;
        return o;
      case SETLEN: {
          int big = 0;
          for (auto & a : s.aug_states) {big = std::max(big, int(a.second.size()));}
          o.id = unsigned(R.i(std::max(1, big), std::max(1, big) + 4));
          return o;
        }
      case GRAV: return o;
      case ZACC: o.flag = R.b(0.3); return o;
      case KUPD: {
          int n = total(layout(s)), m = R.i(1, 6);
          o.A = R.m(m, n);
          for (int q = 0; q < o.A.size(); ++q) {if (R.b(0.5)) {o.A.data()[q] = 0;}}
          o.v = VecX(R.m(m, 1, 0.1));
          o.B = randCov(R, m, w.c.diagR);
          return o;
        }
      case U_IMU: {
          if (s.imu_states.empty()) {continue;}
          auto ks = keys(s.imu_states);
          o.id = R.pick(std::vector<unsigned>(ks.begin(), ks.end()));
          o.t = nextTime(R, w, true);
          auto & im = s.imu_states[o.id];
          Quat q = ref::qmul(s.body_state.ang_b_to_l, im.ang_i_to_b);
          bool still = R.b(0.5);
          o.a = im.acc_bias + ref::rot(q).transpose() * (ref::G + (still ? Vec3::Zero().eval() : R.v(2))) + R.v(0.02);
          o.b = im.omg_bias + (still ? Vec3::Zero().eval() : R.v(0.5)) + R.v(0.002);
          o.A = randCov(R, 3, true) * 1e-2;
          o.B = randCov(R, 3, true) * 1e-2;
          return o;
        }
      case U_GPS: {
          if (s.gps_states.empty()) {continue;}
          auto ks = keys(s.gps_states);
          o.id = R.pick(std::vector<unsigned>(ks.begin(), ks.end()));
          o.t = nextTime(R, w);
          Vec3 pa = s.body_state.pos_b_in_l + ref::rot(s.body_state.ang_b_to_l) * s.gps_states[o.id].pos_a_in_b + R.v(0.5);
          Vec3 enu = ref::enu2local(pa, -w.c.ref_ang);
          // small-angle inverse of the geodetic map is enough to aim near the estimate
          double d = M_PI / 180, lat = w.c.ref_lla[0] * d, e2 = ref::WF * (2 - ref::WF);
          double W1 = std::sqrt(1 - e2 * std::sin(lat) * std::sin(lat));
          double Nn = ref::WA / W1, Mm = ref::WA * (1 - e2) / (W1 * W1 * W1);
          o.a = Vec3(w.c.ref_lla[0] + enu.y() / (Mm + w.c.ref_lla[2]) / d,
              w.c.ref_lla[1] + enu.x() / ((Nn + w.c.ref_lla[2]) * std::cos(lat)) / d, w.c.ref_lla[2] + enu.z());
          o.A = randCov(R, 3, w.c.diagR);
          return o;
        }
      case U_FID: {
          if (s.fid_states.empty() || s.cam_states.empty()) {continue;}
          auto kf = keys(s.fid_states), kc = keys(s.cam_states);
          o.id = R.pick(std::vector<unsigned>(kf.begin(), kf.end()));
          o.id2 = R.pick(std::vector<unsigned>(kc.begin(), kc.end()));
          o.t = nextTime(R, w);
          auto & f = s.fid_states[o.id];
          auto & c = s.cam_states[o.id2];
          Vec3 pb = ref::rot(s.body_state.ang_b_to_l).transpose() * (f.pos_f_in_l - s.body_state.pos_b_in_l);
          o.det.pos_f_in_c = ref::rot(c.ang_c_to_b).transpose() * (pb - c.pos_c_in_b) + R.v(0.05);
          Quat q = ref::qmul(ref::qinv(c.ang_c_to_b), ref::qmul(ref::qinv(s.body_state.ang_b_to_l), f.ang_f_to_l));
          o.det.ang_f_to_c = ref::qmul(ref::qexp(R.v(0.05)), q);
          for (int k2 = 0; k2 < 3; ++k2) {
            o.det.pos_error[k2] = R.logu(1e-3, 0.1);
            o.det.ang_error[k2] = R.logu(1e-3, 0.1);
          }
          o.det.frame_id = w.frame_no;
          o.det.frame_time = o.t;
          return o;
        }
      case U_VIS: {
          if (s.cam_states.empty() || w.ekf->GetAugStateSize() == 0) {continue;}
          auto kc = keys(s.cam_states);
          o.id = R.pick(std::vector<unsigned>(kc.begin(), kc.end()));
          o.t = now;
          o.v = VecX::Constant(1, 1.0);
          o.tracks = makeTracks(R, w, o.id, 1.0, R.i(1, 4), now);
          if (o.tracks.empty()) {continue;}
          return o;
        }
      default: break;
    }
  }
}

inline std::string describe(const Op & o)
{
  return strf("%s(t=%.6g id=%u/%u frame=%u)", kname(o.k), o.t, o.id, o.id2, o.frame);
}
inline std::string cfgs(const Cfg & c)
{
  return strf("root=%d fej=%d aug=%d L=%d", c.root, c.fej, int(c.aug), c.L);
}
}  // namespace hist
