// C26: the simulator builds the configured experiment and plays it back in order; see DESIGN.md.
// The real main function is compiled in, with recording subclasses in place of the classes it uses.
#include <yaml-cpp/yaml.h>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <utility>
#include <opencv2/opencv.hpp>
// every header of the project, before any of its class names is replaced
#include "all_headers.hpp"
#include "mon.hpp"

namespace rec
{
using Truth = std::shared_ptr<TruthEngine>;
struct Delivery {const void * msg; double time; unsigned int msg_id; unsigned int sensor_id; unsigned int max_track;};
struct Imu {unsigned int id; SimIMU::Parameters p; Truth t;};
struct Gps {unsigned int id; SimGPS::Parameters p; Truth t;};
struct Ftr {unsigned int id; SimFeatureTracker::Parameters p; Truth t;};
struct Fid {unsigned int id; SimFiducialTracker::Parameters p; Truth t;};
struct Cam {unsigned int id; SimCamera::Parameters p; Truth t; std::vector<unsigned int> trackers, boards;};
struct Motion
{
  std::string type;
  Vec3 pf, af, po, ao;
  double pa, aa;
  std::vector<double> times, pos, ang, pe, ae;
  double st, mx;
};
struct All
{
  std::vector<std::shared_ptr<EKF>> keep;
  std::vector<EKF::Parameters> ekf;
  std::vector<unsigned int> max_track;
  std::vector<std::pair<double, BodyState>> init;
  std::vector<Imu> imus;
  std::vector<Gps> gps;
  std::vector<Cam> cams;
  std::vector<Ftr> ftrs;
  std::vector<Fid> fids;
  std::vector<Motion> motions;
  std::vector<unsigned int> seeds;
  unsigned int draws_before_seed = 0;
  std::vector<std::shared_ptr<SensorMessage>> generated;
  std::vector<unsigned int> generated_by;
  std::vector<Delivery> delivered;
};
inline All & A() {static All a; return a;}
}

class RecEkf : public EKF
{
public:
  explicit RecEkf(EKF::Parameters p) : EKF(p) {rec::A().ekf.push_back(p);}
  void Initialize(double t, const BodyState & b) {rec::A().init.push_back({t, b}); EKF::Initialize(t, b);}
  void SetMaxTrackLength(unsigned int n) {rec::A().max_track.push_back(n); EKF::SetMaxTrackLength(n);}
};
class RecRng : public SimRNG
{
public:
  static void SetSeed(unsigned int s) {rec::A().seeds.push_back(s); SimRNG::SetSeed(s);}
  static double NormRand(double m, double s)
  {
    if (rec::A().seeds.empty()) {++rec::A().draws_before_seed;}
    return SimRNG::NormRand(m, s);
  }
  static Vec3 VecNormRand(const Vec3 & m, const Vec3 & s)
  {
    if (rec::A().seeds.empty()) {++rec::A().draws_before_seed;}
    return SimRNG::VecNormRand(m, s);
  }
};
template<class B, class M>
static std::vector<std::shared_ptr<M>> Keep(const std::vector<std::shared_ptr<M>> & v, unsigned int id)
{
  for (auto & m : v) {rec::A().generated.push_back(m); rec::A().generated_by.push_back(id);}
  return v;
}
template<class M> static void Saw(const M & m, unsigned int id)
{
  const SensorMessage & b = m;
  rec::A().delivered.push_back({&b, b.time, b.sensor_id, id, rec::A().max_track.empty() ? 0u : rec::A().max_track.back()});
}
class RecImu : public SimIMU
{
public:
  RecImu(SimIMU::Parameters p, rec::Truth t) : SimIMU(p, t) {rec::A().imus.push_back({GetId(), p, t});}
  std::vector<std::shared_ptr<SimImuMessage>> GenerateMessages() {return Keep<RecImu>(SimIMU::GenerateMessages(), GetId());}
  template<class M> void Callback(const M & m) {Saw(m, GetId()); SimIMU::Callback(m);}
};
class RecGps : public SimGPS
{
public:
  RecGps(SimGPS::Parameters p, rec::Truth t) : SimGPS(p, t) {rec::A().gps.push_back({GetId(), p, t});}
  std::vector<std::shared_ptr<SimGpsMessage>> GenerateMessages() {return Keep<RecGps>(SimGPS::GenerateMessages(), GetId());}
  template<class M> void Callback(const M & m) {Saw(m, GetId()); SimGPS::Callback(m);}
};
class RecFtr : public SimFeatureTracker
{
public:
  RecFtr(SimFeatureTracker::Parameters p, rec::Truth t) : SimFeatureTracker(p, t)
  {
    rec::A().ftrs.push_back({GetID(), p, t});
  }
};
class RecFid : public SimFiducialTracker
{
public:
  RecFid(SimFiducialTracker::Parameters p, rec::Truth t) : SimFiducialTracker(p, t) {rec::A().fids.push_back({GetID(), p, t});}
};
class RecCam : public SimCamera
{
public:
  RecCam(SimCamera::Parameters p, rec::Truth t) : SimCamera(p, t), n(rec::A().cams.size())
  {
    rec::A().cams.push_back({GetId(), p, t, {}, {}});
  }
  void AddTracker(std::shared_ptr<SimFeatureTracker> t) {rec::A().cams[n].trackers.push_back(t->GetID()); SimCamera::AddTracker(t);}
  void AddFiducial(std::shared_ptr<SimFiducialTracker> t) {rec::A().cams[n].boards.push_back(t->GetID()); SimCamera::AddFiducial(t);}
  std::vector<std::shared_ptr<SimCameraMessage>> GenerateMessages() {return Keep<RecCam>(SimCamera::GenerateMessages(), GetId());}
  template<class M> void Callback(const M & m) {Saw(m, GetId()); SimCamera::Callback(m);}

private:
  size_t n;
};
class RecCyclic : public TruthEngineCyclic
{
public:
  RecCyclic(Vec3 pf, Vec3 af, Vec3 po, Vec3 ao, double pa, double aa, double st, double mx, std::shared_ptr<DebugLogger> l)
  : TruthEngineCyclic(pf, af, po, ao, pa, aa, st, mx, l)
  {
    rec::A().motions.push_back({"cyclic", pf, af, po, ao, pa, aa, {}, {}, {}, {}, {}, st, mx});
  }
};
using VD = std::vector<double>;
class RecSpline : public TruthEngineSpline
{
public:
  RecSpline(VD p, VD a, VD pe, VD ae, double st, double mx, std::shared_ptr<DebugLogger> l)
  : TruthEngineSpline(p, a, pe, ae, st, mx, l)
  {
    Vec3 z = Vec3::Zero();
    rec::A().motions.push_back({"spline", z, z, z, z, 0, 0, {}, p, a, pe, ae, st, mx});
  }
};
class RecSmoother : public TruthEngineSmoother
{
public:
  RecSmoother(VD t, VD p, VD a, VD pe, VD ae, double st, double mx, double rate, std::shared_ptr<DebugLogger> l)
  : TruthEngineSmoother(t, p, a, pe, ae, st, mx, rate, l)
  {
    Vec3 z = Vec3::Zero();
    rec::A().motions.push_back({"smoother", z, z, z, z, 0, 0, t, p, a, pe, ae, st, mx});
  }
};

#define EKF RecEkf
#define SimRNG RecRng
#define SimIMU RecImu
#define SimGPS RecGps
#define SimCamera RecCam
#define SimFeatureTracker RecFtr
#define SimFiducialTracker RecFid
#define TruthEngineCyclic RecCyclic
#define TruthEngineSpline RecSpline
#define TruthEngineSmoother RecSmoother
#define main simulator_main
#include "application/sim/simulation.cpp"
#undef main
#undef EKF
#undef SimRNG
#undef SimIMU
#undef SimGPS
#undef SimCamera
#undef SimFeatureTracker
#undef SimFiducialTracker
#undef TruthEngineCyclic
#undef TruthEngineSpline
#undef TruthEngineSmoother

// ---- configurations
struct Y
{
  std::vector<std::pair<std::string, Y>> kids;
  std::string text;
  bool leaf = false;
  Y & at(const std::string & k)
  {
    for (auto & e : kids) {if (e.first == k) {return e.second;}}
    kids.push_back({k, Y()});
    return kids.back().second;
  }
  std::string emit(int ind) const
  {
    std::string o;
    for (auto & e : kids) {
      o += std::string(size_t(ind) * 2, ' ') + e.first + ":";
      if (e.second.leaf) {o += " " + e.second.text + "\n";} else if (e.second.kids.empty()) {o += " {}\n";} else {o += "\n" + e.second.emit(ind + 1);}
    }
    return o;
  }
};
struct Cfg
{
  Rng & R;
  Y root;
  std::map<std::string, VD> want;
  double keep;
  explicit Cfg(Rng & r) : R(r) {keep = r.b(0.7) ? 1.0 : 0.7;}
  // sets a key, or leaves it out
  void put(const std::string & path, const VD & v, char kind = 'd')
  {
    if (!R.b(keep) && kind != 'r') {return;}
    std::string t;
    for (double x : v) {
      t += t.empty() ? "" : ", ";
      t += kind == 'b' ? (x != 0 ? "true" : "false") : kind == 'i' ? strf("%d", int(x)) : strf("%.17g", x);
    }
    set(path, (v.size() == 1 && kind != 'v') ? t : "[" + t + "]");
    want[path] = v;
  }
  void vec(const std::string & p, const VD & v) {put(p, v, 'v');}
  void set(const std::string & path, const std::string & text)
  {
    Y * y = &root;
    size_t b = 0;
    while (true) {
      size_t e = path.find('/', b);
      y = &y->at(path.substr(b, e - b));
      if (e == std::string::npos) {break;}
      b = e + 1;
    }
    y->leaf = true;
    y->text = text;
  }
  VD rv(double s, int n = 3) {VD v; for (int i = 0; i < n; ++i) {v.push_back(R.u(-s, s));} return v;}
  VD pv(double a, double b, int n = 3) {VD v; for (int i = 0; i < n; ++i) {v.push_back(R.logu(a, b));} return v;}
  VD q() {Quat k = R.q(); return {k.w(), k.x(), k.y(), k.z()};}
};

static Cfg * C;
static Mon * MM;
static std::string desc;
static void Same(const std::string & path, const VD & got, const std::string & key)
{
  auto it = C->want.find(path);
  if (it == C->want.end()) {return;}
  MM->ev("parameter_checks");
  MM->check(got == it->second, key, strf("%s: configured ", path.c_str()) + vs(Eigen::Map<const VecX>(it->second.data(), long(it->second.size()))) +
    " used " + vs(Eigen::Map<const VecX>(got.data(), long(got.size()))) + " " + desc);
}
static VD D(const MatX & m) {return VD(m.data(), m.data() + m.size());}
static VD D(double x) {return {x};}
static void SameQ(const std::string & path, const Quat & got, const std::string & key)
{
  auto it = C->want.find(path);
  if (it == C->want.end()) {return;}
  Quat w(it->second[0], it->second[1], it->second[2], it->second[3]);
  w.normalize();
  MM->quatNear(got, w, 1e-12, key, path + " " + desc);
}

static void Sensor_(const std::string & p, const Sensor::Parameters & s, const std::string & name, const std::string & dir)
{
  Same(p + "rate", D(s.rate), "sensor-rate");
  Same(p + "data_log_rate", D(s.data_log_rate), "sensor-log-rate");
  MM->check(s.name == name, "sensor-name", s.name + " want " + name + " " + desc);
  MM->check(s.topic == "/" + name, "sensor-topic", s.topic + " " + desc);
  MM->check(s.log_directory == dir, "log-directory", s.log_directory + " " + desc);
  MM->check(rec::A().ekf.size() == 1 && s.logger == rec::A().ekf[0].debug_logger, "logger-shared", desc);
}

void run_case(Mon & M, Rng & R)
{
  rec::A() = rec::All();
  Cfg c(R);
  C = &c;
  MM = &M;
  std::string dir = M.scratch + strf("c26_%llu/", (unsigned long long)(M.idx));
  mkdir(dir.c_str(), 0755);
  double T = R.u(0.3, 1.5);
  const std::string lists[] = {"imu", "camera", "tracker", "fiducial", "gps"};
  int n_defined[5], n_max[5] = {3, 3, 2, 2, 3};
  std::vector<std::string> use[5];
  for (int k = 0; k < 5; ++k) {
    n_defined[k] = R.i(0, n_max[k]);
    std::vector<int> order;
    for (int i = 0; i < n_defined[k]; ++i) {order.push_back(i);}
    for (int i = n_defined[k] - 1; i > 0; --i) {std::swap(order[size_t(i)], order[size_t(R.i(0, i))]);}
    std::string l;
    for (int i : order) {
      if (R.b(0.15)) {continue;}          // defined but not listed: not part of the experiment
      std::string nm = lists[k] + "_" + std::string(1, char('a' + i));
      use[k].push_back(nm);
      l += (l.empty() ? "\"" : ", \"") + nm + "\"";
    }
    c.set(lists[k] + "_list", "[" + l + "]");
  }
  desc = strf("imu %zu cam %zu trk %zu fid %zu gps %zu", use[0].size(), use[1].size(), use[2].size(), use[3].size(), use[4].size());
  c.put("debug_log_level", {double(R.i(0, 2))}, 'i');
  bool log = R.b(0.3);
  c.put("data_log_rate", {log ? R.u(1, 100) : 0.0}, 'r');
  int aug = R.i(0, 4);
  c.put("augmenting_type", {double(aug)}, 'i');
  c.put("augmenting_delta_time", {R.u(0.1, 2)});
  c.put("augmenting_pos_error", {R.u(0.01, 2)});
  c.put("augmenting_ang_error", {R.u(0.01, 2)});
  for (auto k : {"pos", "vel", "acc", "ang_pos", "ang_vel", "ang_acc"}) {c.put(std::string("process_noise/") + k, {R.logu(1e-6, 1)});}
  c.vec("pos_b_in_l", c.rv(2));
  c.vec("ang_b_to_l", c.q());
  c.vec("pos_e_in_g", {R.u(-80, 80), R.u(-180, 180), R.u(-100, 3000)});
  c.put("ang_l_to_e", {R.u(-3, 3)});
  c.put("gps_init_type", {double(R.i(0, 2))}, 'i');
  c.put("gps_init_baseline_dist", {R.u(0.1, 200)});
  c.put("gps_init_pos_thresh", {R.u(0.1, 2)});
  c.put("gps_init_ang_thresh", {R.u(0.1, 2)});
  c.put("motion_detection_chi_squared", {R.logu(0.1, 10)});
  c.put("imu_noise_scale_factor", {R.logu(1, 1000)});
  c.put("use_root_covariance", {double(R.b())}, 'b');
  c.put("use_first_estimate_jacobian", {double(R.b())}, 'b');
  bool exact = R.b(0.4);      // no initial errors: the truth is known exactly
  c.put("sim_params/seed", {double(R.i(1, 1000000))}, 'i');
  c.put("sim_params/max_time", {T}, 'r');
  c.put("sim_params/stationary_time", {R.u(0.0, 1.0)});
  c.vec("sim_params/pos_b_in_l_error", exact ? VD{0, 0, 0} : c.pv(1e-3, 0.5));
  c.vec("sim_params/ang_b_to_l_error", exact ? VD{0, 0, 0} : c.pv(1e-3, 0.5));
  c.vec("sim_params/pos_e_in_g_error", exact ? VD{0, 0, 0} : c.pv(1e-3, 10));
  c.put("sim_params/ang_l_to_e_error", {exact ? 0.0 : R.logu(1e-4, 0.5)});
  std::string tt = std::vector<std::string>{"cyclic", "spline", "smoother"}[size_t(R.i(0, 2))];
  c.set("sim_params/truth_type", "\"" + tt + "\"");
  const std::string sp = "sim_params/";
  if (tt == "cyclic") {
    for (auto k : {"pos_frequency", "ang_frequency", "pos_offset", "ang_offset"}) {c.vec(sp + k, c.rv(1));}
    c.put(sp + "pos_amplitude", {R.u(0, 2)});
    c.put(sp + "ang_amplitude", {R.u(0, 0.5)});
  } else {
    int n = R.i(4, 7);
    double k = c.keep;
    c.keep = 1.0;
    VD ts;
    for (int i = 0; i < n; ++i) {ts.push_back(0.5 * i);}
    if (tt == "smoother") {c.vec(sp + "times", ts);}
    c.vec(sp + "positions", c.rv(2, 3 * n));
    c.vec(sp + "angles", c.rv(0.3, 3 * n));
    c.keep = k;
    c.vec(sp + "pos_errors", c.pv(1e-4, 0.1));
    c.vec(sp + "ang_errors", c.pv(1e-4, 0.1));
  }
  for (int i = 0; i < n_defined[0]; ++i) {
    std::string nm = std::string("imu_") + char('a' + i), p = "imu/" + nm + "/";
    c.set(p + "topic", "/" + nm);
    c.put(p + "rate", {R.u(5, 60)}, 'r');
    c.put(p + "is_extrinsic", {double(R.b())}, 'b');
    c.put(p + "is_intrinsic", {double(R.b())}, 'b');
    c.vec(p + "variance", c.pv(1e-4, 0.1, 12));
    c.vec(p + "pos_i_in_b", c.rv(1));
    c.vec(p + "ang_i_to_b", c.q());
    c.vec(p + "acc_bias", c.rv(0.1));
    c.vec(p + "omg_bias", c.rv(0.1));
    for (auto k : {"pos_stability", "ang_stability", "acc_bias_stability", "omg_bias_stability"}) {c.put(p + k, {R.logu(1e-9, 1e-2)});}
    c.put(p + "data_log_rate", {R.b(0.3) ? R.u(1, 50) : 0.0});
    c.put(p + "sim_params/no_errors", {double(R.b(0.3))}, 'b');
    c.put(p + "sim_params/time_error", {R.logu(1e-9, 1e-4)});
    for (auto k : {"acc_error", "omg_error", "pos_error", "ang_error", "acc_bias_error", "omg_bias_error"}) {
      c.vec(p + "sim_params/" + k, c.pv(1e-4, 0.1));
    }
  }
  for (int i = 0; i < n_defined[2]; ++i) {
    std::string nm = std::string("tracker_") + char('a' + i), p = "tracker/" + nm + "/";
    c.put(p + "pixel_error", {R.u(0.1, 2)});
    c.put(p + "min_track_length", {double(R.i(0, 4))}, 'i');
    c.put(p + "max_track_length", {double(R.i(2, 30))}, 'i');
    c.put(p + "min_feat_dist", {R.u(0.1, 2)});
    c.put(p + "down_sample", {double(R.b())}, 'b');
    c.put(p + "down_sample_height", {double(R.i(100, 900))}, 'i');
    c.put(p + "down_sample_width", {double(R.i(100, 900))}, 'i');
    c.put(p + "sim_params/feature_count", {double(R.i(0, 12))}, 'i');
    c.put(p + "sim_params/room_size", {R.u(2, 20)});
    c.put(p + "sim_params/no_errors", {double(R.b(0.3))}, 'b');
  }
  for (int i = 0; i < n_defined[3]; ++i) {
    std::string nm = std::string("fiducial_") + char('a' + i), p = "fiducial/" + nm + "/";
    c.vec(p + "pos_f_in_l", c.rv(4));
    c.vec(p + "ang_f_to_l", c.q());
    c.vec(p + "variance", c.pv(1e-4, 0.1, 6));
    c.put(p + "fiducial_type", {double(R.i(0, 1))}, 'i');
    c.put(p + "squares_x", {double(R.i(2, 6))}, 'r');
    c.put(p + "squares_y", {double(R.i(2, 6))}, 'r');
    double sl = R.u(0.05, 0.4);
    c.put(p + "square_length", {sl}, 'r');
    c.put(p + "marker_length", {sl * R.u(0.3, 0.8)}, 'r');
    c.put(p + "id", {double(10 * i + R.i(0, 4))}, 'i');
    c.put(p + "is_extrinsic", {double(R.b())}, 'b');
    for (auto k : {"pos_error", "ang_error", "t_vec_error", "r_vec_error"}) {c.vec(p + "sim_params/" + k, c.pv(1e-4, 0.1));}
    c.put(p + "sim_params/no_errors", {double(R.b(0.3))}, 'b');
  }
  std::map<std::string, std::string> cam_trk, cam_fid;
  for (int i = 0; i < n_defined[1]; ++i) {
    std::string nm = std::string("camera_") + char('a' + i), p = "camera/" + nm + "/";
    c.set(p + "topic", "/" + nm);
    c.put(p + "rate", {R.u(1, 12)}, 'r');
    c.put(p + "data_log_rate", {R.b(0.3) ? R.u(1, 50) : 0.0});
    c.vec(p + "variance", c.pv(1e-4, 0.1, 6));
    c.vec(p + "pos_c_in_b", c.rv(1));
    c.vec(p + "ang_c_to_b", c.q());
    c.put(p + "is_extrinsic", {double(R.b())}, 'b');
    c.put(p + "pos_stability", {R.logu(1e-9, 1e-2)});
    c.put(p + "ang_stability", {R.logu(1e-9, 1e-2)});
    if (!use[2].empty() && R.b(0.7)) {c.set(p + "tracker", "\"" + (cam_trk[nm] = R.pick(use[2])) + "\"");}
    if (!use[3].empty() && R.b(0.7)) {c.set(p + "fiducial", "\"" + (cam_fid[nm] = R.pick(use[3])) + "\"");}
    c.put(p + "intrinsics/f_x", {R.u(0.005, 0.02)});
    c.put(p + "intrinsics/f_y", {R.u(0.005, 0.02)});
    for (auto k : {"k_1", "k_2", "p_1", "p_2"}) {c.put(p + "intrinsics/" + k, {R.u(-0.01, 0.01)});}
    c.put(p + "intrinsics/width", {double(R.i(300, 1900))});
    c.put(p + "intrinsics/height", {double(R.i(300, 1900))});
    c.put(p + "intrinsics/pixel_size", {R.u(3e-6, 2e-5)});
    c.put(p + "sim_params/no_errors", {double(R.b(0.3))}, 'b');
    c.put(p + "sim_params/time_error", {R.logu(1e-9, 1e-4)});
    c.vec(p + "sim_params/pos_error", c.pv(1e-4, 0.1));
    c.vec(p + "sim_params/ang_error", c.pv(1e-4, 0.1));
  }
  for (int i = 0; i < n_defined[4]; ++i) {
    std::string nm = std::string("gps_") + char('a' + i), p = "gps/" + nm + "/";
    c.set(p + "topic", "/" + nm);
    c.put(p + "rate", {R.u(1, 20)}, 'r');
    c.put(p + "data_log_rate", {R.b(0.3) ? R.u(1, 50) : 0.0});
    c.vec(p + "variance", c.pv(1e-4, 2));
    c.vec(p + "pos_a_in_b", c.rv(1));
    c.put(p + "pos_stability", {R.logu(1e-9, 1e-2)});
    c.put(p + "is_extrinsic", {double(R.b())}, 'b');
    c.put(p + "sim_params/no_errors", {double(R.b(0.3))}, 'b');
    c.put(p + "sim_params/time_error", {R.logu(1e-9, 1e-4)});
    c.vec(p + "sim_params/lla_error", c.pv(1e-3, 5));
    c.vec(p + "sim_params/pos_a_in_b_error", c.pv(1e-4, 0.1));
    c.vec(p + "sim_params/pos_e_in_g_error", c.pv(1e-4, 1));
    c.put(p + "sim_params/ang_l_to_e_error", {R.logu(1e-6, 0.1)});
  }
  for (int k = 0; k < 5; ++k) {if (n_defined[k] == 0) {c.root.at(lists[k]);}}
  // sometimes a camera names a tracker or board that is not part of the experiment
  bool refused = false;
  if (!use[1].empty() && R.b(0.08)) {
    c.set("camera/" + R.pick(use[1]) + (R.b() ? "/tracker" : "/fiducial"), "\"ghost\"");
    refused = true;
  }
  bool unknown_truth = !refused && R.b(0.03);
  if (unknown_truth) {c.set("sim_params/truth_type", "\"circular\"");}
  {
    std::ofstream f(dir + "c.yaml");
    f << "/EkfCalNode:\n  ros__parameters:\n" << c.root.emit(2);
  }

  std::string a0 = "sim", a1 = dir + "c.yaml", a2 = dir;
  char * argv[] = {&a0[0], &a1[0], &a2[0], nullptr};
  std::stringstream sink_out, sink_err;
  auto * so = std::cout.rdbuf(sink_out.rdbuf());
  auto * se = std::cerr.rdbuf(sink_err.rdbuf());
  int rc;
  try {
    rc = simulator_main(3, argv);
  } catch (...) {
    std::cout.rdbuf(so);
    std::cerr.rdbuf(se);
    throw;
  }
  std::cout.rdbuf(so);
  std::cerr.rdbuf(se);
  auto & A = rec::A();
  auto cleanup = [&]() {
      std::string cmd = "rm -rf '" + dir + "'";
      (void)!system(cmd.c_str());
      rec::A() = rec::All();
    };
  if (refused || unknown_truth) {
    M.check(rc != 0, "unknown-name-accepted", desc);
    M.check(A.delivered.empty(), "refused-but-run", desc);
    M.ev("refused_configurations");
    M.done(Hash().add(double(M.idx)).h, true);
    cleanup();
    return;
  }
  M.check(rc == 0, "exit-status", strf("%d ", rc) + desc);
  if (!M.check(A.ekf.size() == 1 && A.motions.size() == 1 && A.init.size() == 1, "one-experiment",
    strf("%zu filters, %zu motions, %zu initialisations ", A.ekf.size(), A.motions.size(), A.init.size()) + desc))
  {
    cleanup();
    return;
  }

  // filter
  auto & e = A.ekf[0];
  Same("data_log_rate", D(e.data_log_rate), "filter");
  Same("augmenting_delta_time", D(e.augmenting_delta_time), "filter");
  Same("augmenting_pos_error", D(e.augmenting_pos_error), "filter");
  Same("augmenting_ang_error", D(e.augmenting_ang_error), "filter");
  if (use[2].empty()) {
    M.check(e.augmenting_type == AugmentationType::NONE, "clones-without-trackers", desc);
  } else {
    Same("augmenting_type", D(double(int(e.augmenting_type))), "filter");
  }
  const char * pn[] = {"pos", "vel", "acc", "ang_pos", "ang_vel", "ang_acc"};
  M.check(e.process_noise.size() == 18, "process-noise-size", desc);
  for (int k = 0; k < 18 && e.process_noise.size() == 18; ++k) {
    Same(std::string("process_noise/") + pn[k / 3], D(e.process_noise(k)), "process-noise");
  }
  Same("pos_b_in_l", D(e.pos_b_in_l), "filter");
  SameQ("ang_b_to_l", e.ang_b_to_l, "filter");
  Same("pos_e_in_g", D(e.pos_e_in_g), "filter");
  Same("ang_l_to_e", D(e.ang_l_to_e), "filter");
  Same("gps_init_type", D(double(int(e.gps_init_type))), "filter");
  Same("gps_init_baseline_dist", D(e.gps_init_baseline_dist), "filter");
  Same("gps_init_pos_thresh", D(e.gps_init_pos_thresh), "filter");
  Same("gps_init_ang_thresh", D(e.gps_init_ang_thresh), "filter");
  Same("motion_detection_chi_squared", D(e.motion_detection_chi_squared), "filter");
  Same("imu_noise_scale_factor", D(e.imu_noise_scale_factor), "filter");
  Same("use_root_covariance", D(e.use_root_covariance), "filter");
  Same("use_first_estimate_jacobian", D(e.use_first_estimate_jacobian), "filter");
  M.check(e.log_directory == dir, "log-directory", e.log_directory);

  // random numbers
  if (c.want.count("sim_params/seed")) {
    M.check(A.seeds.size() == 1 && A.seeds[0] == unsigned(c.want["sim_params/seed"][0]), "seed", desc);
    M.check(A.draws_before_seed == 0, "draws-before-seed", desc);
  }

  // motion
  auto & mo = A.motions[0];
  M.check(mo.type == tt, "truth-type", mo.type + " want " + tt);
  Same(sp + "max_time", D(mo.mx), "motion");
  if (c.want.count(sp + "stationary_time")) {
    M.check(mo.st == std::max(0.1, c.want[sp + "stationary_time"][0]), "stationary-time", strf("%g ", mo.st) + desc);
  }
  if (tt == "cyclic") {
    Same(sp + "pos_frequency", D(mo.pf), "motion");
    Same(sp + "ang_frequency", D(mo.af), "motion");
    Same(sp + "pos_offset", D(mo.po), "motion");
    Same(sp + "ang_offset", D(mo.ao), "motion");
    Same(sp + "pos_amplitude", D(mo.pa), "motion");
    Same(sp + "ang_amplitude", D(mo.aa), "motion");
  } else {
    Same(sp + "times", mo.times, "motion");
    Same(sp + "positions", mo.pos, "motion");
    Same(sp + "angles", mo.ang, "motion");
    Same(sp + "pos_errors", mo.pe, "motion");
    Same(sp + "ang_errors", mo.ae, "motion");
  }

  // initial estimate: the configured one with the configured error
  auto get = [&](const std::string & k, const VD & d) {return c.want.count(k) ? c.want[k] : d;};
  VD z3{0, 0, 0};
  {
    VD p = get("pos_b_in_l", z3), s = get(sp + "pos_b_in_l_error", z3);
    auto & b = A.init[0].second;
    M.check(A.init[0].first == 0.0, "start-time", strf("%g", A.init[0].first));
    for (int k = 0; k < 3; ++k) {
      M.near(b.pos_b_in_l(k), p[size_t(k)], 8 * s[size_t(k)] + 1e-15, "initial-position", desc);
    }
    if (s[0] > 0 || s[1] > 0 || s[2] > 0) {
      M.check(b.pos_b_in_l != Vec3(p[0], p[1], p[2]), "initial-position-error", desc);
    }
    VD as = get(sp + "ang_b_to_l_error", z3), q = get("ang_b_to_l", {1, 0, 0, 0});
    Quat w(q[0], q[1], q[2], q[3]);
    w.normalize();
    double lim = 8 * (as[0] + as[1] + as[2]) + 1e-7;
    double ang = Eigen::AngleAxisd(b.ang_b_to_l * w.inverse()).angle();
    if (lim < 3) {M.check(std::min(ang, 2 * M_PI - ang) <= lim, "initial-orientation", strf("%g ", ang) + desc);}
  }

  // sensors: exactly the listed ones, in the order of the lists
  auto count = [&](size_t got, size_t want, const char * what) {
      return M.check(got == want, "sensor-count", strf("%s: %zu built, %zu configured ", what, got, want) + desc);
    };
  std::set<unsigned int> ids;
  rec::Truth truth;
  auto common = [&](unsigned int id, const rec::Truth & t) {
      M.check(ids.insert(id).second, "identity", strf("%u twice", id));
      M.check(t && (!truth || t == truth), "one-truth", desc);
      truth = t;
    };
  if (count(A.imus.size(), use[0].size(), "IMUs")) {
    for (size_t k = 0; k < use[0].size(); ++k) {
      std::string p = "imu/" + use[0][k] + "/", s = p + "sim_params/";
      auto & r = A.imus[k];
      auto & i = r.p.imu_params;
      common(r.id, r.t);
      Sensor_(p, i, use[0][k], dir);
      Same(p + "is_extrinsic", D(i.is_extrinsic), "imu");
      Same(p + "is_intrinsic", D(i.is_intrinsic), "imu");
      Same(p + "variance", D(i.variance), "imu");
      Same(p + "pos_i_in_b", D(i.pos_i_in_b), "imu");
      SameQ(p + "ang_i_to_b", i.ang_i_to_b, "imu");
      Same(p + "acc_bias", D(i.acc_bias), "imu");
      Same(p + "omg_bias", D(i.omg_bias), "imu");
      Same(p + "pos_stability", D(i.pos_stability), "imu");
      Same(p + "ang_stability", D(i.ang_stability), "imu");
      Same(p + "acc_bias_stability", D(i.acc_bias_stability), "imu");
      Same(p + "omg_bias_stability", D(i.omg_bias_stability), "imu");
      Same(s + "no_errors", D(r.p.no_errors), "imu-errors");
      Same(s + "time_error", D(r.p.time_error), "imu-errors");
      Same(s + "acc_error", D(r.p.acc_error), "imu-errors");
      Same(s + "omg_error", D(r.p.omg_error), "imu-errors");
      Same(s + "pos_error", D(r.p.pos_error), "imu-errors");
      Same(s + "ang_error", D(r.p.ang_error), "imu-errors");
      Same(s + "acc_bias_error", D(r.p.acc_bias_error), "imu-errors");
      Same(s + "omg_bias_error", D(r.p.omg_bias_error), "imu-errors");
    }
  }
  unsigned int longest = 0;
  bool longest_known = true;
  for (auto & t : use[2]) {
    auto it = c.want.find("tracker/" + t + "/max_track_length");
    if (it == c.want.end()) {longest_known = false;} else {longest = std::max(longest, unsigned(it->second[0]));}
  }
  if (!use[3].empty()) {longest = std::max(longest, Tracker::Parameters().max_track_length);}
  if (longest_known) {
    M.check(!A.max_track.empty() && A.max_track.back() == longest, "track-length",
      strf("filter told %u, longest %u ", A.max_track.empty() ? 0u : A.max_track.back(), longest) + desc);
  }
  size_t nt = 0, nf = 0;
  if (count(A.cams.size(), use[1].size(), "cameras")) {
    for (size_t k = 0; k < use[1].size(); ++k) {
      const std::string & nm = use[1][k];
      std::string p = "camera/" + nm + "/", s = p + "sim_params/";
      auto & r = A.cams[k];
      auto & i = r.p.cam_params;
      common(r.id, r.t);
      Sensor_(p, i, nm, dir);
      auto intr = [&](const Intrinsics & x, const char * key) {
          std::string n = p + "intrinsics/";
          Same(n + "f_x", D(x.f_x), key);
          Same(n + "f_y", D(x.f_y), key);
          Same(n + "k_1", D(x.k_1), key);
          Same(n + "k_2", D(x.k_2), key);
          Same(n + "p_1", D(x.p_1), key);
          Same(n + "p_2", D(x.p_2), key);
          Same(n + "width", D(x.width), key);
          Same(n + "height", D(x.height), key);
          Same(n + "pixel_size", D(x.pixel_size), key);
        };
      Same(p + "variance", D(i.variance), "camera");
      Same(p + "pos_c_in_b", D(i.pos_c_in_b), "camera");
      SameQ(p + "ang_c_to_b", i.ang_c_to_b, "camera");
      Same(p + "is_extrinsic", D(i.is_extrinsic), "camera");
      Same(p + "pos_stability", D(i.pos_stability), "camera");
      Same(p + "ang_stability", D(i.ang_stability), "camera");
      intr(i.intrinsics, "camera-intrinsics");
      Same(s + "no_errors", D(r.p.no_errors), "camera-errors");
      Same(s + "time_error", D(r.p.time_error), "camera-errors");
      Same(s + "pos_error", D(r.p.pos_error), "camera-errors");
      Same(s + "ang_error", D(r.p.ang_error), "camera-errors");
      bool has_t = cam_trk.count(nm), has_f = cam_fid.count(nm);
      M.check(r.trackers.size() == size_t(has_t) && r.boards.size() == size_t(has_f), "camera-trackers",
        strf("%zu trackers, %zu boards ", r.trackers.size(), r.boards.size()) + desc);
      bool cam_exact = c.want.count(s + "no_errors") && c.want[s + "no_errors"][0] != 0;
      bool cam_known = c.want.count(s + "no_errors");
      if (has_t && nt < A.ftrs.size()) {
        auto & f = A.ftrs[nt++];
        auto & t = f.p.tracker_params;
        std::string q = "tracker/" + cam_trk[nm] + "/";
        M.check(r.trackers.size() == 1 && r.trackers[0] == f.id, "tracker-of-camera", desc);
        M.check(t.camera_id == r.id, "tracker-camera-id", strf("%u of camera %u ", t.camera_id, r.id) + desc);
        M.check(t.name == cam_trk[nm], "tracker-name", t.name);
        M.check(f.t == truth, "one-truth", desc);
        M.check(t.log_directory == dir, "log-directory", t.log_directory);
        intr(t.intrinsics, "tracker-intrinsics");
        Same(p + "is_extrinsic", D(t.is_cam_extrinsic), "tracker-camera-calibration");
        Same(p + "data_log_rate", D(t.data_log_rate), "tracker-log-rate");
        Same(q + "pixel_error", D(t.px_error), "tracker");
        Same(q + "min_track_length", D(t.min_track_length), "tracker");
        Same(q + "max_track_length", D(t.max_track_length), "tracker");
        Same(q + "min_feat_dist", D(t.min_feat_dist), "tracker");
        Same(q + "down_sample", D(t.down_sample), "tracker");
        Same(q + "down_sample_height", D(t.down_sample_height), "tracker");
        Same(q + "down_sample_width", D(t.down_sample_width), "tracker");
        Same(q + "sim_params/feature_count", D(f.p.feature_count), "tracker");
        Same(q + "sim_params/room_size", D(f.p.room_size), "tracker");
        if (cam_known && c.want.count(q + "sim_params/no_errors")) {
          M.check(f.p.no_errors == (cam_exact || c.want[q + "sim_params/no_errors"][0] != 0), "tracker-no-errors", desc);
        }
      }
      if (has_f && nf < A.fids.size()) {
        auto & f = A.fids[nf++];
        auto & t = f.p.fiducial_params;
        std::string q = "fiducial/" + cam_fid[nm] + "/";
        M.check(r.boards.size() == 1 && r.boards[0] == f.id, "board-of-camera", desc);
        M.check(t.camera_id == r.id, "board-camera-id", strf("%u of camera %u ", t.camera_id, r.id) + desc);
        M.check(t.name == cam_fid[nm], "board-name", t.name);
        M.check(f.t == truth, "one-truth", desc);
        M.check(t.log_directory == dir, "log-directory", t.log_directory);
        intr(t.intrinsics, "board-intrinsics");
        Same(p + "is_extrinsic", D(t.is_cam_extrinsic), "board-camera-calibration");
        Same(p + "data_log_rate", D(t.data_log_rate), "board-log-rate");
        Same(q + "pos_f_in_l", D(t.pos_f_in_l), "board");
        SameQ(q + "ang_f_to_l", t.ang_f_to_l, "board");
        Same(q + "variance", D(t.variance), "board");
        Same(q + "fiducial_type", D(double(int(t.detector_type))), "board");
        Same(q + "squares_x", D(t.squares_x), "board");
        Same(q + "squares_y", D(t.squares_y), "board");
        Same(q + "square_length", D(t.square_length), "board");
        Same(q + "marker_length", D(t.marker_length), "board");
        Same(q + "id", D(t.id), "board");
        Same(q + "is_extrinsic", D(t.is_extrinsic), "board");
        Same(q + "sim_params/pos_error", D(f.p.pos_error), "board-errors");
        Same(q + "sim_params/ang_error", D(f.p.ang_error), "board-errors");
        Same(q + "sim_params/t_vec_error", D(f.p.t_vec_error), "board-errors");
        Same(q + "sim_params/r_vec_error", D(f.p.r_vec_error), "board-errors");
        if (cam_known && c.want.count(q + "sim_params/no_errors")) {
          M.check(f.p.no_errors == (cam_exact || c.want[q + "sim_params/no_errors"][0] != 0), "board-no-errors", desc);
        }
      }
    }
    count(A.ftrs.size(), nt, "feature trackers");
    count(A.fids.size(), nf, "boards");
  }
  if (count(A.gps.size(), use[4].size(), "GPS")) {
    for (size_t k = 0; k < use[4].size(); ++k) {
      std::string p = "gps/" + use[4][k] + "/", s = p + "sim_params/";
      auto & r = A.gps[k];
      auto & i = r.p.gps_params;
      common(r.id, r.t);
      Sensor_(p, i, use[4][k], dir);
      Same(p + "variance", D(i.variance), "gps");
      Same(p + "pos_a_in_b", D(i.pos_a_in_b), "gps");
      Same(p + "pos_stability", D(i.pos_stability), "gps");
      Same(p + "is_extrinsic", D(i.is_extrinsic), "gps");
      Same(s + "no_errors", D(r.p.no_errors), "gps-errors");
      Same(s + "time_error", D(r.p.time_error), "gps-errors");
      Same(s + "lla_error", D(r.p.lla_error), "gps-errors");
      Same(s + "pos_a_in_b_error", D(r.p.pos_a_in_b_err), "gps-errors");
    }
  }
  // the true reference: the configured one with the configured error
  if (truth) {
    VD ref = get("pos_e_in_g", z3), er = get(sp + "pos_e_in_g_error", z3);
    Vec3 got = truth->GetLocalPosition();
    const double deg = 180.0 / M_PI / 6378137.0;
    for (int k = 0; k < 3; ++k) {
      M.near(got(k), ref[size_t(k)], 8 * er[size_t(k)] * (k < 2 ? deg : 1.0) * 1.01 + 1e-12, "true-reference", desc);
    }
    double hd = get("ang_l_to_e", {0})[0], he = get(sp + "ang_l_to_e_error", {0})[0];
    M.near(truth->GetLocalHeading(), hd, 8 * he + 1e-12, "true-heading", desc);
  }

  // playback: every generated message once, to its own sensor, in order of time
  std::map<const void *, std::pair<unsigned int, int>> gen;
  for (size_t k = 0; k < A.generated.size(); ++k) {
    gen[A.generated[k].get()] = {A.generated_by[k], 0};
    M.check(A.generated[k]->sensor_id == A.generated_by[k], "message-identity", desc);
  }
  double last = -INFINITY;
  for (auto & d : A.delivered) {
    auto it = gen.find(d.msg);
    if (!M.check(it != gen.end(), "foreign-message", desc)) {continue;}
    M.check(++it->second.second == 1, "message-repeated", strf("time %g ", d.time) + desc);
    M.check(it->second.first == d.sensor_id, "message-to-wrong-sensor", strf("from %u to %u ", it->second.first, d.sensor_id) + desc);
    if (longest_known) {M.check(d.max_track == longest, "track-length-late", desc);}
    M.check(d.time >= last, "message-order", strf("%.9g after %.9g ", d.time, last) + desc);
    last = d.time;
  }
  M.check(A.delivered.size() == A.generated.size(), "messages-lost",
    strf("%zu generated, %zu delivered ", A.generated.size(), A.delivered.size()) + desc);
  M.ev("messages_delivered", A.delivered.size());
  M.ev("sensors", ids.size());
  M.ev("truth_" + tt);
  M.ev("feature_trackers", A.ftrs.size());
  M.ev("boards", A.fids.size());
  if (c.keep < 1) {M.ev("configurations_with_missing_keys");}
  M.done(Hash().add(double(M.idx)).add(T).h, !ids.empty(),
    strf("case %llu: %s, %s truth of %.2f s, %zu messages played back in order", (unsigned long long)(M.idx), desc.c_str(), tt.c_str(), T,
    A.delivered.size()));
  cleanup();
}
