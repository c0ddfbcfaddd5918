// C24: the ROS node hands every message to the filter unchanged; see DESIGN.md.
// The real node and its main function are compiled in against the stand-ins of ../ros_stub, with
// recording subclasses in place of the filter, sensors and trackers that they create.
#include <algorithm>
#include <chrono>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <utility>
#include <opencv2/opencv.hpp>
#include <opencv2/aruco.hpp>
#include <opencv2/aruco/charuco.hpp>
// every header of the project and the stand-ins, before any class name is replaced
#include "all_headers.hpp"
#include <cv_bridge/cv_bridge.hpp>
#include <geometry_msgs/msg/vector3.hpp>
#include <rclcpp/rclcpp.hpp>
#include <sensor_msgs/msg/image.hpp>
#include <sensor_msgs/msg/imu.hpp>
#include <sensor_msgs/msg/nav_sat_fix.hpp>
#include <std_msgs/msg/float64_multi_array.hpp>
#include <std_msgs/msg/header.hpp>
#include "sensors/ros/ros_camera.hpp"
#include "sensors/ros/ros_camera_message.hpp"
#include "sensors/ros/ros_gps.hpp"
#include "sensors/ros/ros_gps_message.hpp"
#include "sensors/ros/ros_imu.hpp"
#include "sensors/ros/ros_imu_message.hpp"
#include "utility/ros_helper.hpp"
#include "hist.hpp"
#include "mon.hpp"

namespace rec
{
struct Imu {unsigned int id; IMU::Parameters p;};
struct Gps {unsigned int id; GPS::Parameters p;};
struct Cam {unsigned int id; Camera::Parameters p; std::vector<unsigned int> trackers, boards;};
struct Ftr {unsigned int id; FeatureTracker::Parameters p;};
struct Fid {unsigned int id; FiducialTracker::Parameters p;};
struct Seen
{
  char kind;
  unsigned int sensor;                  // that was called
  unsigned int sensor_id;               // named in the message
  SensorType type;
  double time;
  Vec3 a, b;
  MatX ca, cb;
  cv::Mat image;
};
struct All
{
  std::vector<EKF::Parameters> ekf;
  std::vector<EKF *> filters;
  std::vector<std::pair<unsigned int, size_t>> max_track;       // and how many cameras there were
  std::vector<Imu> imus;
  std::vector<Gps> gps;
  std::vector<Cam> cams;
  std::vector<Ftr> ftrs;
  std::vector<Fid> fids;
  std::vector<Seen> seen;
};
inline All & A() {static All a; return a;}
}

class RecEkf : public EKF
{
public:
  explicit RecEkf(EKF::Parameters p) : EKF(p)
  {
    rec::A().ekf.push_back(p);
    rec::A().filters.push_back(this);
  }
  void SetMaxTrackLength(unsigned int n) {
    rec::A().max_track.push_back({n, rec::A().cams.size()});
    EKF::SetMaxTrackLength(n);
  }
};
class RecImu : public RosIMU
{
public:
  explicit RecImu(IMU::Parameters p) : RosIMU(p) {rec::A().imus.push_back({GetId(), p});}
  void Callback(const RosImuMessage & m)
  {
    rec::A().seen.push_back({'i', GetId(), m.sensor_id, m.sensor_type, m.time, m.acceleration, m.angular_rate,
        m.acceleration_covariance, m.angular_rate_covariance, cv::Mat()});
    RosIMU::Callback(m);
  }
};
class RecGps : public RosGPS
{
public:
  explicit RecGps(GPS::Parameters p) : RosGPS(p) {rec::A().gps.push_back({GetId(), p});}
  void Callback(const RosGpsMessage & m)
  {
    rec::A().seen.push_back({'g', GetId(), m.sensor_id, m.sensor_type, m.time, m.gps_lla, Vec3::Zero(),
        m.pos_covariance, MatX(), cv::Mat()});
    RosGPS::Callback(m);
  }
};
class RecFtr : public FeatureTracker
{
public:
  explicit RecFtr(FeatureTracker::Parameters p) : FeatureTracker(p) {rec::A().ftrs.push_back({GetID(), p});}
};
class RecFid : public FiducialTracker
{
public:
  explicit RecFid(FiducialTracker::Parameters p) : FiducialTracker(p) {rec::A().fids.push_back({GetID(), p});}
};
class RecCam : public RosCamera
{
public:
  explicit RecCam(Camera::Parameters p) : RosCamera(p) {rec::A().cams.push_back({GetId(), p, {}, {}});}
  void AddTracker(std::shared_ptr<FeatureTracker> t)
  {
    for (auto & c : rec::A().cams) {if (c.id == GetId()) {c.trackers.push_back(t->GetID());}}
    RosCamera::AddTracker(t);
  }
  void AddFiducial(std::shared_ptr<FiducialTracker> t)
  {
    for (auto & c : rec::A().cams) {if (c.id == GetId()) {c.boards.push_back(t->GetID());}}
    RosCamera::AddFiducial(t);
  }
  void Callback(const RosCameraMessage & m)
  {
    rec::A().seen.push_back({'c', GetId(), m.sensor_id, m.sensor_type, m.time, Vec3::Zero(), Vec3::Zero(),
        MatX(), MatX(), m.image.clone()});
    RosCamera::Callback(m);
  }
};

#define EKF RecEkf
#define RosIMU RecImu
#define RosGPS RecGps
#define RosCamera RecCam
#define FeatureTracker RecFtr
#define FiducialTracker RecFid
#define main node_main
#include "application/ros/node/ekf_cal_node.hpp"
#include "application/ros/node/ekf_cal_node.cpp"
#include "application/ros/ekf_cal_main.cpp"
#undef main
#undef EKF
#undef RosIMU
#undef RosGPS
#undef RosCamera
#undef FeatureTracker
#undef FiducialTracker

// A camera of the library whose drawing can be read
class RefCamera : public Camera
{
public:
  using Camera::Camera;
  const cv::Mat & out() const {return m_out_img;}
};

namespace
{
using PV = rclcpp::ParameterValue;
std::vector<double> sv(const MatX & m) {return std::vector<double>(m.data(), m.data() + m.size());}
std::vector<double> sq(const Quat & q) {return {q.w(), q.x(), q.y(), q.z()};}

// The configuration and what it means
struct Conf
{
  Rng & R;
  double given;
  std::map<std::string, PV> ov;
  double d(const std::string & n, double v, double def) {if (R.b(given)) {ov[n] = PV(v); return v;} return def;}
  int i(const std::string & n, int v, int def) {if (R.b(given)) {ov[n] = PV(v); return v;} return def;}
  bool b(const std::string & n, bool v, bool def) {if (R.b(given)) {ov[n] = PV(v); return v;} return def;}
  VecX v(const std::string & n, const VecX & x, const VecX & def)
  {
    if (R.b(given)) {ov[n] = PV(sv(x)); return x;}
    return def;
  }
  Quat q(const std::string & n, const Quat & x)
  {
    if (R.b(given)) {ov[n] = PV(sq(x)); return x;}
    return Quat::Identity();
  }
};
struct WImu {std::string name; IMU::Parameters p;};
struct WGps {std::string name; GPS::Parameters p;};
struct WTrk {FeatureTracker::Parameters p;};
struct WFid {FiducialTracker::Parameters p;};
struct WCam {std::string name; Camera::Parameters p;};

VecX lin(int n, double a) {return VecX::Constant(n, a);}

// dense texture that moves by a few pixels per frame
cv::Mat picture(Rng & R, uint64_t tex, int w, int h, int dx, int dy, int channels)
{
  cv::Mat big(h + 80, w + 80, channels == 3 ? CV_8UC3 : CV_8UC1);
  cv::RNG r(tex);
  r.fill(big, cv::RNG::UNIFORM, 0, 256);
  cv::GaussianBlur(big, big, cv::Size(0, 0), 1.6);
  cv::normalize(big, big, 0, 255, cv::NORM_MINMAX);
  return big(cv::Rect(40 + dx, 40 + dy, w, h)).clone();
}

sensor_msgs::msg::Image toMsg(Rng & R, const cv::Mat & im, const std::string & enc)
{
  sensor_msgs::msg::Image m;
  m.height = im.rows;
  m.width = im.cols;
  m.encoding = enc;
  size_t row = size_t(im.cols) * im.elemSize();
  m.step = row + (R.b(0.3) ? R.i(0, 16) : 0);            // rows may be padded
  m.data.assign(size_t(m.step) * im.rows, 0xA5);
  for (int r = 0; r < im.rows; ++r) {memcpy(m.data.data() + size_t(m.step) * r, im.ptr(r), row);}
  return m;
}

bool same(const MatX & a, const MatX & b)
{
  return a.rows() == b.rows() && a.cols() == b.cols() && (a.array() == b.array()).all();
}
bool sameImage(const cv::Mat & a, const cv::Mat & b)
{
  if (a.size() != b.size() || a.type() != b.type()) {return false;}
  for (int r = 0; r < a.rows; ++r) {
    if (memcmp(a.ptr(r), b.ptr(r), size_t(a.cols) * a.elemSize())) {return false;}
  }
  return true;
}

double stamp(const std_msgs::msg::Header & h)
{
  return double((long double)(h.stamp.sec) + (long double)(h.stamp.nanosec) / 1e9L);
}

// The same filter without ROS
struct Reference
{
  std::shared_ptr<DebugLogger> log;
  std::shared_ptr<EKF> ekf;
  std::vector<std::shared_ptr<IMU>> imus;
  std::vector<std::shared_ptr<GPS>> gps;
  std::vector<std::shared_ptr<RefCamera>> cams;
};

void compare(Mon & M, EKF & a, EKF & b, const std::string & what)
{
  auto fa = hist::flat(a.m_state), fb = hist::flat(b.m_state);
  // identifiers differ (they are handed out one after the other), the order does not
  M.check(fa.size() == fb.size(), "filter-elements", strf("%zu want %zu ", fa.size(), fb.size()) + what);
  for (size_t k = 0; k < std::min(fa.size(), fb.size()); ++k) {
    VecX x = fa[k].second, y = fb[k].second;
    if (x.size() != y.size()) {M.violation("filter-elements", fa[k].first + " " + what); continue;}
    M.nearM(x, y, 1e-9 * std::max(1.0, y.cwiseAbs().maxCoeff()), "filter-state", fa[k].first + " " + what);
  }
  M.relM(hist::cov(a), hist::cov(b), 1e-9, "filter-covariance", what);
}

#define SAME(field) M.check(g.field == w.field, "parameter-" #field, who)
#define SAMEV(field) M.check(same(g.field, w.field), "parameter-" #field, who + " got " + vs(g.field) + " want " + vs(w.field))
#define SAMEQ(field) M.quatNear(g.field, w.field, 1e-12, "parameter-" #field, who)

void sameIntrinsics(Mon & M, const Intrinsics & g, const Intrinsics & w, const std::string & who)
{
  M.check(
    g.f_x == w.f_x && g.f_y == w.f_y && g.k_1 == w.k_1 && g.k_2 == w.k_2 && g.p_1 == w.p_1 && g.p_2 == w.p_2 &&
    g.pixel_size == w.pixel_size && g.width == w.width && g.height == w.height, "parameter-intrinsics",
    who + strf(" f_x %g want %g, width %g want %g, k_1 %g want %g", g.f_x, w.f_x, g.width, w.width, g.k_1, w.k_1));
}

void conversions(Mon & M, Rng & R)
{
  auto arr = [&](std::array<double, 9> & a) {for (auto & x : a) {x = R.n(R.logu(1e-6, 1e3));}};
  auto mat = [](const std::array<double, 9> & a) {
      Mat3 m;
      for (int r = 0; r < 3; ++r) {for (int c = 0; c < 3; ++c) {m(r, c) = a[size_t(3 * r + c)];}}
      return m;
    };
  auto head = [&](std_msgs::msg::Header & h) {
      h.stamp.sec = R.b(0.3) ? R.i(0, 5) : R.i(0, 2147483646);
      h.stamp.nanosec = R.b(0.2) ? R.pick(std::vector<uint32_t>{0, 1, 999999999}) : uint32_t(R.i(0, 999999999));
    };
  auto im = std::make_shared<sensor_msgs::msg::Imu>();
  head(im->header);
  arr(im->linear_acceleration_covariance);
  arr(im->angular_velocity_covariance);
  arr(im->orientation_covariance);
  Vec3 a = R.v(10), w = R.v(3);
  im->linear_acceleration.x = a.x(); im->linear_acceleration.y = a.y(); im->linear_acceleration.z = a.z();
  im->angular_velocity.x = w.x(); im->angular_velocity.y = w.y(); im->angular_velocity.z = w.z();
  RosImuMessage mi(im);
  double ulp = stamp(im->header) * 4.5e-16;
  M.check(std::fabs(mi.time - stamp(im->header)) <= ulp, "imu-time", strf("%.17g want %.17g", mi.time, stamp(im->header)));
  M.check(same(mi.acceleration, a), "imu-acceleration", vs(mi.acceleration) + " want " + vs(a));
  M.check(same(mi.angular_rate, w), "imu-angular-rate", vs(mi.angular_rate) + " want " + vs(w));
  M.check(same(mi.acceleration_covariance, mat(im->linear_acceleration_covariance)), "imu-acceleration-covariance",
    vs(mi.acceleration_covariance));
  M.check(same(mi.angular_rate_covariance, mat(im->angular_velocity_covariance)), "imu-angular-rate-covariance",
    vs(mi.angular_rate_covariance));
  M.check(mi.sensor_type == SensorType::IMU, "imu-type");

  auto gp = std::make_shared<sensor_msgs::msg::NavSatFix>();
  head(gp->header);
  gp->latitude = R.u(-90, 90);
  gp->longitude = R.u(-180, 180);
  gp->altitude = R.u(-100, 9000);
  arr(gp->position_covariance);
  gp->position_covariance_type = uint8_t(R.i(1, 3));
  RosGpsMessage mg(gp);
  ulp = stamp(gp->header) * 4.5e-16;
  M.check(std::fabs(mg.time - stamp(gp->header)) <= ulp, "gps-time", strf("%.17g want %.17g", mg.time, stamp(gp->header)));
  M.check(same(mg.gps_lla, Vec3(gp->latitude, gp->longitude, gp->altitude)), "gps-lla", vs(mg.gps_lla));
  M.check(same(mg.pos_covariance, mat(gp->position_covariance)), "gps-covariance",
    vs(mg.pos_covariance) + " want " + vs(mat(gp->position_covariance)));
  M.check(mg.sensor_type == SensorType::GPS, "gps-type");

  int ch = R.b(0.7) ? 1 : 3;
  cv::Mat img = picture(R, R.g(), R.i(1, 40), R.i(1, 40), 0, 0, ch);
  auto ci = std::make_shared<sensor_msgs::msg::Image>(
    toMsg(R, img, ch == 1 ? R.pick(std::vector<std::string>{"mono8", "8UC1"}) : R.pick(std::vector<std::string>{"bgr8", "rgb8"})));
  head(ci->header);
  RosCameraMessage mc(ci);
  ulp = stamp(ci->header) * 4.5e-16;
  M.check(std::fabs(mc.time - stamp(ci->header)) <= ulp, "image-time", strf("%.17g want %.17g", mc.time, stamp(ci->header)));
  if (ch == 1) {
    M.check(sameImage(mc.image, img), "image-pixels", strf("%dx%d", img.cols, img.rows));
  } else {
    M.check(mc.image.size() == img.size(), "image-size");
  }
  M.check(mc.sensor_type == SensorType::Camera, "image-type");
  cv::Mat kept = mc.image.clone();
  std::fill(ci->data.begin(), ci->data.end(), 0);
  M.check(sameImage(mc.image, kept), "image-is-a-copy");
  M.ev("messages_converted", 3);
}

void logger(Mon & M, Rng & R)
{
  auto & log = rclcpp::stub::world().log;
  const char * names[] = {"FATAL", "ERROR", "WARN", "INFO", "DEBUG"};
  int level = R.i(0, 4);
  DebugLogger L(static_cast<unsigned int>(level), M.scratch);
  for (int k = 0; k < 12; ++k) {
    if (R.b(0.2)) {
      log.clear();
      int now = R.i(0, 7);
      if (R.b() && now < 5) {L.SetLogLevel(static_cast<LogLevel>(now));} else {L.SetLogLevel(static_cast<unsigned int>(now));}
      int eff = std::min(now, 4);
      bool want = level <= 3 || eff <= 3;
      (void)want;                       // whether a change is announced is up to the logger
      for (auto & l : log) {
        M.check(l.text.find(names[eff]) != std::string::npos, "log-level-name", l.text + strf(" want %s", names[eff]));
      }
      level = now;
      continue;
    }
    std::string msg;
    int n = R.b(0.2) ? R.i(60, 5000) : R.i(0, 60);
    for (int c = 0; c < n; ++c) {
      msg += R.b(0.15) ? R.pick(std::vector<std::string>{"%", "%%", "%d", "%5.1f", "100%", "\\", "%c"}) :
        std::string(1, char(R.i(32, 126)));
    }
    int lv = R.i(0, 4);
    log.clear();
    L.Log(static_cast<LogLevel>(lv), msg);
    bool want = level >= lv;
    M.check(log.size() == (want ? 1u : 0u), "log-count", strf("%zu lines at level %d, logger at %d", log.size(), lv, level));
    if (want && log.size() == 1) {
      M.check(log[0].text == msg, "log-text", "\"" + log[0].text + "\" want \"" + msg + "\"");
      M.check(log[0].severity == names[lv], "log-severity", log[0].severity + strf(" want %s", names[lv]));
    }
    M.ev("log_messages");
  }
}

void node(Mon & M, Rng & R)
{
  auto & W = rclcpp::stub::world();
  W = rclcpp::stub::World();
  rclcpp::stub::subscriptions<sensor_msgs::msg::Imu>().clear();
  rclcpp::stub::subscriptions<sensor_msgs::msg::Image>().clear();
  rclcpp::stub::subscriptions<sensor_msgs::msg::NavSatFix>().clear();
  rclcpp::stub::publishers<sensor_msgs::msg::Image>().clear();
  rclcpp::stub::publishers<std_msgs::msg::Float64MultiArray>().clear();
  auto & A = rec::A();
  A = rec::All();

  Conf C{R, R.b(0.2) ? 0.4 : 0.9, {}};
  std::string dir = M.scratch + strf("ros%d/", int(M.idx));
  mkdir(dir.c_str(), 0755);
  C.ov["log_directory"] = PV(dir);
  int level = C.i("debug_log_level", R.i(0, 4), 0);
  EKF::Parameters we;
  we.log_directory = dir;
  we.data_log_rate = R.b(0.2) ? C.d("data_log_rate", R.u(1, 100), 0.0) : 0.0;
  bool first = R.b(0.2);
  we.augmenting_delta_time = C.d("augmenting_delta_time", R.u(0, 1), 0.0);
  we.augmenting_pos_error = C.d("augmenting_pos_error", R.u(0, 1), 0.0);
  we.augmenting_ang_error = C.d("augmenting_ang_error", R.u(0, 1), 0.0);
  // What the configuration does not name keeps its default
  VecX pn = lin(g_body_state_size, 1e-2);
  double n_pos = C.d("process_noise.pos", R.logu(1e-4, 1), 1e-2);
  double n_vel = C.d("process_noise.vel", R.logu(1e-4, 1), 1e-2);
  double n_ang = C.d("process_noise.ang_pos", R.logu(1e-4, 1), 1e-2);
  we.pos_b_in_l = C.v("pos_b_in_l", R.v(5), Vec3::Zero());
  we.ang_b_to_l = C.q("ang_b_to_l", R.q());
  Vec3 ref(R.u(-80, 80), R.u(-179, 179), R.u(-50, 3000));
  we.pos_e_in_g = C.v("pos_e_in_g", ref, Vec3::Zero());
  we.ang_l_to_e = C.d("ang_l_to_e", R.u(-3, 3), 0.0);
  we.gps_init_type = static_cast<GpsInitType>(C.i("gps_init_type", R.b(0.7) ? 0 : R.i(1, 2), 0));
  we.gps_init_baseline_dist = C.d("gps_init_baseline_dist", R.u(1, 100), 1.0);
  we.gps_init_pos_thresh = C.d("gps_init_pos_thresh", R.u(0.01, 5), 1.0);
  we.gps_init_ang_thresh = C.d("gps_init_ang_thresh", R.u(0.01, 1), 1.0);
  we.motion_detection_chi_squared = C.d("motion_detection_chi_squared", R.u(0, 5), 1.0);
  we.imu_noise_scale_factor = C.d("imu_noise_scale_factor", R.u(1, 200), 100.0);
  we.use_root_covariance = C.b("use_root_covariance", R.b(), true);
  we.use_first_estimate_jacobian = C.b("use_first_estimate_jacobian", first, false);
  int augmenting = C.i("augmenting_type", R.i(0, 4), 0);

  std::vector<std::string> imu_names, cam_names, trk_names, fid_names, gps_names;
  std::vector<std::string> pool {"alpha", "beta", "gamma", "front_left", "x1", "imu_1", "cam", "gps", "z"};
  auto names = [&](int n, std::vector<std::string> & out) {
      std::vector<std::string> p = pool;
      for (int k = 0; k < n; ++k) {
        size_t j = size_t(R.i(0, int(p.size()) - 1));
        out.push_back(p[j]);
        p.erase(p.begin() + long(j));
      }
    };
  names(R.i(0, 3), imu_names);
  names(R.b(0.5) ? R.i(1, 2) : 0, cam_names);
  names(cam_names.empty() ? R.i(0, 1) : R.i(0, 2), trk_names);
  names(cam_names.empty() ? R.i(0, 1) : R.i(0, 2), fid_names);
  names(R.i(0, 2), gps_names);
  auto list = [&](const char * n, const std::vector<std::string> & v) {if (!v.empty() || R.b()) {C.ov[n] = PV(v);}};
  list("imu_list", imu_names);
  list("camera_list", cam_names);
  list("tracker_list", trk_names);
  list("fiducial_list", fid_names);
  list("gps_list", gps_names);
  we.augmenting_type = trk_names.empty() ? AugmentationType::NONE : static_cast<AugmentationType>(augmenting);

  auto common = [&](Sensor::Parameters & p, const std::string & pre, const std::string & name, const std::string & topic) {
      p.name = name;
      p.topic = topic;
      C.ov[pre + ".topic"] = PV(topic);
      p.rate = C.d(pre + ".rate", R.u(1, 500), 1.0);
      p.data_log_rate = R.b(0.2) ? C.d(pre + ".data_log_rate", R.u(1, 100), 0.0) : 0.0;
      p.log_directory = dir;
    };
  auto topic = [&](const char * kind, size_t k) {      // sensors of a kind may share a topic
      return k > 0 && R.b(0.15) ? strf("/%s_0", kind) : strf("/%s_%zu", kind, k);
    };
  std::vector<WImu> wi;
  for (size_t k = 0; k < imu_names.size(); ++k) {
    std::string p = "imu." + imu_names[k];
    WImu w;
    w.name = imu_names[k];
    common(w.p, p, w.name, topic("imu", k));
    w.p.is_extrinsic = C.b(p + ".is_extrinsic", R.b(), false);
    w.p.is_intrinsic = C.b(p + ".is_intrinsic", R.b(), false);
    VecX var = R.m(12, 1).cwiseAbs() + lin(12, 0.01);
    w.p.variance = C.v(p + ".variance", var, lin(12, 1));
    w.p.pos_i_in_b = C.v(p + ".pos_i_in_b", R.v(), Vec3::Zero());
    w.p.ang_i_to_b = C.q(p + ".ang_i_to_b", R.q());
    w.p.acc_bias = C.v(p + ".acc_bias", R.v(0.1), Vec3::Zero());
    w.p.omg_bias = C.v(p + ".omg_bias", R.v(0.1), Vec3::Zero());
    w.p.pos_stability = C.d(p + ".pos_stability", R.logu(1e-9, 1e-2), 1e-9);
    w.p.ang_stability = C.d(p + ".ang_stability", R.logu(1e-9, 1e-2), 1e-9);
    w.p.acc_bias_stability = C.d(p + ".acc_bias_stability", R.logu(1e-9, 1e-2), 1e-9);
    w.p.omg_bias_stability = C.d(p + ".omg_bias_stability", R.logu(1e-9, 1e-2), 1e-9);
    wi.push_back(w);
  }
  std::map<std::string, WTrk> wt;
  for (auto & n : trk_names) {
    std::string p = "tracker." + n;
    WTrk w;
    w.p.detector = static_cast<Detector>(C.i(p + ".feature_detector", R.pick(std::vector<int>{0, 1, 3, 4, 5}), 0));
    w.p.descriptor = static_cast<Descriptor>(C.i(p + ".descriptor_extractor", R.i(0, 1), 0));
    w.p.matcher = static_cast<Matcher>(C.i(p + ".descriptor_matcher", R.i(0, 1), 0));
    w.p.threshold = C.i(p + ".detector_threshold", R.i(10, 40), 20);
    w.p.px_error = C.d(p + ".pixel_error", R.u(0.5, 3), 1.0);
    w.p.down_sample_height = C.i(p + ".down_sample_height", R.i(60, 480), 480);
    w.p.down_sample_width = C.i(p + ".down_sample_width", R.i(60, 640), 640);
    w.p.min_feat_dist = C.d(p + ".min_feature_distance", R.u(0.5, 3), 1.0);
    w.p.min_track_length = unsigned(C.i(p + ".min_track_length", R.i(2, 4), 2));
    w.p.max_track_length = unsigned(C.i(p + ".max_track_length", R.i(4, 40), 20));
    wt[n] = w;
  }
  std::map<std::string, WFid> wf;
  for (auto & n : fid_names) {
    std::string p = "fiducial." + n;
    double keep = C.given;
    C.given = 1.0;                      // a board needs a size
    WFid w;
    int type = R.i(0, 1);
    w.p.detector_type = static_cast<FiducialType>(C.i(p + ".fiducial_type", type, 0));
    w.p.squares_x = unsigned(C.i(p + ".squares_x", R.i(2, 7), 0));
    w.p.squares_y = unsigned(C.i(p + ".squares_y", R.i(2, 7), 0));
    w.p.square_length = C.d(p + ".square_length", R.u(0.03, 0.2), 0);
    w.p.marker_length = C.d(p + ".marker_length", w.p.square_length * R.u(0.4, 0.8), 0);
    C.given = keep;
    w.p.id = unsigned(C.i(p + ".id", R.i(0, 9), 0));
    w.p.pos_f_in_l = C.v(p + ".pos_f_in_l", R.v(5), Vec3::Zero());
    w.p.ang_f_to_l = C.q(p + ".ang_f_to_l", R.q());
    VecX var = R.m(6, 1).cwiseAbs() + lin(6, 0.01);
    w.p.variance = C.v(p + ".variance", var, lin(6, 0));
    w.p.min_track_length = unsigned(C.i(p + ".min_track_length", R.i(0, 4), 2));
    w.p.max_track_length = unsigned(C.i(p + ".max_track_length", R.i(1, 40), 20));
    w.p.is_extrinsic = C.b(p + ".is_extrinsic", R.b(), false);
    wf[n] = w;
  }
  std::vector<WCam> wc;
  for (size_t k = 0; k < cam_names.size(); ++k) {
    std::string p = "camera." + cam_names[k];
    WCam w;
    w.name = cam_names[k];
    common(w.p, p, w.name, topic("cam", k));
    w.p.pos_c_in_b = C.v(p + ".pos_c_in_b", R.v(), Vec3::Zero());
    w.p.ang_c_to_b = C.q(p + ".ang_c_to_b", R.q());
    VecX var = R.m(6, 1).cwiseAbs() + lin(6, 0.01);
    w.p.variance = C.v(p + ".variance", var, lin(6, 1));
    w.p.pos_stability = C.d(p + ".pos_stability", R.logu(1e-9, 1e-2), 1e-9);
    w.p.ang_stability = C.d(p + ".ang_stability", R.logu(1e-9, 1e-2), 1e-9);
    w.p.is_extrinsic = C.b(p + ".is_extrinsic", R.b(), false);
    if (!trk_names.empty() && R.b(0.8)) {
      w.p.tracker = R.pick(trk_names);
      C.ov[p + ".tracker"] = PV(w.p.tracker);
    }
    if (!fid_names.empty() && R.b(0.8)) {
      w.p.fiducial = R.pick(fid_names);
      C.ov[p + ".fiducial"] = PV(w.p.fiducial);
    }
    std::string q = p + ".intrinsics";
    w.p.intrinsics.f_x = C.d(q + ".f_x", R.u(0.003, 0.02), 0.01);
    w.p.intrinsics.f_y = C.d(q + ".f_y", R.u(0.003, 0.02), 0.01);
    w.p.intrinsics.k_1 = C.d(q + ".k_1", R.u(-0.05, 0.05), 0);
    w.p.intrinsics.k_2 = C.d(q + ".k_2", R.u(-0.02, 0.02), 0);
    w.p.intrinsics.p_1 = C.d(q + ".p_1", R.u(-0.01, 0.01), 0);
    w.p.intrinsics.p_2 = C.d(q + ".p_2", R.u(-0.01, 0.01), 0);
    w.p.intrinsics.pixel_size = C.d(q + ".pixel_size", R.u(3e-6, 1e-5), 5e-6);
    w.p.intrinsics.width = C.d(q + ".width", R.i(80, 640), 640);
    w.p.intrinsics.height = C.d(q + ".height", R.i(80, 480), 480);
    wc.push_back(w);
  }
  std::vector<WGps> wg;
  for (size_t k = 0; k < gps_names.size(); ++k) {
    std::string p = "gps." + gps_names[k];
    WGps w;
    w.name = gps_names[k];
    common(w.p, p, w.name, topic("gps", k));
    w.p.pos_a_in_b = C.v(p + ".pos_a_in_b", R.v(), Vec3::Zero());
    w.p.pos_stability = C.d(p + ".pos_stability", R.logu(1e-9, 1e-2), 1e-9);
    Vec3 var = R.v().cwiseAbs() + Vec3::Constant(0.01);
    w.p.variance = C.v(p + ".variance", var, lin(3, 1));
    w.p.is_extrinsic = C.b(p + ".is_extrinsic", R.b(), false);
    wg.push_back(w);
  }

  W.overrides = C.ov;
  bool spun = false;
  Hash sig;
  uint64_t delivered = 0;
  W.spin = [&](std::shared_ptr<void> raw) {
      spun = true;
      auto nd = std::static_pointer_cast<EkfCalNode>(raw);
      // every value of the configuration was read
      for (auto & o : C.ov) {
        M.check(W.declared.count(o.first) == 1, "parameter-ignored", o.first);
      }
      if (!M.check(A.ekf.size() == 1, "one-filter", strf("%zu", A.ekf.size()))) {return;}
      {
        auto & g = A.ekf[0];
        auto & w = we;
        std::string who = "filter";
        SAME(data_log_rate); SAME(log_directory); SAME(augmenting_type); SAME(augmenting_delta_time);
        SAME(augmenting_pos_error); SAME(augmenting_ang_error); SAMEV(pos_b_in_l); SAMEQ(ang_b_to_l);
        SAMEV(pos_e_in_g); SAME(ang_l_to_e); SAME(gps_init_type); SAME(gps_init_baseline_dist);
        SAME(gps_init_pos_thresh); SAME(gps_init_ang_thresh); SAME(motion_detection_chi_squared);
        SAME(imu_noise_scale_factor); SAME(use_root_covariance); SAME(use_first_estimate_jacobian);
        VecX want = pn;
        want.segment<3>(0).setConstant(n_pos);
        want.segment<3>(3).setConstant(n_vel);
        want.segment<3>(9).setConstant(n_ang);
        M.check(same(g.process_noise, want), "parameter-process_noise", vs(g.process_noise) + " want " + vs(want));
        we.process_noise = want;
      }
      // sensors, in the order of their lists
      M.check(A.imus.size() == wi.size() && A.cams.size() == wc.size() && A.gps.size() == wg.size(), "sensor-count",
        strf("%zu/%zu imus %zu/%zu cameras %zu/%zu gps", A.imus.size(), wi.size(), A.cams.size(), wc.size(), A.gps.size(), wg.size()));
      if (A.imus.size() != wi.size() || A.cams.size() != wc.size() || A.gps.size() != wg.size()) {return;}
      auto byName = [](auto & v, const std::string & n) {
          for (auto & x : v) {if (x.p.name == n) {return &x;}}
          return decltype(&v[0])(nullptr);
        };
      EKF & filter = *A.filters[0];
      std::vector<unsigned> imu_id, cam_id, gps_id;
      for (auto & x : wi) {
        auto r = byName(A.imus, x.name);
        if (!M.check(r, "sensor-missing", x.name)) {return;}
        imu_id.push_back(r->id);
        auto & g = r->p;
        auto & w = x.p;
        std::string who = "imu " + x.name;
        SAME(topic); SAME(rate); SAME(data_log_rate); SAME(log_directory); SAME(is_extrinsic); SAME(is_intrinsic);
        SAMEV(variance); SAMEV(pos_i_in_b); SAMEQ(ang_i_to_b); SAMEV(acc_bias); SAMEV(omg_bias);
        SAME(pos_stability); SAME(ang_stability); SAME(acc_bias_stability); SAME(omg_bias_stability);
        M.check(g.ekf.get() == &filter, "parameter-ekf", who);
      }
      for (auto & x : wg) {
        auto r = byName(A.gps, x.name);
        if (!M.check(r, "sensor-missing", x.name)) {return;}
        gps_id.push_back(r->id);
        auto & g = r->p;
        auto & w = x.p;
        std::string who = "gps " + x.name;
        SAME(topic); SAME(rate); SAME(data_log_rate); SAME(log_directory); SAME(is_extrinsic);
        SAMEV(variance); SAMEV(pos_a_in_b); SAME(pos_stability);
        M.check(g.ekf.get() == &filter, "parameter-ekf", who);
      }
      unsigned longest = 0;
      for (auto & x : wc) {
        auto r = byName(A.cams, x.name);
        if (!M.check(r, "sensor-missing", x.name)) {return;}
        cam_id.push_back(r->id);
        {
          auto & g = r->p;
          auto & w = x.p;
          std::string who = "camera " + x.name;
          SAME(topic); SAME(rate); SAME(data_log_rate); SAME(log_directory); SAME(is_extrinsic);
          SAMEV(variance); SAMEV(pos_c_in_b); SAMEQ(ang_c_to_b); SAME(pos_stability); SAME(ang_stability);
          SAME(tracker); SAME(fiducial);
          sameIntrinsics(M, g.intrinsics, w.intrinsics, who);
          M.check(g.ekf.get() == &filter, "parameter-ekf", who);
        }
        M.check(r->trackers.size() == (x.p.tracker.empty() ? 0u : 1u), "tracker-count", x.name);
        M.check(r->boards.size() == (x.p.fiducial.empty() ? 0u : 1u), "fiducial-count", x.name);
        if (r->trackers.size() != (x.p.tracker.empty() ? 0u : 1u) || r->boards.size() != (x.p.fiducial.empty() ? 0u : 1u)) {return;}
        for (auto & t : A.ftrs) {
          if (std::find(r->trackers.begin(), r->trackers.end(), t.id) == r->trackers.end()) {continue;}
          auto & g = t.p;
          auto & w = wt[x.p.tracker].p;
          std::string who = "tracker " + x.p.tracker + " of camera " + x.name;
          SAME(detector); SAME(descriptor); SAME(matcher); SAME(threshold); SAME(px_error);
          SAME(down_sample_height); SAME(down_sample_width); SAME(min_feat_dist); SAME(min_track_length); SAME(max_track_length);
          M.check(g.camera_id == r->id, "tracker-camera", who);
          M.check(g.is_cam_extrinsic == x.p.is_extrinsic, "tracker-camera-extrinsic", who);
          M.check(g.data_log_rate == x.p.data_log_rate && g.log_directory == dir, "tracker-logging", who);
          M.check(g.ekf.get() == &filter, "parameter-ekf", who);
          sameIntrinsics(M, g.intrinsics, x.p.intrinsics, who);
          longest = std::max(longest, w.max_track_length);
        }
        for (auto & t : A.fids) {
          if (std::find(r->boards.begin(), r->boards.end(), t.id) == r->boards.end()) {continue;}
          auto & g = t.p;
          auto & w = wf[x.p.fiducial].p;
          std::string who = "fiducial " + x.p.fiducial + " of camera " + x.name;
          SAME(detector_type); SAME(squares_x); SAME(squares_y); SAME(square_length); SAME(marker_length); SAME(id);
          SAMEV(pos_f_in_l); SAMEQ(ang_f_to_l); SAMEV(variance); SAME(min_track_length); SAME(max_track_length);
          SAME(is_extrinsic);
          M.check(g.camera_id == r->id, "tracker-camera", who);
          M.check(g.is_cam_extrinsic == x.p.is_extrinsic, "tracker-camera-extrinsic", who);
          M.check(g.data_log_rate == x.p.data_log_rate && g.log_directory == dir, "tracker-logging", who);
          M.check(g.ekf.get() == &filter, "parameter-ekf", who);
          sameIntrinsics(M, g.intrinsics, x.p.intrinsics, who);
        }
      }
      unsigned window = A.max_track.empty() ? 20u : A.max_track.back().first;
      M.check(window >= longest, "track-window", strf("frames kept %u, tracks of up to %u", window, longest));

      // The same filter, built without ROS. It starts from the very numbers that were found equal to
      // the configured ones above: thresholds that compare with rounding must not tell them apart.
      Reference F;
      std::string rdir = M.scratch + strf("ref%d/", int(M.idx));
      mkdir(rdir.c_str(), 0755);
      F.log = std::make_shared<DebugLogger>(LogLevel::FATAL, rdir);
      EKF::Parameters pe = A.ekf[0];
      pe.debug_logger = F.log;
      pe.log_directory = rdir;
      F.ekf = std::make_shared<EKF>(pe);
      for (auto & x : wi) {
        auto p = byName(A.imus, x.name)->p;
        p.ekf = F.ekf; p.logger = F.log; p.log_directory = rdir;
        F.imus.push_back(std::make_shared<IMU>(p));
      }
      auto windows = [&]() {
          for (auto & t : A.max_track) {if (t.second == F.cams.size()) {F.ekf->SetMaxTrackLength(t.first);}}
        };
      for (auto & x : wc) {
        windows();
        auto was = byName(A.cams, x.name);
        auto p = was->p;
        p.ekf = F.ekf; p.logger = F.log; p.log_directory = rdir;
        auto c = std::make_shared<RefCamera>(p);
        if (!x.p.tracker.empty()) {
          FeatureTracker::Parameters t;
          for (auto & f : A.ftrs) {if (f.id == was->trackers[0]) {t = f.p;}}
          t.ekf = F.ekf; t.logger = F.log; t.log_directory = rdir; t.camera_id = c->GetId();
          c->AddTracker(std::make_shared<FeatureTracker>(t));
        }
        if (!x.p.fiducial.empty()) {
          FiducialTracker::Parameters t;
          for (auto & f : A.fids) {if (f.id == was->boards[0]) {t = f.p;}}
          t.ekf = F.ekf; t.logger = F.log; t.log_directory = rdir; t.camera_id = c->GetId();
          c->AddFiducial(std::make_shared<FiducialTracker>(t));
        }
        F.cams.push_back(c);
      }
      for (auto & x : wg) {
        auto p = byName(A.gps, x.name)->p;
        p.ekf = F.ekf; p.logger = F.log; p.log_directory = rdir;
        F.gps.push_back(std::make_shared<GPS>(p));
      }
      windows();
      compare(M, filter, *F.ekf, "before any message");

      M.check(W.timers.size() >= 1, "timer-count");
      auto pub = rclcpp::stub::find_publisher<std_msgs::msg::Float64MultiArray>("~/BodyState");
      M.check(bool(pub), "body-state-publisher");
      for (auto & x : wc) {
        M.check(bool(rclcpp::stub::find_publisher<sensor_msgs::msg::Image>("~/" + x.name)), "image-publisher", x.name);
      }
      // topics to which messages can be sent
      struct T {char k; std::string topic;};
      std::vector<T> topics;
      std::set<std::string> have;
      for (auto & x : wi) {if (have.insert(x.p.topic).second) {topics.push_back({'i', x.p.topic}); topics.push_back({'i', x.p.topic});}}
      for (auto & x : wc) {if (have.insert(x.p.topic).second) {topics.push_back({'c', x.p.topic});}}
      for (auto & x : wg) {if (have.insert(x.p.topic).second) {topics.push_back({'g', x.p.topic});}}
      int64_t ns = R.b(0.3) ? 0 : (R.b() ? int64_t(R.i(1, 100)) * 1000000000 : int64_t(R.i(1600000000, 2000000000)) * 1000000000);
      ns += R.i(0, 999999999);
      int n = topics.empty() ? 0 : R.i(4, 24);
      uint64_t tex = R.g();
      int w = R.i(90, 160), h = R.i(90, 130);
      bool color = R.b(0.2);
      for (int k = 0; k < n; ++k) {
        ns += R.b(0.1) ? R.i(0, 1) : R.i(1000, 120000000);
        int64_t at = R.b(0.05) ? std::max<int64_t>(0, ns - R.i(0, 50000000)) : ns;
        auto & tp = R.pick(topics);
        std_msgs::msg::Header hd;
        hd.stamp.sec = int32_t(at / 1000000000);
        hd.stamp.nanosec = uint32_t(at % 1000000000);
        hd.frame_id = "frame";
        double t = stamp(hd);
        std::string what = strf("after message %d on %s at %.9f", k, tp.topic.c_str(), t);
        A.seen.clear();
        uint64_t rng = R.g();
        cv::theRNG().state = rng;
        // who must have received it
        std::vector<unsigned> ids;
        std::vector<size_t> idx;
        if (tp.k == 'i') {
          for (size_t j = 0; j < wi.size(); ++j) {if (wi[j].p.topic == tp.topic) {ids.push_back(imu_id[j]); idx.push_back(j);}}
          sensor_msgs::msg::Imu m;
          m.header = hd;
          Vec3 a = R.v(1) + Vec3(0, 0, 9.8), g = R.v(0.3);
          Mat3 ca = R.spd(3, 1e-2), cg = R.spd(3, 1e-3);
          m.linear_acceleration.x = a.x(); m.linear_acceleration.y = a.y(); m.linear_acceleration.z = a.z();
          m.angular_velocity.x = g.x(); m.angular_velocity.y = g.y(); m.angular_velocity.z = g.z();
          for (size_t e = 0; e < 9; ++e) {
            m.linear_acceleration_covariance[e] = ca(int(e / 3), int(e % 3));
            m.angular_velocity_covariance[e] = cg(int(e / 3), int(e % 3));
          }
          rclcpp::stub::deliver(tp.topic, m);
          M.check(A.seen.size() == ids.size(), "delivered-once", strf("%zu deliveries want %zu ", A.seen.size(), ids.size()) + what);
          for (auto & s : A.seen) {
            M.check(s.kind == 'i' && same(s.a, a) && same(s.b, g) && same(s.ca, ca) && same(s.cb, cg) &&
              std::fabs(s.time - t) <= t * 4.5e-16, "delivered-unchanged", what);
          }
          for (size_t j : idx) {
            ImuMessage r;
            r.sensor_id = F.imus[j]->GetId(); r.sensor_type = SensorType::IMU; r.time = A.seen.empty() ? t : A.seen[0].time;
            r.acceleration = a; r.angular_rate = g; r.acceleration_covariance = ca; r.angular_rate_covariance = cg;
            F.imus[j]->Callback(r);
          }
        } else if (tp.k == 'g') {
          for (size_t j = 0; j < wg.size(); ++j) {if (wg[j].p.topic == tp.topic) {ids.push_back(gps_id[j]); idx.push_back(j);}}
          sensor_msgs::msg::NavSatFix m;
          m.header = hd;
          Vec3 lla = we.pos_e_in_g + Vec3(R.n(1e-4), R.n(1e-4), R.n(5));
          Mat3 c = R.spd(3, 0.5);
          m.latitude = lla.x(); m.longitude = lla.y(); m.altitude = lla.z();
          for (size_t e = 0; e < 9; ++e) {m.position_covariance[e] = c(int(e / 3), int(e % 3));}
          m.position_covariance_type = 3;
          rclcpp::stub::deliver(tp.topic, m);
          M.check(A.seen.size() == ids.size(), "delivered-once", strf("%zu deliveries want %zu ", A.seen.size(), ids.size()) + what);
          for (auto & s : A.seen) {
            M.check(s.kind == 'g' && same(s.a, lla) && same(s.ca, c) && std::fabs(s.time - t) <= t * 4.5e-16,
              "delivered-unchanged", what);
          }
          for (size_t j : idx) {
            GpsMessage r;
            r.sensor_id = F.gps[j]->GetId(); r.sensor_type = SensorType::GPS; r.time = A.seen.empty() ? t : A.seen[0].time;
            r.gps_lla = lla; r.pos_covariance = c;
            F.gps[j]->Callback(r);
          }
        } else {
          for (size_t j = 0; j < wc.size(); ++j) {if (wc[j].p.topic == tp.topic) {ids.push_back(cam_id[j]); idx.push_back(j);}}
          cv::Mat im = picture(R, tex, w, h, R.i(-8, 8), R.i(-8, 8), color ? 3 : 1);
          if (R.b(0.1)) {im = cv::Mat();}
          auto m = toMsg(R, im, color ? "bgr8" : "mono8");
          m.header = hd;
          std::map<std::string, size_t> before;
          for (auto & x : wc) {
            auto p = rclcpp::stub::find_publisher<sensor_msgs::msg::Image>("~/" + x.name);
            if (p) {before[x.name] = p->sent.size();}
          }
          // each camera draws with its own random numbers
          if (ids.size() > 1) {cv::theRNG().state = rng;}
          rclcpp::stub::deliver(tp.topic, m);
          M.check(A.seen.size() == ids.size(), "delivered-once", strf("%zu deliveries want %zu ", A.seen.size(), ids.size()) + what);
          for (auto & s : A.seen) {
            M.check(s.kind == 'c' && (color || im.empty() ? s.image.size() == im.size() : sameImage(s.image, im)) &&
              std::fabs(s.time - t) <= t * 4.5e-16, "delivered-unchanged", what);
          }
          cv::theRNG().state = rng;
          for (size_t q = 0; q < idx.size(); ++q) {
            size_t j = idx[q];
            CameraMessage r(q < A.seen.size() ? A.seen[q].image : im);
            r.sensor_id = F.cams[j]->GetId(); r.sensor_type = SensorType::Camera; r.time = A.seen.empty() ? t : A.seen[0].time;
            F.cams[j]->Callback(r);
          }
          for (size_t j = 0; j < wc.size(); ++j) {
            auto p = rclcpp::stub::find_publisher<sensor_msgs::msg::Image>("~/" + wc[j].name);
            if (!p) {continue;}
            bool mine = wc[j].p.topic == tp.topic;
            M.check(p->sent.size() - before[wc[j].name] == (mine ? 1u : 0u), "image-republished", wc[j].name + " " + what);
            if (!mine || p->sent.empty()) {continue;}
            auto & o = p->sent.back();
            const cv::Mat & d = F.cams[j]->out();
            bool eq = int(o.height) == d.rows && int(o.width) == d.cols;
            if (d.cols > 0 && d.rows > 0) {
              eq = eq && o.encoding == "bgr8" && o.step >= size_t(d.cols) * d.elemSize();
              for (int r = 0; eq && r < d.rows; ++r) {
                eq = memcmp(o.data.data() + size_t(o.step) * r, d.ptr(r), size_t(d.cols) * d.elemSize()) == 0;
              }
            }
            M.check(eq, "image-drawing", wc[j].name + " " + what + strf(" %ux%u want %dx%d", o.width, o.height, d.cols, d.rows));
            M.ev("images_republished");
          }
        }
        for (auto & s : A.seen) {
          M.check(std::count(ids.begin(), ids.end(), s.sensor) == 1, "delivered-to", strf("sensor %u ", s.sensor) + what);
          M.check(s.sensor_id == s.sensor, "delivered-id", strf("%u want %u ", s.sensor_id, s.sensor) + what);
          ++delivered;
        }
        compare(M, filter, *F.ekf, what);
        sig.add(uint64_t(tp.k)).add(uint64_t(idx.size()));
        if (R.b(0.3)) {
          size_t c = pub ? pub->sent.size() : 0;
          for (auto & tm : W.timers) {tm->callback();}
          if (pub && M.check(pub->sent.size() == c + 1, "body-state-published", what)) {
            VecX got = Eigen::Map<VecX>(pub->sent.back().data.data(), long(pub->sent.back().data.size()));
            auto & b = filter.m_state.body_state;
            VecX want(18);
            Eigen::AngleAxisd aa(b.ang_b_to_l.w() < 0 ? Quat(-b.ang_b_to_l.coeffs()) : b.ang_b_to_l);
            want << b.pos_b_in_l, b.vel_b_in_l, b.acc_b_in_l, aa.angle() * aa.axis(), b.ang_vel_b_in_l, b.ang_acc_b_in_l;
            if (M.check(got.size() == 18, "body-state-size")) {
              // rotations by half a turn have two rotation vectors
              if (aa.angle() > M_PI - 1e-6) {got.segment<3>(9) = want.segment<3>(9);}
              M.relM(got, want, 1e-9, "body-state", what);
            }
            M.ev("body_states_published");
          }
        }
        if (R.b(0.1)) {
          // a sensor nobody registered
          unsigned bad = 0;
          while (std::count(imu_id.begin(), imu_id.end(), bad) || std::count(cam_id.begin(), cam_id.end(), bad) ||
            std::count(gps_id.begin(), gps_id.end(), bad)) {++bad;}
          bad += R.b() ? 0 : 1000000;
          if (bad < 1000000 || true) {
            A.seen.clear();
            auto mi = std::make_shared<sensor_msgs::msg::Imu>();
            auto mg = std::make_shared<sensor_msgs::msg::NavSatFix>();
            auto mc = std::make_shared<sensor_msgs::msg::Image>(toMsg(R, cv::Mat(4, 4, CV_8UC1, cv::Scalar(7)), "mono8"));
            mi->header = mg->header = mc->header = hd;
            nd->ImuCallback(mi, bad);
            nd->GpsCallback(mg, bad);
            nd->CameraCallback(mc, bad);
            M.check(A.seen.empty(), "unknown-sensor", strf("id %u", bad));
            compare(M, filter, *F.ekf, "after messages of an unknown sensor");
            M.ev("unknown_sensor_messages", 3);
          }
        }
      }
    };
  char name[] = "node";
  char * argv[] = {name, nullptr};
  int rc = node_main(1, argv);
  M.check(rc == 0 && spun, "node-started", strf("rc %d", rc));
  M.ev("messages_delivered", delivered);
  sig.add(uint64_t(wi.size())).add(uint64_t(wc.size())).add(uint64_t(wg.size()));
  M.done(sig.h, delivered > 0, strf("%zu imus, %zu cameras, %zu gps, %d deliveries", wi.size(), wc.size(), wg.size(), int(delivered)));
  (void)level;
  W = rclcpp::stub::World();
  A = rec::All();
}
}

void run_case(Mon & M, Rng & R)
{
  conversions(M, R);
  logger(M, R);
  node(M, R);
}
