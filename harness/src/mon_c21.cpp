// C21: sensors and trackers: identities, dispatch of frames, feature tracks, board detections.
#include "trans.hpp"
#include "tailguard.hpp"
#include <opencv2/opencv.hpp>
#include <opencv2/features2d.hpp>
#include <opencv2/aruco.hpp>
#include <opencv2/aruco/charuco.hpp>
#include "ekf/constants.hpp"
#include "infrastructure/sim/truth_engine_cyclic.hpp"
#include "sensors/imu.hpp"
#include "sensors/gps.hpp"
#include "sensors/camera.hpp"
#include "sensors/sim/sim_camera.hpp"
#include "trackers/sim/sim_feature_tracker.hpp"
#include "trackers/sim/sim_fiducial_tracker.hpp"
#include "utility/monitor_hooks.hpp"
#include "utility/sim/sim_rng.hpp"
using namespace hist;

static std::shared_ptr<DebugLogger> lg() {return std::make_shared<DebugLogger>(LogLevel::FATAL, "");}
static std::set<unsigned> sensorIds, trackerIds;
static long lastFrame = -1;

static std::shared_ptr<EKF> filter(Rng & R)
{
  EKF::Parameters p;
  p.debug_logger = lg();
  p.augmenting_type = R.b(0.8) ? AugmentationType::ALL : AugmentationType::TIME;
  p.augmenting_delta_time = 0.3;
  p.use_root_covariance = R.b();
  auto e = std::make_shared<EKF>(p);
  e->SetMaxTrackLength(unsigned(R.i(3, 20)));
  return e;
}
template<class T> static unsigned newSensor(Mon & M, const T & s, const std::string & name)
{
  unsigned id = s.GetId();
  M.check(sensorIds.insert(id).second, "sensor-identity", strf("sensor number %u is taken", id));
  M.check(s.GetName() == name, "sensor-name", s.GetName() + " for " + name);
  M.ev("sensors");
  return id;
}
static void newTracker(Mon & M, unsigned id)
{
  M.check(trackerIds.insert(id).second, "tracker-identity", strf("tracker number %u is taken", id));
  M.ev("trackers");
}

// what the hooks saw during one callback
struct Call {unsigned tracker; double time; unsigned frame; cv::Mat img;};
struct Used {long tracker; unsigned cam; double time; FeatureTracks tracks;};
struct Board {long tracker; unsigned id, cam; double time; BoardDetection d;};
static std::vector<Call> calls;
static std::vector<Used> used;
static std::vector<Board> boards;
static void arm()
{
  calls.clear();
  used.clear();
  boards.clear();
  auto & h = monitor_hooks::Get();
  h.image = [](unsigned t, double time, unsigned f, const cv::Mat & i) {calls.push_back({t, time, f, i.clone()});};
  h.feature_tracks = [](unsigned c, double time, const FeatureTracks & t) {
      used.push_back({calls.empty() ? -1 : long(calls.back().tracker), c, time, t});
    };
  h.board = [](unsigned b, unsigned c, double time, const BoardDetection & d) {
      boards.push_back({calls.empty() ? -1 : long(calls.back().tracker), b, c, time, d});
    };
}

struct Obs
{
  unsigned frame;
  float x, y;
  bool operator==(const Obs & o) const
  {
    return frame == o.frame && std::abs(x - o.x) < 0.01f && std::abs(y - o.y) < 0.01f;
  }
};
typedef std::vector<Obs> Track;
static Track obs(const FeatureTrack & t)
{
  Track o;
  for (auto & p : t.track) {o.push_back({p.frame_id, p.key_point.pt.x, p.key_point.pt.y});}
  return o;
}

// An independent tracker: keypoints of consecutive frames matched by mutual nearest descriptors that pass
// the ratio test, epipolar consistency and the displacement limit, chained into tracks.
struct RefTracker
{
  FeatureTracker::Parameters p;
  cv::Ptr<cv::Feature2D> det, des;
  cv::Mat pd;
  std::vector<cv::KeyPoint> pk;
  std::vector<int> chain;           // of each previous keypoint
  std::map<int, Track> open;
  unsigned pf = 0;
  int next = 0;
  size_t links = 0;

  explicit RefTracker(const FeatureTracker::Parameters & q)
  : p(q)
  {
    switch (p.detector) {
      case Detector::BRISK: det = cv::BRISK::create(p.threshold, 3, 1); break;
      case Detector::FAST: det = cv::FastFeatureDetector::create(p.threshold, true, cv::FastFeatureDetector::TYPE_9_16); break;
      case Detector::GFTT: det = cv::GFTTDetector::create(); break;
      case Detector::MSER: det = cv::MSER::create(); break;
      case Detector::ORB: det = cv::ORB::create(1000, 1.2f, 8, 31, 0, 2, cv::ORB::HARRIS_SCORE, 31, p.threshold); break;
      case Detector::SIFT: det = cv::SIFT::create(); break;
    }
    if (p.descriptor == Descriptor::ORB) {des = cv::ORB::create(500, 1.2f, 8, 31, 0, 2, cv::ORB::HARRIS_SCORE, 31, p.threshold);}
    else {des = cv::SIFT::create();}
  }
  std::vector<Track> frame(unsigned f, const cv::Mat & in)
  {
    cv::Mat img = in;
    if (p.down_sample) {cv::resize(in, img, cv::Size(p.down_sample_width, p.down_sample_height));}
    std::vector<cv::KeyPoint> all, ck;
    det->detect(img, all);
    // one keypoint per cell of ten pixels, cells wholly inside the image
    std::set<std::pair<int, int>> cells;
    for (auto & k : all) {
      int cx = int(k.pt.x / 10), cy = int(k.pt.y / 10);
      if (k.pt.x < 0 || k.pt.y < 0 || cx >= img.cols / 10 || cy >= img.rows / 10) {continue;}
      if (cells.insert({cx, cy}).second) {ck.push_back(k);}
    }
    if ((p.detector == Detector::SIFT) != (p.descriptor == Descriptor::SIFT)) {for (auto & k : ck) {k.octave = 0;}}
    cv::Mat cd;
    for (auto & k : ck) {k.size = std::max(k.size, 1.0f);}
    des->compute(img, ck, cd);
    cd.convertTo(cd, CV_32F);
    if (p.down_sample) {
      float sx = float(in.cols) / float(img.cols), sy = float(in.rows) / float(img.rows);
      for (auto & k : ck) {k.pt = cv::Point2f((k.pt.x + 0.5f) * sx - 0.5f, (k.pt.y + 0.5f) * sy - 0.5f);}
    }
    std::vector<Track> out;
    std::vector<int> cc(ck.size(), -1);
    if (pd.rows > 0 && cd.rows > 0) {
      auto best = [](const cv::Mat & a, const cv::Mat & b) {
          std::vector<std::vector<cv::DMatch>> m;
          cv::BFMatcher::create()->knnMatch(a, b, m, 2);
          std::vector<int> o(size_t(a.rows), -1);
          for (auto & x : m) {
            if (x.size() == 2 && !(double(x[0].distance / x[1].distance) > 0.7)) {o[size_t(x[0].queryIdx)] = x[0].trainIdx;}
          }
          return o;
        };
      auto fw = best(pd, cd), bw = best(cd, pd);
      std::vector<std::pair<int, int>> m;
      std::vector<cv::Point2f> a, b;
      for (size_t k = 0; k < fw.size(); ++k) {
        if (fw[k] >= 0 && bw[size_t(fw[k])] == int(k)) {
          m.push_back({int(k), fw[k]});
          a.push_back(pk[k].pt);
          b.push_back(ck[size_t(fw[k])].pt);
        }
      }
      std::vector<std::pair<int, int>> good;
      if (m.size() >= 10) {
        std::vector<uint8_t> mask;
        cv::findFundamentalMat(a, b, cv::FM_RANSAC, 1.0, 0.99, mask);
        double sum = 0;
        for (size_t k = 0; k < m.size(); ++k) {
          if (mask[k] == 1) {good.push_back(m[k]); sum += cv::norm(a[k] - b[k]);}
        }
        double mean = sum / double(good.size());
        std::vector<std::pair<int, int>> g2;
        for (auto & x : good) {
          if (cv::norm(pk[size_t(x.first)].pt - ck[size_t(x.second)].pt) < 3 * mean) {g2.push_back(x);}
        }
        good = g2;
      }
      for (auto & x : good) {
        int & c = chain[size_t(x.first)];
        auto & A = pk[size_t(x.first)].pt, & B = ck[size_t(x.second)].pt;
        if (c < 0) {
          c = next++;
          open[c].push_back({pf, A.x, A.y});
        }
        open[c].push_back({f, B.x, B.y});
        cc[size_t(x.second)] = c;
        ++links;
      }
      for (auto it = open.begin(); it != open.end(); ) {
        if (it->second.back().frame != f || it->second.size() >= p.max_track_length) {
          if (it->second.size() >= p.min_track_length) {out.push_back(it->second);}
          it = open.erase(it);
        } else {++it;}
      }
    }
    pd = cd;
    pk = ck;
    chain = cc;
    pf = f;
    return out;
  }
};

static Intrinsics intrinsics(Rng & R, int w, int h)
{
  Intrinsics in;
  in.f_x = R.u(0.8, 1.4) * w * 5e-6;
  in.f_y = in.f_x * R.u(0.97, 1.03);
  in.pixel_size = 5e-6;
  in.width = w;
  in.height = h;
  return in;
}

static cv::Mat canvas(Rng & R, int w, int h)
{
  cv::Mat c(h, w, CV_8UC1);
  cv::RNG r(uint64_t(R.i(1, 1 << 30)));
  r.fill(c, cv::RNG::UNIFORM, 60, 190);
  cv::GaussianBlur(c, c, cv::Size(9, 9), 3);
  int n = R.i(60, 250);
  for (int k = 0; k < n; ++k) {
    cv::Point a(R.i(0, w), R.i(0, h)), b(a.x + R.i(4, 40), a.y + R.i(4, 40));
    if (R.b(0.7)) {cv::rectangle(c, a, b, cv::Scalar(R.i(0, 255)), cv::FILLED);}
    else {cv::circle(c, a, R.i(2, 15), cv::Scalar(R.i(0, 255)), cv::FILLED);}
  }
  return c;
}

struct RefBoard
{
  unsigned id = 0;
  FiducialTracker::Parameters p;
  cv::Ptr<cv::aruco::Board> board;
  cv::Mat drawn;
  double scale = 0;                 // drawn pixels per metre
  double W = 0, H = 0;              // metres
};

// draws the board as the camera would see it at the given pose
static cv::Mat render(const RefBoard & b, const Intrinsics & in, const Mat3 & Rfc, const Vec3 & t, const cv::Mat & back)
{
  int w = int(in.width), h = int(in.height);
  std::vector<cv::Point2f> px, un;
  for (int v = 0; v < h; ++v) {for (int u = 0; u < w; ++u) {px.push_back(cv::Point2f(float(u), float(v)));}}
  cv::Mat K = (cv::Mat_<double>(3, 3) << in.f_x / in.pixel_size, 0, in.width / 2, 0, in.f_y / in.pixel_size, in.height / 2, 0, 0, 1);
  cv::Mat D = (cv::Mat_<double>(4, 1) << in.k_1, in.k_2, in.p_1, in.p_2);
  cv::undistortPoints(px, un, K, D);
  cv::Mat mx(h, w, CV_32F), my(h, w, CV_32F);
  Mat3 Rcf = Rfc.transpose();
  Vec3 o = Rcf * (-t);
  for (size_t k = 0; k < un.size(); ++k) {
    Vec3 d = Rcf * Vec3(un[k].x, un[k].y, 1);
    double s = -o.z() / d.z();
    Vec3 q = o + s * d;
    int v = int(k) / w, u = int(k) % w;
    bool ok = s > 0 && std::abs(d.z()) > 1e-9;
    mx.at<float>(v, u) = ok ? float(q.x() * b.scale - 0.5) : -1000;
    my.at<float>(v, u) = ok ? float(q.y() * b.scale - 0.5) : -1000;
  }
  cv::Mat big, img, mask, bm(b.drawn.size(), CV_8UC1, cv::Scalar(255));
  // a white margin around the board
  int mg = int(0.5 * b.p.marker_length * b.scale);
  cv::copyMakeBorder(b.drawn, big, mg, mg, mg, mg, cv::BORDER_CONSTANT, cv::Scalar(255));
  cv::copyMakeBorder(bm, bm, mg, mg, mg, mg, cv::BORDER_CONSTANT, cv::Scalar(255));
  mx += float(mg);
  my += float(mg);
  cv::remap(big, img, mx, my, cv::INTER_LINEAR, cv::BORDER_CONSTANT, cv::Scalar(0));
  cv::remap(bm, mask, mx, my, cv::INTER_NEAREST, cv::BORDER_CONSTANT, cv::Scalar(0));
  cv::Mat out = back.clone();
  img.copyTo(out, mask);
  cv::GaussianBlur(out, out, cv::Size(3, 3), 0.6);
  return out;
}

struct Cam
{
  std::unique_ptr<Camera> cam;
  unsigned id = 0;
  Intrinsics in;
  struct Feat {std::shared_ptr<FeatureTracker> t; std::unique_ptr<RefTracker> ref; FeatureTracker::Parameters p; std::set<std::pair<unsigned, int>> seen; };
  std::map<unsigned, Feat> feat;
  std::map<unsigned, std::pair<std::shared_ptr<FiducialTracker>, RefBoard>> fid;
  cv::Mat scene;
  bool color = false;
  int ox = 0, oy = 0, vx = 0, vy = 0;
  std::vector<unsigned> frames;
};

static void images(Mon & M, Rng & R, Hash & h)
{
  auto e = filter(R);
  double T0 = R.pick(std::vector<double>{0.0, 12.5, 1.7e9});
  std::vector<Cam> cams(size_t(R.i(1, 2)));
  bool boardsOn = R.b(0.5);
  unsigned nboard = unsigned(R.i(0, 5));
  // registration interleaved over cameras
  for (auto & c : cams) {
    c.in = boardsOn ? intrinsics(R, 480, 360) : intrinsics(R, R.i(12, 16) * 20, R.i(12, 14) * 18);
    if (boardsOn && R.b(0.3)) {c.in.k_1 = R.n(0.03); c.in.k_2 = R.n(0.01); c.in.p_1 = R.n(0.002); c.in.p_2 = R.n(0.002);}
    Camera::Parameters cp;
    cp.name = strf("cam%d", R.i(0, 99));
    cp.logger = lg();
    cp.ekf = e;
    cp.rate = R.u(1, 30);
    c.color = R.b(0.15);
    cp.pos_c_in_b = R.v();
    cp.ang_c_to_b = R.q();
    cp.is_extrinsic = R.b();
    cp.variance = VecX::Constant(6, R.logu(1e-4, 1e-2));
    cp.intrinsics = c.in;
    c.cam.reset(new Camera(cp));
    c.id = newSensor(M, *c.cam, cp.name);
  }
  for (auto & c : cams) {
    int nf = boardsOn ? (R.b(0.2) ? 1 : 0) : R.i(0, 2);
    for (int k = 0; k < nf; ++k) {
      FeatureTracker::Parameters p;
      p.camera_id = c.id; p.logger = lg(); p.ekf = e; p.intrinsics = c.in;
      p.detector = R.b(0.6) ? Detector::FAST : R.pick(std::vector<Detector>{Detector::GFTT, Detector::ORB, Detector::SIFT, Detector::BRISK, Detector::MSER});
      p.descriptor = R.b(0.8) && p.detector != Detector::MSER ? Descriptor::ORB : Descriptor::SIFT;
      p.matcher = R.b(0.75) ? Matcher::BRUTE_FORCE : Matcher::FLANN;
      p.threshold = R.i(10, 30);
      p.px_error = 30;
      p.min_track_length = unsigned(R.i(2, 4));
      p.max_track_length = unsigned(R.i(int(p.min_track_length), 8));
      p.min_feat_dist = 1.0;
      if (R.b(0.25)) {p.down_sample = true; p.down_sample_width = int(c.in.width * R.u(0.6, 0.9)); p.down_sample_height = int(c.in.height * R.u(0.6, 0.9));}
      auto t = std::make_shared<FeatureTracker>(p);
      newTracker(M, t->GetID());
      auto & f = c.feat[t->GetID()];
      f.t = t;
      f.p = p;
      if (p.matcher == Matcher::BRUTE_FORCE) {f.ref.reset(new RefTracker(p));}
      c.cam->AddTracker(t);
    }
    if (boardsOn) {
      RefBoard b;
      b.p.camera_id = c.id; b.p.logger = lg(); b.p.ekf = e; b.p.intrinsics = c.in;
      b.p.detector_type = R.b(0.6) ? FiducialType::CHARUCO_BOARD : FiducialType::ARUCO_BOARD;
      b.p.predefined_dict = unsigned(R.pick(std::vector<int>{0, 4, 10, 16}));
      b.p.squares_x = unsigned(R.i(3, 6)); b.p.squares_y = unsigned(R.i(3, 6));
      b.p.square_length = R.u(0.05, 0.2); b.p.marker_length = b.p.square_length * R.u(0.5, 0.75);
      b.id = b.p.id = nboard++;
      b.p.pos_f_in_l = R.v(2); b.p.ang_f_to_l = R.q();
      b.p.is_extrinsic = R.b();
      b.p.variance = VecX(6);
      for (int j = 0; j < 6; ++j) {b.p.variance[j] = R.logu(1e-2, 10);}
      auto t = std::make_shared<FiducialTracker>(b.p);
      newTracker(M, t->GetID());
      auto dict = cv::aruco::getPredefinedDictionary(cv::aruco::PREDEFINED_DICTIONARY_NAME(b.p.predefined_dict));
      int nx = int(b.p.squares_x), ny = int(b.p.squares_y);
      b.scale = 60 / b.p.square_length;
      if (b.p.detector_type == FiducialType::CHARUCO_BOARD) {
        auto q = cv::aruco::CharucoBoard::create(nx, ny, float(b.p.square_length), float(b.p.marker_length), dict);
        b.W = nx * b.p.square_length; b.H = ny * b.p.square_length;
        q->draw(cv::Size(int(std::lround(b.W * b.scale)), int(std::lround(b.H * b.scale))), b.drawn, 0, 1);
        b.board = q;
      } else {
        auto q = cv::aruco::GridBoard::create(nx, ny, float(b.p.square_length), float(b.p.marker_length), dict);
        b.W = nx * b.p.square_length + (nx - 1) * b.p.marker_length; b.H = ny * b.p.square_length + (ny - 1) * b.p.marker_length;
        // drawn marker by marker, so that only the board's geometry is used
        b.drawn = cv::Mat(int(std::lround(b.H * b.scale)), int(std::lround(b.W * b.scale)), CV_8UC1, cv::Scalar(255));
        for (size_t k = 0; k < q->ids.size(); ++k) {
          auto & o = q->objPoints[k];
          cv::Mat mk;
          cv::aruco::drawMarker(dict, q->ids[k], 60, mk, 1);
          cv::Rect at(int(std::lround(o[0].x * b.scale)), int(std::lround(o[0].y * b.scale)), 60, 60);
          at &= cv::Rect(0, 0, b.drawn.cols, b.drawn.rows);
          mk(cv::Rect(0, 0, at.width, at.height)).copyTo(b.drawn(at));
        }
        b.board = q;
      }
      c.cam->AddFiducial(t);
      c.fid[t->GetID()] = {t, b};
    }
    c.scene = canvas(R, 900, 800);
    c.ox = R.i(100, 300); c.oy = R.i(100, 300);
    c.vx = R.i(-6, 6); c.vy = R.i(-6, 6);
  }

  double t = T0, ref = 0;
  bool started = false;
  int sparse = 0;
  int n = boardsOn ? R.i(4, 10) : R.i(8, 24), links = 0, detections = 0;
  for (int k = 0; k < n; ++k) {
    Cam & c = cams[size_t(R.i(0, int(cams.size()) - 1))];
    int w = int(c.in.width), ht = int(c.in.height);
    bool late = R.b(0.05);
    double mt = late ? t - (R.b(0.3) ? R.u(0.1, 100) : R.u(0, 0.1)) : (t += R.b(0.02) ? R.u(1, 100) : R.u(0.01, 0.2));
    cv::Mat img;
    Vec3 bt = Vec3::Zero();
    Quat bq = Quat::Identity();
    if (sparse > 0) {--sparse;} else if (R.b(0.04)) {sparse = R.i(1, 3);}
    int kind = R.b(0.06) ? 0 : sparse > 0 ? 3 : R.b(0.06) ? 1 : 2;       // empty, dark, scene, sparse
    bool full = false, part = false;
    const RefBoard * shown = nullptr;
    if (kind == 1) {img = cv::Mat::zeros(ht, w, CV_8UC1);}
    if (kind == 3) {
      // a handful of features, often only one
      img = cv::Mat(ht, w, CV_8UC1, cv::Scalar(R.i(60, 200)));
      int n = R.b(0.6) ? 1 : R.i(2, 4);
      for (int q = 0; q < n; ++q) {
        cv::Point at(R.i(w / 4, 3 * w / 4), R.i(ht / 4, 3 * ht / 4));
        if (R.b()) {cv::circle(img, at, R.i(1, 5), cv::Scalar(R.b() ? 255 : 0), -1);}
        else {cv::rectangle(img, cv::Rect(at.x, at.y, R.i(1, 9), R.i(1, 9)), cv::Scalar(R.b() ? 255 : 0), -1);}
      }
    }
    if (kind == 2) {
      if (R.b(0.08)) {c.scene = canvas(R, 900, 800);}
      if (R.b(0.1)) {c.vx = R.i(-9, 9); c.vy = R.i(-9, 9);}
      c.ox += c.vx; c.oy += c.vy;
      if (c.ox < 0 || c.ox + w >= 900) {c.vx = -c.vx; c.ox = std::min(std::max(c.ox, 0), 900 - w - 1);}
      if (c.oy < 0 || c.oy + ht >= 800) {c.vy = -c.vy; c.oy = std::min(std::max(c.oy, 0), 800 - ht - 1);}
      img = c.scene(cv::Rect(c.ox, c.oy, w, ht)).clone();
      if (!c.fid.empty() && R.b(0.8)) {
        auto & b = c.fid.begin()->second.second;
        // tilted, filling a good part of the image; the board's z axis points away from the camera
        bq = ref::qmul(ref::qexp(Vec3(R.u(0.2, 0.5) * (R.b() ? 1 : -1), R.u(0.2, 0.5) * (R.b() ? 1 : -1), 0)), ref::qexp(Vec3(0, 0, R.u(-3, 3))));
        double f = c.in.f_x / c.in.pixel_size, z = f * std::max(b.W / (0.5 * w), b.H / (0.5 * ht)) * R.u(1.0, 1.3);
        Vec3 centre(R.u(-0.06, 0.06) * z * w / f, R.u(-0.06, 0.06) * z * ht / f, z);
        bt = centre - ref::rot(bq) * Vec3(b.W / 2, b.H / 2, 0);
        cv::Mat grey(ht, w, CV_8UC1, cv::Scalar(R.i(120, 200)));
        img = render(b, c.in, ref::rot(bq), bt, R.b(0.5) ? grey : img);
        full = true;
        shown = &b;
        if (R.b(0.3)) {
          // hide a part of the board
          int a = R.i(0, 3), cut = R.i(30, 90);
          cv::Rect r = a == 0 ? cv::Rect(0, 0, w, ht * cut / 100) : a == 1 ? cv::Rect(0, 0, w * cut / 100, ht) :
            a == 2 ? cv::Rect(0, ht - ht * cut / 100, w, ht * cut / 100) : cv::Rect(w - w * cut / 100, 0, w * cut / 100, ht);
          img(r) = cv::Scalar(128);
          full = false;
          part = true;
        }
      }
    }
    if (c.color && !img.empty()) {
      cv::Mat o;
      cv::cvtColor(img, o, cv::COLOR_GRAY2BGR);
      img = o;
      M.ev("color_frames");
    }
    if (kind == 3) {M.ev("sparse_frames");}
    CameraMessage msg(img);
    msg.sensor_id = c.id;
    msg.sensor_type = SensorType::Camera;
    msg.time = mt;
    cv::Mat orig = img.clone();
    std::string ctx = strf("frame %d of camera %u, %zu feature trackers, %zu boards, kind %d", k, c.id, c.feat.size(), c.fid.size(), kind);
    Snap pre(*e);
    arm();
    c.cam->Callback(msg);
    M.ev("frames");
    h.add(mt).add(uint64_t(kind));

    // dispatch
    std::multiset<unsigned> want, got;
    if (kind != 0) {
      for (auto & f : c.feat) {want.insert(f.first);}
      for (auto & f : c.fid) {want.insert(f.first);}
    }
    for (auto & x : calls) {got.insert(x.tracker);}
    M.check(got == want, "frame-dispatch", ctx + strf(": %zu trackers called, expected %zu", got.size(), want.size()));
    if (want.empty()) {
      M.check(e->GetCurrentTime() == pre.t && cov(*e).rows() == pre.P.rows() && (cov(*e) - pre.P).cwiseAbs().maxCoeff() == 0 && used.empty() && boards.empty(),
        "ignored-frame-has-effect", ctx);
      M.ev("ignored_frames");
      continue;
    }
    unsigned frame = calls.empty() ? 0 : calls[0].frame;
    for (auto & x : calls) {
      M.check(x.frame == frame, "frame-number", ctx);
      M.check(x.time == mt, "frame-time", ctx + strf(" %.17g", x.time));
      M.check(x.img.size() == orig.size() && x.img.type() == orig.type() && cv::norm(x.img, orig, cv::NORM_INF) == 0, "frame-image", ctx);
    }
    M.check(long(frame) > lastFrame, "frame-number", ctx + strf(" %u after %ld", frame, lastFrame));
    lastFrame = std::max(lastFrame, long(frame));
    c.frames.push_back(frame);
    if (!started) {ref = mt;}
    started = true;
    double local = mt - ref;
    M.near(e->GetCurrentTime(), std::max(pre.t, local), 1e-6, "frame-prediction", ctx);
    if (e->m_state.aug_states.count(c.id) && !e->m_state.aug_states[c.id].empty()) {
      M.check(e->m_state.aug_states[c.id].back().frame_id <= frame, "clone-frame", ctx);
    }
    for (auto & x : cams) {
      if (&x != &c && e->m_state.aug_states.count(x.id)) {
        for (auto & a : e->m_state.aug_states[x.id]) {M.check(a.frame_id != frame, "clone-frame", ctx);}
      }
    }

    // feature tracks
    for (auto & u : used) {
      M.check(c.feat.count(unsigned(u.tracker)) && u.cam == c.id && u.time == mt && !u.tracks.empty(), "tracks-origin",
        ctx + strf(": from tracker %ld, camera %u", u.tracker, u.cam));
    }
    for (auto & f : c.feat) {
      std::vector<Track> out;
      int nUsed = 0;
      for (auto & u : used) {
        if (u.tracker != long(f.first)) {continue;}
        ++nUsed;
        for (auto & tr : u.tracks) {
          out.push_back(obs(tr));
          M.check(!tr.true_feature_position.allFinite(), "track-truth", ctx);
          for (size_t j = 0; j < tr.track.size(); ++j) {
            auto & p = tr.track[j];
            M.check(p.key_point.class_id == tr.track[0].key_point.class_id && p.key_point.class_id >= 0, "track-identity", ctx);
            M.check(f.second.seen.insert({p.frame_id, p.key_point.class_id}).second, "observation-used-twice", ctx);
            size_t at = size_t(std::find(c.frames.begin(), c.frames.end(), p.frame_id) - c.frames.begin());
            M.check(at < c.frames.size(), "track-frame", ctx);
            if (j && at < c.frames.size()) {
              M.check(at > 0 && c.frames[at - 1] == tr.track[j - 1].frame_id, "track-order", ctx);
              M.check(p.frame_time >= tr.track[j - 1].frame_time, "track-time", ctx);
            }
            M.check(p.key_point.pt.x >= -1 && p.key_point.pt.y >= -1 && p.key_point.pt.x <= w && p.key_point.pt.y <= ht, "track-pixel", ctx);
          }
          M.check(tr.track.size() >= f.second.p.min_track_length && tr.track.size() <= f.second.p.max_track_length, "track-length",
            ctx + strf(": %zu", tr.track.size()));
          M.check(tr.track.size() == f.second.p.max_track_length || tr.track.back().frame_id < frame, "track-still-alive", ctx);
          M.ev("tracks");
        }
      }
      M.check(nUsed <= 1, "tracks-handed-over-twice", ctx);
      if (f.second.ref) {
        auto exp = f.second.ref->frame(frame, orig);
        auto miss = exp;
        size_t extra = 0;
        for (auto & o : out) {
          auto it = std::find(miss.begin(), miss.end(), o);
          if (it == miss.end()) {++extra;} else {miss.erase(it);}
        }
        M.check(extra == 0, "unexpected-track", ctx + strf(": %zu of %zu tracks, expected %zu", extra, out.size(), exp.size()));
        M.check(miss.empty(), "missing-track", ctx + strf(": %zu of %zu", miss.size(), exp.size()));
        links += int(f.second.ref->links);
        M.ev("compared_tracks", exp.size());
      }
    }

    // boards
    for (auto & b : boards) {
      auto it = c.fid.find(unsigned(b.tracker));
      if (!M.check(it != c.fid.end() && b.cam == c.id && b.id == it->second.second.id && b.time == mt && b.d.frame_id == frame, "board-origin", ctx)) {continue;}
      auto & p = it->second.second.p;
      M.nearM(b.d.pos_error, p.variance.head(3), 0, "board-variance", ctx);
      M.nearM(b.d.ang_error, p.variance.tail(3), 0, "board-variance", ctx);
      M.check(b.d.pos_f_in_c.allFinite() && b.d.ang_f_to_c.coeffs().allFinite(), "board-finite", ctx);
      if (!M.check(full || part, "board-not-shown", ctx + vs(b.d.pos_f_in_c))) {continue;}
      ++detections;
      {
        // wherever it is, it has to be in front of the camera, about where the true board is seen
        Vec3 q = b.d.pos_f_in_c + ref::rot(b.d.ang_f_to_c) * Vec3(shown->W / 2, shown->H / 2, 0);
        Vec3 s = bt + ref::rot(bq) * Vec3(shown->W / 2, shown->H / 2, 0);
        M.check(q.z() > 0, "board-behind", ctx + vs(q));
        M.near((q / q.z() - s / s.z()).norm(), 0, 0.5, "board-direction", ctx + vs(q) + " true " + vs(s));
        M.ev("board_detections");
      }
    }
    // the pose that OpenCV finds in this image, if any
    for (auto & f : c.fid) {
      auto & b = f.second.second;
      cv::Mat K = (cv::Mat_<double>(3, 3) << c.in.f_x / c.in.pixel_size, 0, c.in.width / 2, 0, c.in.f_y / c.in.pixel_size, c.in.height / 2, 0, 0, 1);
      cv::Mat D = (cv::Mat_<double>(4, 1) << c.in.k_1, c.in.k_2, c.in.p_1, c.in.p_2);
      std::vector<std::vector<cv::Point2f>> mc;
      std::vector<int> mi;
      cv::aruco::detectMarkers(orig, b.board->dictionary, mc, mi, cv::makePtr<cv::aruco::DetectorParameters>());
      bool valid = false;
      cv::Vec3d r, tv;
      if (!mi.empty()) {
        if (b.p.detector_type == FiducialType::CHARUCO_BOARD) {
          auto cb = b.board.staticCast<cv::aruco::CharucoBoard>();
          std::vector<cv::Point2f> cc;
          std::vector<int> ci;
          cv::aruco::interpolateCornersCharuco(mc, mi, orig, cb, cc, ci, K, D);
          if (!ci.empty()) {valid = cv::aruco::estimatePoseCharucoBoard(cc, ci, cb, K, D, r, tv);}
        } else {
          valid = cv::aruco::estimatePoseBoard(mc, mi, b.board, K, D, r, tv) != 0;
        }
      }
      size_t n = 0;
      for (auto & x : boards) {
        if (x.tracker != long(f.first)) {continue;}
        ++n;
        if (!valid) {continue;}
        Vec3 T(tv[0], tv[1], tv[2]), w(r[0], r[1], r[2]);
        M.near((x.d.pos_f_in_c - T).norm() / T.norm(), 0, 1e-4, "board-pose", ctx + vs(x.d.pos_f_in_c) + " expected " + vs(T));
        M.near(ref::qlog(ref::qmul(x.d.ang_f_to_c, ref::qinv(ref::qexp(w)))).norm(), 0, 1e-3, "board-pose", ctx);
      }
      M.check(n == size_t(valid), "board-missed", ctx + strf(" %zu detections, pose found: %d, %zu markers", n, valid, mi.size()));
      M.ev(valid ? "boards_expected" : mi.empty() ? "boards_absent" : "boards_without_pose");
      if (valid && full && mi.size() == b.board->ids.size() && n == 1) {
        // all markers seen: the board has to be where it was drawn
        double worst = 0;
        for (int k = 0; k < 4; ++k) {
          Vec3 q((k & 1) * b.W, (k >> 1) * b.H, 0);
          Vec3 g = boards[0].d.pos_f_in_c + ref::rot(boards[0].d.ang_f_to_c) * q, w = bt + ref::rot(bq) * q;
          worst = std::max(worst, (g / g.z() - w / w.z()).norm() * c.in.f_x / c.in.pixel_size);
        }
        M.near(worst, 0, 12, "board-in-image", ctx);
        M.ev("boards_full");
      }
    }
    if (!cov(*e).allFinite()) {break;}
  }
  M.done(h.h, links > 0 || detections > 0, strf("%d frames, %zu cameras, %d matches, %d detections", n, cams.size(), links, detections));
}

static Eigen::MatrixXd blockOf(EKF & e, char kind, unsigned id)
{
  for (auto & b : layout(e.m_state)) {if (b.kind == kind && b.id == id) {return cov(e).block(b.start, b.start, b.size, b.size);}}
  return MatX(0, 0);
}

// sensors against a second filter driven by direct calls
static void sensors(Mon & M, Rng & R, Hash & h)
{
  auto mk = [&](bool root) {
      EKF::Parameters p;
      p.debug_logger = lg();
      p.use_root_covariance = root;
      p.augmenting_type = AugmentationType::ALL;
      p.gps_init_type = GpsInitType::CONSTANT;
      return std::make_shared<EKF>(p);
    };
  bool root = R.b();
  auto a = mk(root), b = mk(root);
  std::map<unsigned, std::unique_ptr<IMU>> imus;
  std::map<unsigned, std::unique_ptr<ImuUpdater>> imuU;
  std::map<unsigned, std::unique_ptr<GPS>> gpss;
  std::map<unsigned, std::unique_ptr<GpsUpdater>> gpsU;
  int n = R.i(1, 6);
  std::vector<std::pair<char, unsigned>> all;
  for (int k = 0; k < n; ++k) {
    int kind = R.i(0, 2);
    std::string name = strf("s%d", R.i(0, 9));
    if (kind == 0) {
      IMU::Parameters p;
      p.name = name; p.logger = lg(); p.ekf = a; p.rate = R.u(1, 500);
      p.is_extrinsic = R.b(); p.is_intrinsic = R.b();
      p.pos_i_in_b = R.v(); p.ang_i_to_b = R.q(); p.acc_bias = R.v(0.1); p.omg_bias = R.v(0.1);
      p.pos_stability = R.logu(1e-9, 1e-2); p.ang_stability = R.logu(1e-9, 1e-2); p.acc_bias_stability = R.logu(1e-9, 1e-2);
      p.omg_bias_stability = R.logu(1e-9, 1e-2);
      p.variance = VecX(12);
      for (int j = 0; j < 12; ++j) {p.variance[j] = R.b(0.1) ? 0.0 : R.logu(1e-9, 1);}
      std::unique_ptr<IMU> s(new IMU(p));
      unsigned id = newSensor(M, *s, name);
      auto it = a->m_state.imu_states.find(id);
      if (!M.check(it != a->m_state.imu_states.end(), "sensor-registration", "IMU")) {return;}
      auto & x = it->second;
      M.check(x.GetIsExtrinsic() == p.is_extrinsic && x.GetIsIntrinsic() == p.is_intrinsic && x.pos_i_in_b == p.pos_i_in_b &&
        x.ang_i_to_b.coeffs() == p.ang_i_to_b.coeffs() && x.acc_bias == p.acc_bias && x.omg_bias == p.omg_bias && x.pos_stability == p.pos_stability &&
        x.ang_stability == p.ang_stability && x.acc_bias_stability == p.acc_bias_stability && x.omg_bias_stability == p.omg_bias_stability,
        "sensor-registration", "IMU parameters");
      VecX v = p.variance.cwiseMax(1e-6);
      if (p.is_extrinsic) {M.nearM(blockOf(*a, 'I', id), MatX(v.head(6).asDiagonal()), 1e-12, "sensor-variance", "IMU extrinsics");}
      if (p.is_intrinsic) {M.nearM(blockOf(*a, 'N', id), MatX(v.tail(6).asDiagonal()), 1e-12, "sensor-variance", "IMU intrinsics");}
      ImuState st;
      st.SetIsExtrinsic(p.is_extrinsic); st.SetIsIntrinsic(p.is_intrinsic);
      st.pos_i_in_b = p.pos_i_in_b; st.ang_i_to_b = p.ang_i_to_b; st.acc_bias = p.acc_bias; st.omg_bias = p.omg_bias;
      st.pos_stability = p.pos_stability; st.ang_stability = p.ang_stability; st.acc_bias_stability = p.acc_bias_stability; st.omg_bias_stability = p.omg_bias_stability;
      MatX P = p.is_extrinsic && p.is_intrinsic ? MatX(v.asDiagonal()) : p.is_extrinsic ? MatX(v.head(6).asDiagonal()) : MatX(v.tail(6).asDiagonal());
      b->RegisterIMU(id, st, P);
      imuU[id].reset(new ImuUpdater(id, p.is_extrinsic, p.is_intrinsic, "", 0.0, lg()));
      imus[id] = std::move(s);
      all.push_back({'I', id});
    } else if (kind == 1) {
      GPS::Parameters p;
      p.name = name; p.logger = lg(); p.ekf = a; p.rate = R.u(1, 20);
      p.is_extrinsic = R.b(); p.pos_a_in_b = R.v(); p.pos_stability = R.logu(1e-9, 1e-2);
      p.variance = R.uv(1e-3, 2);
      std::unique_ptr<GPS> s(new GPS(p));
      unsigned id = newSensor(M, *s, name);
      auto it = a->m_state.gps_states.find(id);
      if (!M.check(it != a->m_state.gps_states.end(), "sensor-registration", "GPS")) {return;}
      M.check(it->second.GetIsExtrinsic() == p.is_extrinsic && it->second.pos_a_in_b == p.pos_a_in_b && it->second.pos_stability == p.pos_stability,
        "sensor-registration", "GPS parameters");
      if (p.is_extrinsic) {M.nearM(blockOf(*a, 'G', id), MatX(p.variance.asDiagonal()), 1e-12, "sensor-variance", "GPS");}
      GpsState st;
      st.SetIsExtrinsic(p.is_extrinsic); st.pos_a_in_b = p.pos_a_in_b; st.pos_stability = p.pos_stability;
      b->RegisterGPS(id, st, Mat3(p.variance.asDiagonal()));
      gpsU[id].reset(new GpsUpdater(id, p.is_extrinsic, "", 0.0, lg()));
      gpss[id] = std::move(s);
      all.push_back({'G', id});
    } else {
      Camera::Parameters p;
      p.name = name; p.logger = lg(); p.ekf = a; p.rate = R.u(1, 20);
      p.is_extrinsic = R.b(); p.pos_c_in_b = R.v(); p.ang_c_to_b = R.q(); p.pos_stability = R.logu(1e-9, 1e-2); p.ang_stability = R.logu(1e-9, 1e-2);
      p.variance = VecX(6);
      for (int j = 0; j < 6; ++j) {p.variance[j] = R.b(0.1) ? 0.0 : R.logu(1e-9, 1);}
      p.intrinsics = intrinsics(R, 640, 480);
      p.intrinsics.k_1 = R.n(0.1);
      std::unique_ptr<Camera> s(new Camera(p));
      unsigned id = newSensor(M, *s, name);
      auto it = a->m_state.cam_states.find(id);
      if (!M.check(it != a->m_state.cam_states.end(), "sensor-registration", "camera")) {return;}
      auto & x = it->second;
      M.check(x.GetIsExtrinsic() == p.is_extrinsic && x.pos_c_in_b == p.pos_c_in_b && x.ang_c_to_b.coeffs() == p.ang_c_to_b.coeffs() &&
        x.pos_stability == p.pos_stability && x.ang_stability == p.ang_stability && x.rate == p.rate && x.intrinsics.f_x == p.intrinsics.f_x &&
        x.intrinsics.f_y == p.intrinsics.f_y && x.intrinsics.k_1 == p.intrinsics.k_1 && x.intrinsics.width == p.intrinsics.width &&
        x.intrinsics.height == p.intrinsics.height && x.intrinsics.pixel_size == p.intrinsics.pixel_size, "sensor-registration", "camera parameters");
      VecX v = p.variance.cwiseMax(1e-6);
      if (p.is_extrinsic) {M.nearM(blockOf(*a, 'C', id), MatX(v.asDiagonal()), 1e-12, "sensor-variance", "camera");}
      CamState st = x;
      b->RegisterCamera(id, st, MatX(v.asDiagonal()));
    }
  }
  double T0 = R.pick(std::vector<double>{0.0, 5.0, 1.7e9}), t = T0;
  int m = R.i(3, 20);
  for (int k = 0; k < m && !all.empty(); ++k) {
    t += R.u(0, 0.1);
    auto & s = R.pick(all);
    if (s.first == 'I') {
      ImuMessage g;
      g.sensor_id = s.second; g.sensor_type = SensorType::IMU; g.time = t;
      g.acceleration = ref::G + R.v(0.3); g.angular_rate = R.v(0.2);
      g.acceleration_covariance = R.spd(3, 1e-2); g.angular_rate_covariance = R.spd(3, 1e-3);
      imus[s.second]->Callback(g);
      imuU[s.second]->UpdateEKF(*b, t, g.acceleration, g.acceleration_covariance, g.angular_rate, g.angular_rate_covariance);
    } else {
      GpsMessage g;
      g.sensor_id = s.second; g.sensor_type = SensorType::GPS; g.time = t;
      g.gps_lla = Vec3(40 + R.n(1e-4), -75 + R.n(1e-4), 100 + R.n(5)); g.pos_covariance = R.spd(3, 1);
      gpss[s.second]->Callback(g);
      gpsU[s.second]->UpdateEKF(*b, t, g.gps_lla, g.pos_covariance);
    }
    std::string ctx = strf("callback %d, %c %u", k, s.first, s.second);
    M.check(a->GetCurrentTime() == b->GetCurrentTime(), "callback-effect", ctx);
    sameState(M, a->m_state, b->m_state, 1e-12, "callback-effect", ctx);
    M.relM(cov(*a), cov(*b), 1e-12, "callback-effect", ctx);
    M.ev("callbacks");
    h.add(t).add(uint64_t(s.second));
  }
  // time order of messages
  std::vector<std::shared_ptr<SensorMessage>> ms;
  for (int k = R.i(0, 40); k > 0; --k) {
    auto g = std::make_shared<SensorMessage>();
    g->time = R.b(0.3) ? double(R.i(0, 3)) : R.u(-1, 4);
    ms.push_back(g);
  }
  for (auto & x : ms) {for (auto & y : ms) {M.check(MessageCompare(x, y) == (x->time < y->time), "message-order", "");}}
  M.done(h.h, !all.empty(), strf("%d sensors, %d callbacks", n, m));
}

// simulated cameras: what is generated reaches the tracker it was generated for, once
static void simulated(Mon & M, Rng & R, Hash & h)
{
  auto mk = [&] {
      EKF::Parameters p;
      p.debug_logger = lg();
      p.augmenting_type = AugmentationType::ALL;
      auto e = std::make_shared<EKF>(p);
      e->SetMaxTrackLength(20);
      return e;
    };
  auto e = mk();
  auto truth = std::make_shared<TruthEngineCyclic>(R.uv(0.05, 0.5), R.uv(0.05, 0.5), R.v(1), R.v(0.3), R.u(-1, 1), R.u(-0.3, 0.3), 0.0, 4.0, lg());
  SimRNG::SetSeed(unsigned(R.i(1, 1 << 30)));
  struct C
  {
    std::shared_ptr<SimCamera> cam;
    std::set<unsigned> feat, fid;
    std::map<unsigned, unsigned> boardId;
    std::vector<std::shared_ptr<SimCameraMessage>> msgs;
  };
  std::vector<C> cams(size_t(R.i(1, 3)));
  std::set<unsigned> frames;
  unsigned nb = 0;
  for (auto & c : cams) {
    SimCamera::Parameters p;
    p.no_errors = true;
    p.cam_params.name = "c";
    p.cam_params.rate = R.u(1, 5);
    p.cam_params.logger = lg();
    p.cam_params.ekf = e;
    p.cam_params.pos_c_in_b = R.v(0.2);
    p.cam_params.ang_c_to_b = R.q();
    c.cam = std::make_shared<SimCamera>(p, truth);
    unsigned cid = newSensor(M, *c.cam, "c");
    for (int k = R.i(0, 2); k > 0; --k) {
      SimFeatureTracker::Parameters tp;
      tp.feature_count = unsigned(R.i(5, 30));
      tp.tracker_params.camera_id = cid; tp.tracker_params.logger = lg(); tp.tracker_params.ekf = e; tp.tracker_params.px_error = 20;
      tp.tracker_params.min_track_length = unsigned(R.i(2, 3));
      tp.tracker_params.max_track_length = unsigned(R.i(3, 8));
      auto t = std::make_shared<SimFeatureTracker>(tp, truth);
      newTracker(M, t->GetID());
      c.feat.insert(t->GetID());
      c.cam->AddTracker(t);
    }
    for (int k = R.i(0, 2); k > 0; --k) {
      SimFiducialTracker::Parameters fp;
      fp.t_vec_error = R.uv(0.5, 1); fp.r_vec_error = R.uv(0.1, 0.3);
      fp.fiducial_params.detector_type = R.b() ? FiducialType::ARUCO_BOARD : FiducialType::CHARUCO_BOARD;
      fp.fiducial_params.squares_x = 5; fp.fiducial_params.squares_y = 7; fp.fiducial_params.square_length = 0.1; fp.fiducial_params.marker_length = 0.05;
      fp.fiducial_params.camera_id = cid; fp.fiducial_params.logger = lg(); fp.fiducial_params.ekf = e; fp.fiducial_params.id = nb++;
      fp.fiducial_params.pos_f_in_l = R.v(2); fp.fiducial_params.ang_f_to_l = R.q();
      auto t = std::make_shared<SimFiducialTracker>(fp, truth);
      newTracker(M, t->GetID());
      c.fid.insert(t->GetID());
      c.boardId[t->GetID()] = fp.fiducial_params.id;
      c.cam->AddFiducial(t);
    }
  }
  for (auto & c : cams) {
    c.msgs = c.cam->GenerateMessages();
    long prev = -1;
    for (auto & m : c.msgs) {
      M.check(m->sensor_id == c.cam->GetId() && m->sensor_type == SensorType::Camera, "message-origin", "");
      M.check(frames.insert(m->frame_id).second && long(m->frame_id) > prev, "sim-frame-number", strf("frame %u after %ld", m->frame_id, prev));
      prev = m->frame_id;
      std::multiset<unsigned> a, b;
      for (auto & x : m->feature_track_messages) {
        a.insert(x->tracker_id);
        M.check(x->sensor_id == c.cam->GetId() && x->time == m->time, "message-origin", "feature tracks");
        for (auto & t : x->feature_tracks) {for (auto & p : t.track) {M.check(p.frame_id <= m->frame_id, "track-frame", "");}}
      }
      for (auto & x : m->fiducial_track_messages) {
        b.insert(x->tracker_id);
        M.check(x->sensor_id == c.cam->GetId() && x->time == m->time && x->board_detection.frame_id == m->frame_id, "message-origin", "board");
      }
      M.check(a == std::multiset<unsigned>(c.feat.begin(), c.feat.end()) && b == std::multiset<unsigned>(c.fid.begin(), c.fid.end()), "frame-content",
        strf("%zu and %zu messages", a.size(), b.size()));
    }
  }
  // callbacks, cameras interleaved
  std::vector<std::pair<C *, std::shared_ptr<SimCameraMessage>>> all;
  for (auto & c : cams) {for (auto & m : c.msgs) {all.push_back({&c, m});}}
  std::stable_sort(all.begin(), all.end(), [](const std::pair<C *, std::shared_ptr<SimCameraMessage>> & a, const std::pair<C *, std::shared_ptr<SimCameraMessage>> & b) {
      return a.second->time < b.second->time;
    });
  double T0 = all.empty() ? 0 : all[0].second->time;
  int used_n = 0;
  for (auto & x : all) {
    auto & m = *x.second;
    std::string ctx = strf("frame %u of camera %u", m.frame_id, x.first->cam->GetId());
    arm();
    x.first->cam->Callback(m);
    size_t want = 0;
    for (auto & f : m.feature_track_messages) {want += !f->feature_tracks.empty();}
    M.check(calls.empty(), "sim-image", ctx);
    M.check(used.size() == want && boards.size() == m.fiducial_track_messages.size(), "sim-dispatch",
      ctx + strf(": %zu and %zu updates, expected %zu and %zu", used.size(), boards.size(), want, m.fiducial_track_messages.size()));
    std::multiset<unsigned> gb, wb;
    for (auto & b : boards) {
      gb.insert(b.id);
      M.check(b.cam == x.first->cam->GetId() && b.time == m.time, "sim-dispatch", ctx);
      bool found = false;
      for (auto & f : m.fiducial_track_messages) {
        found = found || (x.first->boardId[f->tracker_id] == b.id && f->board_detection.pos_f_in_c == b.d.pos_f_in_c &&
          f->board_detection.ang_f_to_c.coeffs() == b.d.ang_f_to_c.coeffs() && f->board_detection.pos_error == b.d.pos_error &&
          f->board_detection.ang_error == b.d.ang_error);
      }
      M.check(found, "sim-detection-content", ctx);
    }
    for (auto & f : m.fiducial_track_messages) {wb.insert(x.first->boardId[f->tracker_id]);}
    M.check(gb == wb, "sim-dispatch", ctx);
    for (auto & u : used) {
      M.check(u.cam == x.first->cam->GetId() && u.time == m.time, "sim-dispatch", ctx);
      int same = 0;
      for (auto & f : m.feature_track_messages) {
        if (f->feature_tracks.size() != u.tracks.size() || u.tracks.empty()) {continue;}
        bool eq = true;
        for (size_t k = 0; eq && k < u.tracks.size(); ++k) {eq = obs(u.tracks[k]) == obs(f->feature_tracks[k]);}
        same += eq;
      }
      M.check(same >= 1, "sim-track-content", ctx);
      ++used_n;
    }
    auto & cl = e->m_state.aug_states[x.first->cam->GetId()];
    M.check(!cl.empty() && cl.back().frame_id == m.frame_id, "clone-frame", ctx);
    M.near(e->GetCurrentTime(), m.time - T0, 1e-9, "frame-prediction", ctx);
    M.ev("sim_frames");
    h.add(m.time);
    if (!cov(*e).allFinite()) {break;}
  }
  M.done(h.h, used_n > 0, strf("%zu simulated cameras, %zu frames", cams.size(), all.size()));
}

void run_case(Mon & M, Rng & R)
{
  Hash h;
  // the hooks refer to nothing outside a case
  struct Off {~Off() {monitor_hooks::Get() = monitor_hooks::Hooks();}} off;
  double x = R.u();
  if (x < 0.55) {images(M, R, h);} else if (x < 0.8) {sensors(M, R, h);} else {simulated(M, R, h);}
}
