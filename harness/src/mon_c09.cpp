// C09: rotation conversions.
#include "mon.hpp"
#include "ref.hpp"
#include "utility/type_helper.hpp"
#include "utility/math_helper.hpp"

static Vec3 rotvec(Rng & R, int & cls)
{
  Vec3 ax = R.v();
  if (R.b(0.3)) {ax = Vec3::Zero(); ax[R.i(0, 2)] = R.b() ? 1 : -1;}
  ax.normalize();
  cls = R.i(0, 6);
  double a = 0;
  switch (cls) {
    case 0: a = 0; break;
    case 1: a = R.logu(1e-16, 1e-8); break;
    case 2: a = R.logu(1e-8, 1e-3); break;
    case 3: a = R.u(0, M_PI); break;
    case 4: a = M_PI - R.logu(1e-15, 1e-3); break;
    case 5: a = M_PI; break;
    case 6: a = R.u(M_PI, 6 * M_PI); break;
  }
  return ax * a;
}
static void proper(Mon & M, const Quat & q, const std::string & k)
{
  M.near(q.coeffs().norm(), 1.0, 1e-12, k + "-unit");
}

void run_case(Mon & M, Rng & R)
{
  for (int rep = 0; rep < 40; ++rep) {
    int cls;
    Vec3 v = rotvec(R, cls);
    std::string ctx = vs(v);
    Quat q = RotVecToQuat(v);
    proper(M, q, "rotvec-to-quat");
    M.quatNear(q, ref::qexp(v), 1e-9, "rotvec-to-quat", ctx);
    Vec3 back = QuatToRotVec(q);
    M.check(back.allFinite() && back.norm() <= M_PI + 1e-9, "rotvec-range", ctx);
    if (v.norm() < M_PI - 1e-7) {M.nearM(back, v, 2e-9, "rotvec-roundtrip", ctx);}
    M.quatNear(ref::qexp(back), q, 2e-9, "rotvec-same-rotation", ctx);
    // both signs of a quaternion are the same rotation
    Quat r = R.b(0.5) ? R.q() : ref::qexp(v);
    if (R.b()) {r.coeffs() = -r.coeffs();}
    Vec3 rv = QuatToRotVec(r);
    M.check(rv.allFinite() && rv.norm() <= M_PI + 1e-9, "rotvec-range", qs(r));
    M.quatNear(ref::qexp(rv), r, 2e-9, "quat-to-rotvec", qs(r));
    Quat rr = RotVecToQuat(rv);
    M.quatNear(rr, r, 2e-9, "quat-roundtrip", qs(r));

    // Rodrigues vectors (OpenCV)
    cv::Vec3d rod = QuatToRodrigues(r);
    Vec3 re(rod[0], rod[1], rod[2]);
    M.check(re.allFinite() && re.norm() <= M_PI + 1e-6, "rodrigues-range", qs(r));
    double ang = ref::qlog(r).norm();
    // OpenCV flushes the sine of the angle to zero below 1e-5
    double rt = (ang < 2e-5 || ang > M_PI - 2e-5) ? 2e-5 : 1e-8;
    M.quatNear(ref::qexp(re), r, rt, "quat-to-rodrigues", qs(r));
    cv::Vec3d cvv(v.x(), v.y(), v.z());
    Quat fromrod = RodriguesToQuat(cvv);
    proper(M, fromrod, "rodrigues-to-quat");
    M.quatNear(fromrod, ref::qexp(v), 1e-8, "rodrigues-to-quat", ctx);
    cv::Vec3d rod2 = rod;
    M.quatNear(RodriguesToQuat(rod2), r, rt, "rodrigues-roundtrip", qs(r));
    Vec3 ce = CvVectorToEigen(cvv);
    M.nearM(ce, v, 0, "cv-vector", ctx);

    // roll, pitch, yaw
    Vec3 e = R.b(0.2) ? Vec3(R.u(-7, 7), (R.b() ? 1 : -1) * M_PI / 2, R.u(-7, 7)) : R.uv(-7, 7);
    Quat qe = EigVecToQuat(e);
    proper(M, qe, "rpy");
    Mat3 w = (Eigen::AngleAxisd(e[2], Vec3::UnitZ()).toRotationMatrix() *
      Eigen::AngleAxisd(e[1], Vec3::UnitY()).toRotationMatrix() * Eigen::AngleAxisd(e[0], Vec3::UnitX()).toRotationMatrix());
    M.nearM(ref::rot(qe), w, 1e-12, "rpy", vs(e));

    // lists of numbers
    std::vector<double> l{R.n(), R.n(), R.n(), R.n()};
    double sc = R.logu(1e-3, 1e3);
    for (auto & x : l) {x *= sc;}
    Quat ql = StdToEigQuat(l);
    proper(M, ql, "list-to-quat");
    Eigen::Vector4d lw(l[0], l[1], l[2], l[3]);
    lw.normalize();
    M.quatNear(ql, Quat(lw[0], lw[1], lw[2], lw[3]), 1e-12, "list-to-quat");
    std::vector<double> vl(size_t(R.i(1, 18)));
    for (auto & x : vl) {x = R.n(sc);}
    VecX ev = StdToEigVec(vl);
    M.check(ev.size() == int(vl.size()), "list-to-vector");
    for (int k = 0; k < ev.size() && k < int(vl.size()); ++k) {M.near(ev[k], vl[size_t(k)], 0, "list-to-vector");}
    for (int bad : {0, 3, 5}) {
      std::vector<double> x(size_t(bad), 0.3);
      M.quatNear(StdToEigQuat(x), Quat(1, 0, 0, 0), 1e-15, "list-to-quat-default");
    }

    // matrices
    Mat3 em = R.m(3, 3);
    cv::Mat cm(3, 3, CV_64F);
    EigenMatrixToCv(em, cm);
    Mat3 eb;
    CvMatrixToEigen(cm, eb);
    for (int i = 0; i < 3; ++i) {for (int j = 0; j < 3; ++j) {M.near(cm.at<double>(i, j), em(i, j), 0, "eigen-to-cv");}}
    M.nearM(eb, em, 0, "cv-to-eigen");
    Vec3 a = R.v(), b = R.v();
    M.nearM(SkewSymmetric(a) * b, a.cross(b), 1e-14 * (1 + a.norm() * b.norm()), "skew");
    M.nearM(SkewSymmetric(a) + SkewSymmetric(a).transpose(), Mat3::Zero(), 0, "skew");

    // exp(phi + d) = exp(phi) exp(J d) + O(d^2)
    Vec3 phi = ref::qlog(ref::qexp(v));
    if (phi.norm() < M_PI - 1e-3) {
      MatX J = QuaternionJacobian(ref::qexp(phi));
      Mat3 Jn;
      double h = 1e-5;
      for (int k = 0; k < 3; ++k) {
        Vec3 d = Vec3::Zero();
        d[k] = h;
        Quat qp = ref::qmul(ref::qinv(ref::qexp(phi)), ref::qexp(phi + d));
        Quat qm = ref::qmul(ref::qinv(ref::qexp(phi)), ref::qexp(phi - d));
        Jn.col(k) = (ref::qlog(qp) - ref::qlog(qm)) / (2 * h);
      }
      M.nearM(J, Jn, 1e-7, "rotation-jacobian", ctx);
      M.ev("jacobians");
    }
    M.ev(strf("angle_class_%d", cls));
    M.done(Hash().add(v).add(r.w()).h, cls != 0);
  }
}
