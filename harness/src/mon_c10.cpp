// C10: geodetic conversions.
#include "mon.hpp"
#include "ref.hpp"
#include "utility/gps_helper.hpp"

static Vec3 lla(Rng & R, std::string & cls)
{
  double lat = R.u(-90, 90), lon = R.u(-180, 180), alt = R.u(-1000, 10000);
  int c = R.i(0, 7);
  cls = "mid";
  if (c == 0) {lat = (R.b() ? 1 : -1) * (90 - R.logu(1e-9, 1)); cls = "pole";}
  if (c == 1) {lon = (R.b() ? 1 : -1) * (180 - R.logu(1e-9, 1)); cls = "antimeridian";}
  if (c == 2) {lat = R.n(1e-6); cls = "equator";}
  if (c == 3) {alt = R.logu(1e4, 4e7); cls = "high";}
  if (c == 4) {alt = R.u(-11000, 0); cls = "low";}
  if (c == 5) {lat = R.pick(std::vector<double>{-90, -45, 0, 45, 90}); lon = R.pick(std::vector<double>{-180, -90, 0, 90, 180}); cls = "special";}
  return Vec3(lat, lon, alt);
}

void run_case(Mon & M, Rng & R)
{
  for (int rep = 0; rep < 60; ++rep) {
    std::string c1, c2;
    Vec3 p = lla(R, c1), r = lla(R, c2);
    bool nearby = R.b(0.6);
    Vec3 off = R.v(R.logu(1e-3, 1e5));
    std::string ctx = vs(p) + " ref " + vs(r);
    double tol = 2e-8 * std::max(1.0, p[2] / 1e6) + 1e-7;
    Vec3 e = lla_to_ecef(p);
    M.nearM(e, ref::lla2ecef(p), tol, "lla-to-ecef-" + c1, ctx);
    Vec3 b = ecef_to_lla(e);
    M.check(b.allFinite() && std::fabs(b[0]) <= 90 + 1e-12 && std::fabs(b[1]) <= 180 + 1e-12, "ecef-to-lla-range-" + c1, ctx + " " + vs(b));
    M.nearM(ref::lla2ecef(b), e, 1e-5, "ecef-to-lla-" + c1, ctx + " " + vs(b));
    M.near(b[2], p[2], 1e-5, "altitude-" + c1, ctx);
    M.near(b[0], p[0], 1e-10, "latitude-" + c1, ctx);
    if (std::fabs(p[0]) < 89.999) {
      double dl = std::remainder(b[1] - p[1], 360.0);
      M.near(dl, 0, 1e-10 / std::cos(p[0] * M_PI / 180), "longitude-" + c1, ctx);
    }
    // east-north-up
    Vec3 en = lla_to_enu(p, r), enr = ref::lla2enu(p, r);
    double sc = 1e-8 + 1e-14 * (e.norm() + enr.norm());
    M.nearM(en, enr, 20 * sc, "lla-to-enu", ctx);
    M.nearM(ecef_to_enu(e, r), enr, 20 * sc, "ecef-to-enu", ctx);
    Vec3 eb = enu_to_ecef(en, r);
    M.nearM(eb, e, 20 * sc, "enu-to-ecef", ctx);
    // local metre offsets around a reference
    if (nearby) {
      Vec3 l = enu_to_lla(off, r);
      M.nearM(ref::lla2ecef(l), ref::lla2ecef(r) + ref::ecef2enuR(r).transpose() * off, 1e-5, "enu-to-lla", ctx + vs(off));
      M.nearM(lla_to_enu(l, r), off, 1e-5, "enu-roundtrip", ctx + vs(off));
    }
    double a = R.pick(std::vector<double>{0, M_PI, -M_PI, M_PI / 2, R.u(-10, 10), R.u(-10, 10), R.n(1e-9)});
    Vec3 lo = enu_to_local(off, a);
    M.nearM(lo, ref::enu2local(off, a), 1e-12 * (1 + off.norm()), "enu-to-local", strf("angle %.9g", a));
    M.nearM(local_to_enu(lo, a), off, 1e-12 * (1 + off.norm()), "local-roundtrip", strf("angle %.9g", a));
    M.nearM(local_to_enu(off, a), ref::enu2local(off, -a), 1e-12 * (1 + off.norm()), "local-to-enu", strf("angle %.9g", a));
    double m = R.n(1e5);
    M.near(wgs84_m_to_deg(m), m / ref::WA * 180 / M_PI, 1e-12 * (1 + std::fabs(m)), "metres-to-degrees");
    M.ev("point_" + c1);
    M.ev("ref_" + c2);
    M.done(Hash().add(p).add(r).h, true);
  }
}
