// C11: matrix and statistics helpers.
#include "mon.hpp"
#include "ref.hpp"
#include "utility/math_helper.hpp"
#include "utility/type_helper.hpp"

void run_case(Mon & M, Rng & R)
{
  for (int rep = 0; rep < 12; ++rep) {
    // insert / remove
    {
      int n = R.i(0, 12), m = R.i(0, 12), a = R.i(0, 6), b = R.i(0, 6);
      if (R.b(0.6)) {m = n; b = a;}
      int r = R.i(0, n), c = (m == n && R.b(0.7)) ? r : R.i(0, m);
      MatX in = R.m(n, m), sub = R.m(a, b);
      MatX o = InsertInMatrix(sub, in, unsigned(r), unsigned(c));
      std::string ctx = strf("%dx%d into %dx%d at %d,%d", a, b, n, m, r, c);
      if (M.check(o.rows() == n + a && o.cols() == m + b, "insert-shape", ctx)) {
        MatX w = MatX::Zero(n + a, m + b);
        for (int i = 0; i < n; ++i) {for (int j = 0; j < m; ++j) {w(i < r ? i : i + a, j < c ? j : j + b) = in(i, j);}}
        for (int i = 0; i < a; ++i) {for (int j = 0; j < b; ++j) {w(r + i, c + j) = sub(i, j);}}
        M.nearM(o, w, 0, "insert", ctx);
      }
      if (a == b) {
        MatX back = RemoveFromMatrix(o, unsigned(r), unsigned(c), unsigned(a));
        M.nearM(back, in, 0, "remove-undoes-insert", ctx);
      }
      int N = R.i(1, 14), K = R.b(0.7) ? N : R.i(1, 14);
      int size = R.i(0, std::min(N, K)), rr = R.i(0, N - size), cc = (N == K && R.b(0.7)) ? rr : R.i(0, K - size);
      MatX big = R.m(N, K);
      MatX rem = RemoveFromMatrix(big, unsigned(rr), unsigned(cc), unsigned(size));
      MatX w(N - size, K - size);
      for (int i = 0; i < N - size; ++i) {
        for (int j = 0; j < K - size; ++j) {w(i, j) = big(i < rr ? i : i + size, j < cc ? j : j + size);}
      }
      M.nearM(rem, w, 0, "remove", strf("%d from %dx%d at %d,%d", size, N, K, rr, cc));
      M.ev("insert_remove");
    }
    // measurement compression keeps the information
    {
      int n = R.i(1, 20), m = R.i(1, 50);
      MatX H = R.m(m, n);
      int shape = R.i(0, 4);
      if (shape == 1 && n > 2) {      // rank deficient: an unobserved state
        H.col(R.i(0, n - 1)).setZero();
        if (R.b()) {H.col(R.i(0, n - 1)).setZero();}
      }
      if (shape == 2) {               // low rank
        int k = R.i(1, std::min(n, m));
        H = R.m(m, k) * R.m(k, n);
      }
      if (shape == 3) {H.bottomRows(m / 2).setZero();}
      if (shape == 4) {H.topRows(m / 3).setZero();}
      VecX r = R.m(m, 1);
      if (shape == 3) {r.tail(m / 2).setZero();}
      MatX H0 = H;
      VecX r0 = r;
      CompressMeasurements(H, r);
      std::string ctx = strf("%dx%d shape %d -> %dx%d", m, n, shape, int(H.rows()), int(H.cols()));
      M.check(H.cols() == n && H.rows() == r.size() && H.rows() <= m, "compress-shape", ctx);
      if (m >= n) {M.check(H.rows() <= n, "compress-size", ctx);}
      double sc = 1 + H0.squaredNorm();
      M.nearM(H.transpose() * H, H0.transpose() * H0, 1e-8 * sc, "compress-information", ctx);
      if (H.rows() == r.size()) {
        M.nearM(H.transpose() * r, H0.transpose() * r0, 1e-7 * sc * (1 + r0.norm()), "compress-information-vector", ctx);
        M.check(r.norm() <= r0.norm() * (1 + 1e-9), "compress-residual-grew", ctx);
      }
      M.ev(strf("compress_shape_%d", shape));
    }
    // nullspace projection
    {
      int n = R.i(3, 25), k = R.i(2, 10);
      int f = 3;
      MatX Hf = R.m(2 * k, f), Hx = R.m(2 * k, n);
      VecX r = R.m(2 * k, 1);
      Vec3 df = R.v();
      MatX X1 = Hx, X2 = Hx;
      VecX r1 = r, r2 = r + Hf * df;
      MatX Id = MatX::Identity(2 * k, 2 * k);
      VecX r3 = r;
      ApplyLeftNullspace(Hf, X1, r1);
      ApplyLeftNullspace(Hf, X2, r2);
      ApplyLeftNullspace(Hf, Id, r3);
      std::string ctx = strf("%d views", k);
      if (M.check(X1.rows() == 2 * k - 3 && X1.cols() == n && r1.size() == 2 * k - 3 && Id.rows() == 2 * k - 3, "nullspace-shape", ctx)) {
        double cond = Hf.jacobiSvd().singularValues()(0) / Hf.jacobiSvd().singularValues()(2);
        M.nearM(r2, r1, 1e-10 * cond * (1 + df.norm()), "nullspace-depends-on-feature", ctx);
        M.nearM(Id * Id.transpose(), MatX::Identity(2 * k - 3, 2 * k - 3), 1e-10, "nullspace-orthonormal", ctx);
        M.nearM(Id * Hf, MatX::Zero(2 * k - 3, 3), 1e-10 * (1 + Hf.norm()), "nullspace-annihilates", ctx);
        M.nearM(X1, Id * Hx, 1e-10 * (1 + Hx.norm()), "nullspace-jacobian", ctx);
        M.nearM(r1, Id * r, 1e-10 * (1 + r.norm()), "nullspace-residual", ctx);
      }
      M.ev("nullspace");
    }
    // triangular factor of stacked factors
    {
      int n = R.i(1, 15);
      MatX a = R.m(R.b(0.7) ? n : R.i(1, 20), n), b = R.m(R.i(0, 20), n);
      if (a.rows() + b.rows() >= n) {
        MatX q = QR_r(a, b);
        M.check(q.rows() == n && q.cols() == n, "qr-shape");
        if (q.rows() == n && q.cols() == n) {
          MatX w = a.transpose() * a + b.transpose() * b;
          M.relM(q.transpose() * q, w, 1e-11, "qr-factor");
          MatX lo = q.triangularView<Eigen::StrictlyLower>();
          M.nearM(lo, MatX::Zero(n, n), 0, "qr-upper");
        }
      }
    }
    // statistics
    {
      int n = R.i(1, 30);
      double sc = R.logu(1e-3, 1e4);
      std::vector<Vec3> v;
      std::vector<double> w;
      Vec3 c = R.v(sc), s = Vec3::Zero(), sw = Vec3::Zero();
      double tw = 0;
      for (int k = 0; k < n; ++k) {
        v.push_back(c + R.v(sc));
        w.push_back(R.u(0.01, 3));
        s += v.back();
        sw += w.back() * v.back();
        tw += w.back();
      }
      M.nearM(average_vectors(v), s / n, 1e-12 * sc * 100, "mean");
      M.nearM(average_vectors(v, w), sw / tw, 1e-12 * sc * 100, "weighted-mean");
      double ss = 0;
      for (auto & x : v) {ss += (x - s / n).squaredNorm();}
      M.near(mean_standard_deviation(v), std::sqrt(ss / n) / std::sqrt(double(n)), 1e-10 * sc, "standard-error");
      std::vector<Vec3> pts;
      double far = 0;
      double rad = R.logu(1, 5e3);
      int np = R.b(0.2) ? R.i(25, 400) : R.i(1, 25);
      bool ring = R.b(0.3);
      for (int k = 0; k < np; ++k) {
        double a = R.u(-4, 4);
        pts.push_back(ring ? Vec3(rad * std::cos(a), rad * (1 - 0.3 * (k % 2)) * std::sin(a), R.n(rad)) : R.v(rad));
      }
      for (auto & x : pts) {for (auto & y : pts) {far = std::max(far, (x - y).head<2>().norm());}}
      M.near(maximum_distance(pts), far, 1e-6 * (far + 5 * rad) + 1e-9, "maximum-distance");
      VecX mv = R.m(R.i(1, 20), 1), mo = mv;
      double lo = R.n(0.5);
      MinBoundVector(mv, lo);
      for (int k = 0; k < mv.size(); ++k) {M.near(mv[k], std::max(mo[k], lo), 0, "min-bound");}
      for (double x : {R.n(), -R.u(0, 1), R.u(0, 1), 0.0, -0.0, 1e-300, -1e-300}) {
        M.near(sign(x), x > 0 ? 1 : (x < 0 ? -1 : 0), 0, "sign");
      }
      MatX m2 = matrix2d_from_vectors3d(v);
      if (M.check(m2.rows() == 2 && m2.cols() == n, "matrix2d")) {
        for (int k = 0; k < n; ++k) {M.nearM(m2.col(k), v[size_t(k)].head<2>(), 0, "matrix2d");}
      }
      std::vector<Vec3> df = v - c;
      if (M.check(df.size() == v.size(), "list-minus-vector")) {
        for (int k = 0; k < n; ++k) {M.nearM(df[size_t(k)], v[size_t(k)] - c, 0, "list-minus-vector");}
      }
      M.ev("statistics");
    }
    M.done(Hash().add(R.g()).h, true);
  }
}
