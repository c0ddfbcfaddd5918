// Monitor runtime: case scheduling, oracle bookkeeping and result stream.
// Every random choice derives from (VERIF_SEED, case index).
#pragma once
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <eigen3/Eigen/Eigen>

using Vec3 = Eigen::Vector3d;
using Mat3 = Eigen::Matrix3d;
using VecX = Eigen::VectorXd;
using MatX = Eigen::MatrixXd;
using Quat = Eigen::Quaterniond;

struct Rng
{
  std::mt19937_64 g;
  Rng(uint64_t seed, uint64_t idx)
  {
    std::seed_seq s{uint32_t(seed), uint32_t(seed >> 32), uint32_t(idx), uint32_t(idx >> 32), 0x5eedu};
    g.seed(s);
  }
  double u(double a = 0.0, double b = 1.0) {return a + (b - a) * (double(g() >> 11) * (1.0 / 9007199254740992.0));}
  // hand-rolled so that the stream does not depend on the standard library
  double n(double s = 1.0)
  {
    double u1 = std::max(u(), 1e-300), u2 = u();
    return s * std::sqrt(-2 * std::log(u1)) * std::cos(2 * M_PI * u2);
  }
  int i(int a, int b) {return a + int(g() % uint64_t(b - a + 1));}     // inclusive
  bool b(double p = 0.5) {return u() < p;}
  double logu(double a, double b) {return std::exp(u(std::log(a), std::log(b)));}
  Vec3 v(double s = 1.0) {return Vec3(n(s), n(s), n(s));}
  Vec3 uv(double a, double b) {return Vec3(u(a, b), u(a, b), u(a, b));}
  Quat q()
  {
    Quat o(n(), n(), n(), n());
    o.normalize();
    return o;
  }
  // rotation with angle uniform in [0,max]
  Quat qa(double max)
  {
    Vec3 ax = v();
    ax.normalize();
    double a = u(0, max);
    return Quat(std::cos(a / 2), std::sin(a / 2) * ax.x(), std::sin(a / 2) * ax.y(), std::sin(a / 2) * ax.z());
  }
  MatX m(int r, int c, double s = 1.0)
  {
    MatX o(r, c);
    for (int k = 0; k < o.size(); ++k) {o.data()[k] = n(s);}
    return o;
  }
  // random symmetric positive definite, well conditioned
  MatX spd(int k, double s = 1.0)
  {
    MatX a = m(k, k);
    return s * (a * a.transpose() / k + 0.1 * MatX::Identity(k, k));
  }
  template<class T> const T & pick(const std::vector<T> & v) {return v[size_t(i(0, int(v.size()) - 1))];}
};

inline std::string strf(const char * fmt, ...)
{
  char buf[4096];
  va_list a;
  va_start(a, fmt);
  vsnprintf(buf, sizeof buf, fmt, a);
  va_end(a);
  return buf;
}

inline std::string vs(const MatX & m)
{
  std::string s = "[";
  for (int r = 0; r < m.rows() && r < 24; ++r) {
    for (int c = 0; c < m.cols() && c < 8; ++c) {s += strf("%s%.9g", (c || r) ? "," : "", m(r, c));}
  }
  return s + "]";
}
inline std::string qs(const Quat & q) {return strf("q(%.9g,%.9g,%.9g,%.9g)", q.w(), q.x(), q.y(), q.z());}

inline std::string jesc(const std::string & s)
{
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {o += '\\'; o += char(c);} else if (c < 32 || c > 126) {o += ' ';} else {o += char(c);}
  }
  return o;
}

class Mon
{
public:
  uint64_t seed = 1, idx = 0;
  uint64_t evals = 0, nontrivial = 0, checks = 0, viol = 0;
  std::unordered_set<uint64_t> sig;
  std::map<std::string, uint64_t> events;
  std::map<std::string, double> worst;      // worst observed error / tolerance per oracle
  std::vector<std::string> samples;
  std::map<std::string, int> per_key;
  FILE * out = nullptr;
  int status_fd = -1;
  std::string scratch;
  bool verbose = false;

  void ev(const std::string & e, uint64_t n = 1) {events[e] += n;}

  void violation(const std::string & key, const std::string & detail)
  {
    ++viol;
    if (per_key[key]++ < 5) {
      fprintf(out, "{\"t\":\"viol\",\"case\":%" PRIu64 ",\"key\":\"%s\",\"detail\":\"%s\"}\n",
        idx, jesc(key).c_str(), jesc(detail).c_str());
      fflush(out);
    }
    if (verbose) {fprintf(stderr, "VIOL case=%" PRIu64 " %s: %s\n", idx, key.c_str(), detail.c_str());}
  }
  bool check(bool ok, const std::string & key, const std::string & detail = "")
  {
    ++checks;
    if (!ok) {violation(key, detail);}
    return ok;
  }
  // |a-b| <= tol (NaN fails)
  bool near(double a, double b, double tol, const std::string & key, const std::string & detail = "")
  {
    ++checks;
    double e = std::fabs(a - b);
    double & w = worst[key];
    if (std::isfinite(e) && e / tol > w) {w = e / tol;}
    if (!(e <= tol)) {
      violation(key, strf("got %.12g want %.12g (tol %.3g) ", a, b, tol) + detail);
      return false;
    }
    return true;
  }
  bool nearM(const MatX & a, const MatX & b, double tol, const std::string & key, const std::string & detail = "")
  {
    ++checks;
    if (a.rows() != b.rows() || a.cols() != b.cols()) {
      violation(key, strf("shape got %dx%d want %dx%d ", int(a.rows()), int(a.cols()), int(b.rows()), int(b.cols())) + detail);
      return false;
    }
    if (a.size() == 0) {return true;}
    MatX d = (a - b).cwiseAbs();
    int wr = 0, wc = 0;
    double e = 0;
    bool nan = false;
    for (int r = 0; r < d.rows(); ++r) {
      for (int c = 0; c < d.cols(); ++c) {
        if (!std::isfinite(d(r, c))) {
          if (!nan) {wr = r; wc = c;}
          nan = true;
        } else if (!nan && d(r, c) > e) {
          e = d(r, c); wr = r; wc = c;
        }
      }
    }
    double & w = worst[key];
    if (!nan && e / tol > w) {w = e / tol;}
    if (nan || !(e <= tol)) {
      violation(key, strf("at (%d,%d) got %.12g want %.12g (tol %.3g) ", wr, wc, a(wr, wc), b(wr, wc), tol) + detail);
      return false;
    }
    return true;
  }
  // relative to the magnitude of the reference (plus 1)
  bool relM(const MatX & a, const MatX & b, double tol, const std::string & key, const std::string & detail = "")
  {
    double s = b.size() ? b.cwiseAbs().maxCoeff() : 0.0;
    return nearM(a, b, tol * std::max(s, 1e-12), key, detail);
  }
  bool quatNear(const Quat & a, const Quat & b, double tol, const std::string & key, const std::string & detail = "")
  {
    Eigen::Vector4d x = a.coeffs(), y = b.coeffs();
    double d = std::min((x - y).cwiseAbs().maxCoeff(), (x + y).cwiseAbs().maxCoeff());
    ++checks;
    if (!x.allFinite()) {d = INFINITY;}
    double & w = worst[key];
    if (std::isfinite(d) && d / tol > w) {w = d / tol;}
    if (!(d <= tol)) {
      violation(key, "got " + qs(a) + " want " + qs(b) + " " + detail);
      return false;
    }
    return true;
  }
  // record one evaluated case: its signature (what makes it distinct), and whether it was non-trivial
  void done(uint64_t signature, bool nontriv, const std::string & sample = "")
  {
    ++evals;
    if (nontriv) {
      ++nontrivial;
      sig.insert(signature);
    }
    if (!sample.empty() && samples.size() < 3) {samples.push_back(sample);}
  }
};

struct Hash
{
  uint64_t h = 1469598103934665603ull;
  Hash & add(uint64_t v)
  {
    for (int k = 0; k < 8; ++k) {
      h ^= (v >> (8 * k)) & 0xff;
      h *= 1099511628211ull;
    }
    return *this;
  }
  Hash & add(double d)
  {
    uint64_t v;
    memcpy(&v, &d, 8);
    return add(v);
  }
  Hash & add(const MatX & m)
  {
    for (int k = 0; k < m.size(); ++k) {add(m.data()[k]);}
    return *this;
  }
};

// implemented by each monitor
void run_case(Mon & M, Rng & R);

#ifndef MON_NO_MAIN
int main(int argc, char ** argv)
{
  Mon M;
  uint64_t from = 0, to = 10, step = 1;
  const char * outp = nullptr;
  const char * stat = nullptr;
  for (int k = 1; k < argc; ++k) {
    std::string a = argv[k];
    auto nx = [&]() {return argv[++k];};
    if (a == "--seed") {M.seed = strtoull(nx(), 0, 10);} else if (a == "--from") {from = strtoull(nx(), 0, 10);}
    else if (a == "--to") {to = strtoull(nx(), 0, 10);} else if (a == "--step") {step = strtoull(nx(), 0, 10);}
    else if (a == "--out") {outp = nx();} else if (a == "--status") {stat = nx();}
    else if (a == "--scratch") {M.scratch = nx();} else if (a == "-v") {M.verbose = true;}
  }
  M.out = outp ? fopen(outp, "w") : stdout;
  if (stat) {M.status_fd = open(stat, O_CREAT | O_RDWR | O_TRUNC, 0644);}
  if (M.scratch.empty()) {
    char t[] = "/tmp/ekfmonXXXXXX";
    M.scratch = std::string(mkdtemp(t)) + "/";
  }
  for (uint64_t i = from; i < to; i += step) {
    M.idx = i;
    if (M.status_fd >= 0) {
      char b[32];
      int n = snprintf(b, sizeof b, "%020" PRIu64, i);
      (void)!pwrite(M.status_fd, b, size_t(n), 0);
    }
    Rng R(M.seed, i);
    try {
      run_case(M, R);
    } catch (const std::exception & e) {
      M.violation("exception", std::string("uncaught exception: ") + e.what());
    }
  }
  fprintf(M.out, "{\"t\":\"sum\",\"evals\":%" PRIu64 ",\"nontrivial\":%" PRIu64 ",\"checks\":%" PRIu64 ",\"viol\":%" PRIu64,
    M.evals, M.nontrivial, M.checks, M.viol);
  fprintf(M.out, ",\"events\":{");
  bool first = true;
  for (auto & e : M.events) {
    fprintf(M.out, "%s\"%s\":%" PRIu64, first ? "" : ",", jesc(e.first).c_str(), e.second);
    first = false;
  }
  fprintf(M.out, "},\"worst\":{");
  first = true;
  for (auto & e : M.worst) {
    fprintf(M.out, "%s\"%s\":%.3g", first ? "" : ",", jesc(e.first).c_str(), e.second);
    first = false;
  }
  fprintf(M.out, "},\"samples\":[");
  for (size_t k = 0; k < M.samples.size(); ++k) {fprintf(M.out, "%s\"%s\"", k ? "," : "", jesc(M.samples[k]).c_str());}
  fprintf(M.out, "],\"sig\":[");
  size_t c = 0;
  for (auto s : M.sig) {
    if (c >= 20000) {break;}
    fprintf(M.out, "%s\"%016" PRIx64 "\"", c++ ? "," : "", s);
  }
  fprintf(M.out, "]}\n");
  fflush(M.out);
  return 0;
}
#endif
