// Reference transitions of the filter, written from the documented model.
#pragma once
#include "hist.hpp"
namespace hist
{
inline MatX processNoise(const State & s, const VecX & body)
{
  auto L = layout(s);
  MatX Q = MatX::Zero(total(L), total(L));
  auto d = [&](int at, double v) {for (int k = 0; k < 3; ++k) {Q(at + k, at + k) = v;}};
  for (auto & b : L) {
    switch (b.kind) {
      case 'B': for (int k = 0; k < NB; ++k) {Q(k, k) = body[k];} break;
      case 'I': d(b.start, s.imu_states.at(b.id).pos_stability); d(b.start + 3, s.imu_states.at(b.id).ang_stability); break;
      case 'N':
        d(b.start, s.imu_states.at(b.id).acc_bias_stability); d(b.start + 3, s.imu_states.at(b.id).omg_bias_stability);
        break;
      case 'G': d(b.start, s.gps_states.at(b.id).pos_stability); break;
      case 'C': d(b.start, s.cam_states.at(b.id).pos_stability); d(b.start + 3, s.cam_states.at(b.id).ang_stability); break;
      case 'F': d(b.start, s.fid_states.at(b.id).pos_stability); d(b.start + 3, s.fid_states.at(b.id).ang_stability); break;
      default: break;
    }
  }
  return Q;
}

// reference prediction, without clone creation or removal
inline void predictRef(const Snap & pre, double t, bool zacc, const VecX & noise, State & s, MatX & P)
{
  s = pre.s;
  P = pre.P;
  if (t < pre.t || !pre.grav) {return;}
  double dt = t - pre.t;
  auto & b = s.body_state;
  if (!zacc) {b.vel_b_in_l += dt * (b.acc_b_in_l - ref::G);}
  b.pos_b_in_l += dt * b.vel_b_in_l;
  b.ang_b_to_l = ref::qmul(ref::qexp(dt * b.ang_vel_b_in_l), b.ang_b_to_l);
  MatX F = MatX::Identity(P.rows(), P.cols());
  for (int k = 0; k < 3; ++k) {F(k, 3 + k) = dt;}
  P = F * (P + dt * processNoise(s, noise)) * F.transpose();
}

inline VecX kalmanRef(MatX & P, const MatX & H, const VecX & r, const MatX & Rn)
{
  MatX S = H * P * H.transpose() + Rn;
  MatX K = S.ldlt().solve(H * P).transpose();
  MatX A = MatX::Identity(P.rows(), P.cols()) - K * H;
  P = (A * P * A.transpose() + K * Rn * K.transpose()).eval();
  return K * r;
}

// derivative of a prediction with respect to the state increment, by five-point central differences
template<class F> MatX numJac(const State & s, F h, double eps = 1e-3)
{
  int n = total(layout(s));
  VecX y = h(s);
  MatX J(y.size(), n);
  VecX d = VecX::Zero(n);
  auto at = [&](int k, double e) -> VecX {
      d[k] = e;
      VecX r = h(plus(s, d));
      d[k] = 0;
      return r;
    };
  for (int k = 0; k < n; ++k) {
    J.col(k) = (8 * (at(k, eps) - at(k, -eps)) - (at(k, 2 * eps) - at(k, -2 * eps))) / (12 * eps);
  }
  return J;
}

// what happened to the clones between two states: for each row of the new layout, the row of the old
// covariance it stands for (a new clone stands for the body pose rows)
struct CloneDiff
{
  bool ok = true;
  std::string why;
  std::vector<int> src;
  std::vector<std::pair<unsigned, AugState>> added;
  std::vector<std::pair<unsigned, int>> dropped;      // key, position in old list
};
inline CloneDiff cloneDiff(const State & pre, const State & post)
{
  CloneDiff d;
  auto L0 = layout(pre), L1 = layout(post);
  for (auto & b : L1) {
    if (b.kind != 'A') {
      bool found = false;
      for (auto & o : L0) {
        if (o.kind == b.kind && o.id == b.id) {
          for (int k = 0; k < b.size; ++k) {d.src.push_back(o.start + k);}
          found = true;
        }
      }
      if (!found) {
        d.ok = false;
        d.why = strf("block %c %u appeared", b.kind, b.id);
        return d;
      }
      continue;
    }
    const AugState & a = post.aug_states.at(b.id)[size_t(b.n)];
    int hit = -1;
    auto it = pre.aug_states.find(b.id);
    if (it != pre.aug_states.end()) {
      for (size_t k = 0; k < it->second.size(); ++k) {
        const AugState & o = it->second[k];
        if (o.time == a.time && o.frame_id == a.frame_id && (hit < 0 || true)) {
          // same stamp twice (two clones at the same time): keep order
          bool used = false;
          for (int m = 0; m < b.n; ++m) {
            if (d.src[size_t(b.start) - 6 * size_t(b.n - m)] < 0) {continue;}
          }
          for (auto & o0 : L0) {
            if (o0.kind == 'A' && o0.id == b.id && o0.n == int(k)) {
              for (int x : d.src) {if (x == o0.start) {used = true;}}
              if (!used && hit < 0) {hit = o0.start;}
            }
          }
        }
      }
    }
    if (hit >= 0) {
      for (int k = 0; k < 6; ++k) {d.src.push_back(hit + k);}
    } else {
      for (int k = 0; k < 3; ++k) {d.src.push_back(k);}
      for (int k = 0; k < 3; ++k) {d.src.push_back(9 + k);}
      d.added.push_back({b.id, a});
    }
  }
  for (auto & o : L0) {
    if (o.kind != 'A') {continue;}
    bool kept = false;
    for (size_t k = size_t(NB); k < d.src.size(); ++k) {if (d.src[k] == o.start) {kept = true;}}
    if (!kept) {d.dropped.push_back({o.id, o.n});}
  }
  return d;
}
inline MatX select(const MatX & P, const std::vector<int> & src)
{
  MatX o(src.size(), src.size());
  for (size_t r = 0; r < src.size(); ++r) {
    for (size_t c = 0; c < src.size(); ++c) {o(long(r), long(c)) = P(src[r], src[c]);}
  }
  return o;
}
// non-clone part equal to want, clone lists taken from got
inline State withClones(const State & want, const State & got)
{
  State s = want;
  s.aug_states = got.aug_states;
  return s;
}
}  // namespace hist
