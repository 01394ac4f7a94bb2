// Grid generation and an independent serial reference model for the full-grid operations.
#pragma once
#include "pbt.hpp"

#include <complex>
#include <numeric>

#include "utils/Types.hpp"
#include "utils/LevelVector.hpp"
#include "utils/IndexVector.hpp"

namespace ref {
using combigrid::BoundaryType;
using combigrid::DimType;
using combigrid::IndexType;
using combigrid::IndexVector;
using combigrid::LevelType;
using combigrid::LevelVector;

template <typename T>
std::string str(const std::vector<T>& v) {
  std::ostringstream os;
  os << "(";
  for (size_t i = 0; i < v.size(); ++i) os << (i ? "," : "") << static_cast<long>(v[i]);
  os << ")";
  return os.str();
}
inline std::string strd(const std::vector<double>& v) {
  std::ostringstream os;
  os.precision(17);
  os << "(";
  for (size_t i = 0; i < v.size(); ++i) os << (i ? "," : "") << v[i];
  os << ")";
  return os.str();
}

inline long numPoints(int level, int bnd) {
  return (1l << level) + (bnd == 0 ? -1 : bnd == 1 ? 0 : 1);
}

struct GridSpec {
  int dim = 1;
  LevelVector level;
  std::vector<BoundaryType> bnd;
  std::vector<int> procs;
  std::vector<IndexVector> decomposition;  // lower bounds per dimension (never empty)
  bool useDefaultDecomposition = false;    // let the library compute it
  bool forward = false;
  std::vector<long> n;  // points per dim
  long total = 1;
  int nprocs = 1;

  std::string describe() const {
    std::ostringstream os;
    os << "level=" << str(level) << " boundary=" << str(bnd) << " procs=" << str(procs);
    if (useDefaultDecomposition)
      os << " decomposition=default" << (forward ? "(forward)" : "(backward)");
    else {
      os << " decomposition=";
      for (auto& d : decomposition) os << str(d);
    }
    return os.str();
  }
  void vec(long lin, std::vector<long>& v) const {
    v.resize(static_cast<size_t>(dim));
    for (int d = 0; d < dim; ++d) {
      v[static_cast<size_t>(d)] = lin % n[static_cast<size_t>(d)];
      lin /= n[static_cast<size_t>(d)];
    }
  }
  long lin(const std::vector<long>& v) const {
    long r = 0, s = 1;
    for (int d = 0; d < dim; ++d) {
      r += v[static_cast<size_t>(d)] * s;
      s *= n[static_cast<size_t>(d)];
    }
    return r;
  }
  double coord(int d, long i) const {
    return static_cast<double>(i + (bnd[static_cast<size_t>(d)] == 0 ? 1 : 0)) /
           static_cast<double>(1l << level[static_cast<size_t>(d)]);
  }
  /// coordinates of cartesian rank (row-major, as MPI_Cart_create assigns them)
  std::vector<int> cartCoords(int rank) const {
    std::vector<int> c(static_cast<size_t>(dim));
    for (int d = dim - 1; d >= 0; --d) {
      c[static_cast<size_t>(d)] = rank % procs[static_cast<size_t>(d)];
      rank /= procs[static_cast<size_t>(d)];
    }
    return c;
  }
};

struct GridOpts {
  int minDim = 1, maxDim = 5;
  int maxLevel = 7;
  int minLevel = 1;
  long maxPoints = 2500;
  int maxProcs = 8;
  bool allowNoBoundary = true;
  bool allowOneSided = true;
  bool allowTwoSided = true;
  bool allowRandomDecomposition = true;
};

/// distribute processes over the dimensions, never more than points per dimension
inline std::vector<int> genProcs(pbt::Gen& g, const std::vector<long>& n, int maxProcs) {
  std::vector<int> p(n.size(), 1);
  int left = maxProcs;
  int steps = g.irange(0, 3);
  for (int s = 0; s < steps; ++s) {
    auto d = static_cast<size_t>(g.range(0, static_cast<int64_t>(n.size()) - 1));
    int maxf = static_cast<int>(std::min<long>(left, n[d] / p[d]));
    if (maxf < 2) continue;
    int f = g.irange(1, maxf);
    p[d] *= f;
    left /= f;
  }
  return p;
}

inline IndexVector genDecomposition1d(pbt::Gen& g, long n, int p) {
  // strictly increasing lower bounds starting with 0
  std::vector<long> cand;
  IndexVector r(static_cast<size_t>(p));
  r[0] = 0;
  long prev = 0;
  for (int i = 1; i < p; ++i) {
    // leave room for the remaining p-i-1 ranks
    long hi = n - (p - i);
    long lo = prev + 1;
    long v;
    if (g.chance(50)) {
      // close to balanced
      long target = n * i / p + g.range(-1, 1);
      v = std::min(std::max(target, lo), hi);
    } else {
      v = g.range(lo, hi);
    }
    r[static_cast<size_t>(i)] = static_cast<IndexType>(v);
    prev = v;
  }
  return r;
}

/// the documented default decomposition: cut at floor/ceil of i/p * n is an implementation choice;
/// the library's own is queried where `useDefaultDecomposition` is set.
inline GridSpec genGrid(pbt::Gen& g, const GridOpts& o) {
  GridSpec s;
  s.dim = g.irange(o.minDim, o.maxDim);
  std::vector<int> bt;
  if (o.allowTwoSided) bt.push_back(2);
  if (o.allowOneSided) bt.push_back(1);
  if (o.allowNoBoundary) bt.push_back(0);
  bool sameBnd = g.chance(40);
  int b0 = g.pick(bt);
  long budget = o.maxPoints;
  long used = 1;
  // later dimensions need at least 2..3 points each
  for (int d = 0; d < s.dim; ++d) {
    int b = sameBnd ? b0 : g.pick(bt);
    long reserve = 1;
    for (int k = d + 1; k < s.dim; ++k) reserve *= numPoints(o.minLevel, 2);
    int hi = o.minLevel;
    while (hi < o.maxLevel && used * numPoints(hi + 1, b) * reserve <= budget) ++hi;
    int l = g.irange(o.minLevel, hi);
    s.level.push_back(static_cast<LevelType>(l));
    s.bnd.push_back(static_cast<BoundaryType>(b));
    s.n.push_back(numPoints(l, b));
    used *= s.n.back();
  }
  s.total = used;
  s.procs = genProcs(g, s.n, o.maxProcs);
  s.nprocs = 1;
  for (int p : s.procs) s.nprocs *= p;
  bool oneSided = false;
  for (auto b : s.bnd) oneSided |= (b == 1);
  if (o.allowRandomDecomposition && g.chance(65)) {
    for (int d = 0; d < s.dim; ++d)
      s.decomposition.push_back(
          genDecomposition1d(g, s.n[static_cast<size_t>(d)], s.procs[static_cast<size_t>(d)]));
  } else {
    s.useDefaultDecomposition = true;
    s.forward = oneSided ? false : g.boolean();
  }
  return s;
}

inline uint64_t hash2(uint64_t a, uint64_t b) { return pbt::mix(pbt::mix(a) ^ (b * 0x9e3779b97f4a7c15ull)); }

/// value in [-1,1], multiples of 2^-20
inline double dyadic(uint64_t seed, uint64_t i) {
  auto h = hash2(seed, i);
  return (static_cast<double>(h & 0x1fffff) - 1048576.0) / 1048576.0;
}
template <typename T>
struct Value {
  static T make(uint64_t seed, uint64_t i) { return static_cast<T>(dyadic(seed, i)); }
};
template <typename R>
struct Value<std::complex<R>> {
  static std::complex<R> make(uint64_t seed, uint64_t i) {
    return {static_cast<R>(dyadic(seed, i)), static_cast<R>(dyadic(seed + 77, i))};
  }
};

/// one data set in six is scaled by a power of two: results must not depend on absolute thresholds
inline double dataScale(uint64_t seed) {
  auto h = hash2(seed, 991);
  static const double k[] = {-60, -44, -30, -20, 20, 40};
  return h % 6 ? 1. : std::pow(2., k[(h / 6) % 6]);
}
/// global test data; periodicDims: values at index n-1 copied from index 0 (two-sided dims)
template <typename T>
std::vector<T> genData(const GridSpec& s, uint64_t seed, const std::vector<bool>& periodicEq) {
  std::vector<T> v(static_cast<size_t>(s.total));
  std::vector<long> idx;
  const T scale = static_cast<T>(dataScale(seed));
  for (long i = 0; i < s.total; ++i) {
    s.vec(i, idx);
    bool ch = false;
    for (int d = 0; d < s.dim; ++d) {
      auto dd = static_cast<size_t>(d);
      if (s.bnd[dd] == 2 && periodicEq[dd] && idx[dd] == s.n[dd] - 1) {
        idx[dd] = 0;
        ch = true;
      }
    }
    (void)ch;
    v[static_cast<size_t>(i)] = Value<T>::make(seed, static_cast<uint64_t>(s.lin(idx))) * scale;
  }
  return v;
}

enum Basis { HAT = 0, HATP, FW, FWP, BIO, BIOP };
inline bool isPeriodic(Basis b) { return b == HATP || b == FWP || b == BIOP; }
inline const char* basisName(Basis b) {
  static const char* n[] = {"hat", "hat_periodic", "fullweighting", "fullweighting_periodic",
                            "biorthogonal", "biorthogonal_periodic"};
  return n[b];
}

/// one-dimensional reference transforms, written from the mathematical definition of the bases.
/// pole: values on all 2^l + 1 points (boundary included).
template <typename T>
void transform1d(std::vector<T>& y, int lmax, int lmin, Basis b, bool inverse) {
  using R = T;
  const long N = 1l << lmax;
  const R half = static_cast<R>(0.5), quarter = static_cast<R>(0.25), two = static_cast<R>(2.);
  const bool per = isPeriodic(b);
  auto forLevel = [&](int l) {
    // l: the level whose points (odd multiples of h) carry detail coefficients
    const long h = 1l << (lmax - l);
    auto left = [&](long i) { return y[static_cast<size_t>(i - h)]; };
    auto right = [&](long i) { return y[static_cast<size_t>(i + h)]; };
    if (b == HAT || b == HATP) {
      for (long i = h; i < N; i += 2 * h) {
        R p = half * (left(i) + right(i));
        y[static_cast<size_t>(i)] = inverse ? y[static_cast<size_t>(i)] + p : y[static_cast<size_t>(i)] - p;
      }
      return;
    }
    auto predict = [&](R sgn) {
      for (long i = h; i < N; i += 2 * h)
        y[static_cast<size_t>(i)] += sgn * half * (left(i) + right(i));
    };
    if (b == BIO || b == BIOP) {
      auto update = [&](R sgn) {
        for (long i = 2 * h; i < N; i += 2 * h)
          y[static_cast<size_t>(i)] += sgn * quarter * (left(i) + right(i));
        auto e = static_cast<size_t>(N), hh = static_cast<size_t>(h);
        if (per) {
          R v = half * (y[0] + y[e]) + sgn * quarter * (y[hh] + y[e - hh]);
          y[0] = v;
          y[e] = v;
        } else {
          y[0] += sgn * half * y[hh];
          y[e] += sgn * half * y[e - hh];
        }
      };
      if (!inverse) {
        predict(static_cast<R>(-1));
        update(static_cast<R>(1));
      } else {
        update(static_cast<R>(-1));
        predict(static_cast<R>(1));
      }
      return;
    }
    // full weighting
    auto e = static_cast<size_t>(N), hh = static_cast<size_t>(h);
    if (!inverse) {
      for (long i = 2 * h; i < N; i += 2 * h)
        y[static_cast<size_t>(i)] = quarter * left(i) + half * y[static_cast<size_t>(i)] + quarter * right(i);
      if (per) {
        R v = half * (half * (y[0] + y[e])) + quarter * (y[hh] + y[e - hh]);
        y[0] = v;
        y[e] = v;
      } else {
        y[0] = half * (y[0] + y[hh]);
        y[e] = half * (y[e] + y[e - hh]);
      }
      predict(static_cast<R>(-1));
    } else {
      predict(static_cast<R>(1));
      for (long i = 2 * h; i < N; i += 2 * h)
        y[static_cast<size_t>(i)] = two * y[static_cast<size_t>(i)] - half * (left(i) + right(i));
      if (per) {
        R v = y[0] + y[e] - half * (y[hh] + y[e - hh]);
        y[0] = v;
        y[e] = v;
      } else {
        y[0] = two * y[0] - y[hh];
        y[e] = two * y[e] - y[e - hh];
      }
    }
  };
  if (!inverse)
    for (int l = lmax; l > lmin; --l) forLevel(l);
  else
    for (int l = lmin + 1; l <= lmax; ++l) forLevel(l);
}

/// apply the transform in dimension d to the global array
template <typename T>
void transformDim(const GridSpec& s, std::vector<T>& data, int d, int lmin, Basis b, bool inverse) {
  auto dd = static_cast<size_t>(d);
  const int L = s.level[dd];
  if (lmin >= L) return;
  long stride = 1;
  for (int k = 0; k < d; ++k) stride *= s.n[static_cast<size_t>(k)];
  std::vector<T> pole(static_cast<size_t>((1l << L) + 1));
  for (long start = 0; start < s.total; ++start) {
    if ((start / stride) % s.n[dd] != 0) continue;
    long off = s.bnd[dd] == 0 ? 1 : 0;
    pole.assign(pole.size(), T(0));
    for (long i = 0; i < s.n[dd]; ++i)
      pole[static_cast<size_t>(i + off)] = data[static_cast<size_t>(start + i * stride)];
    if (s.bnd[dd] == 1) pole.back() = pole.front();
    transform1d(pole, L, lmin, b, inverse);
    for (long i = 0; i < s.n[dd]; ++i)
      data[static_cast<size_t>(start + i * stride)] = pole[static_cast<size_t>(i + off)];
  }
}

template <typename T>
void transformAll(const GridSpec& s, std::vector<T>& data, const std::vector<bool>& dims,
                  const std::vector<Basis>& bases, const LevelVector& lmin, bool inverse) {
  for (int d = 0; d < s.dim; ++d) {
    auto dd = static_cast<size_t>(d);
    if (dims[dd]) transformDim(s, data, d, lmin[dd], bases[dd], inverse);
  }
}

/// hierarchical level of a 1d index (boundary points: level 0)
inline int levelOf(int L, int bnd, long idx) {
  long i = idx + (bnd == 0 ? 1 : 0);
  if (i == 0 || i == (1l << L)) return 0;
  int l = L;
  while (i % 2 == 0) {
    i /= 2;
    --l;
  }
  return l;
}

template <typename T>
double absmax(const std::vector<T>& v) {
  double m = 0;
  for (auto& x : v) m = std::max(m, static_cast<double>(std::abs(x)));
  return m;
}
template <typename T>
double eps() {
  return 2.2e-16;
}
template <>
inline double eps<float>() {
  return 1.2e-7;
}
template <>
inline double eps<std::complex<float>>() {
  return 1.2e-7;
}

/// multilinear interpolation of nodal data in the closed unit cube (independent of decomposition)
template <typename T>
T interpolate(const GridSpec& s, const std::vector<T>& data, const std::vector<double>& x) {
  T sum(0);
  // enumerate 2^dim corners
  std::vector<long> lo(static_cast<size_t>(s.dim));
  std::vector<double> w(static_cast<size_t>(s.dim));
  for (int d = 0; d < s.dim; ++d) {
    auto dd = static_cast<size_t>(d);
    double N = static_cast<double>(1l << s.level[dd]);
    double pos = x[dd] * N;
    double fl = std::floor(pos);
    if (fl >= N) fl = N - 1;
    lo[dd] = static_cast<long>(fl);
    w[dd] = pos - fl;
  }
  std::vector<long> idx(static_cast<size_t>(s.dim));
  for (long c = 0; c < (1l << s.dim); ++c) {
    double weight = 1;
    bool zero = false;
    for (int d = 0; d < s.dim; ++d) {
      auto dd = static_cast<size_t>(d);
      long node = lo[dd] + ((c >> d) & 1);
      weight *= ((c >> d) & 1) ? w[dd] : 1. - w[dd];
      long N = 1l << s.level[dd];
      if (s.bnd[dd] == 0) {
        if (node == 0 || node == N) zero = true;
        idx[dd] = node - 1;
      } else if (s.bnd[dd] == 1) {
        idx[dd] = node == N ? 0 : node;
      } else {
        idx[dd] = node;
      }
    }
    if (!zero && weight != 0.)
      sum += static_cast<T>(weight) * data[static_cast<size_t>(s.lin(idx))];
  }
  return sum;
}
}  // namespace ref
