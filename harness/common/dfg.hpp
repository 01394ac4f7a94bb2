// Adapter between the reference grid model and the library's distributed full grids.
#pragma once
#include "grid.hpp"
#include "fullgrid/DistributedFullGrid.hpp"
#include "hierarchization/DistributedHierarchization.hpp"
#include "hierarchization/CombiLinearBasisFunction.hpp"
#include "utils/DecompositionUtils.hpp"

namespace ad {
using namespace combigrid;
using ref::Basis;
using ref::GridSpec;

/// cartesian communicator over the first product(procs) world ranks; MPI_COMM_NULL elsewhere.
/// Communicators are cached and never freed: the library identifies them by handle.
inline MPI_Comm makeCart(const std::vector<int>& procs, const std::vector<int>& periods) {
  static std::map<std::pair<std::vector<int>, std::vector<int>>, MPI_Comm> cache;
  auto key = std::make_pair(procs, periods);
  auto it = cache.find(key);
  if (it != cache.end()) return it->second;
  int p = 1;
  for (int x : procs) p *= x;
  int rank = pbt::worldRank();
  MPI_Comm sub, cart = MPI_COMM_NULL;
  MPI_Comm_split(MPI_COMM_WORLD, rank < p ? 0 : MPI_UNDEFINED, rank, &sub);
  if (sub != MPI_COMM_NULL) {
    MPI_Cart_create(sub, static_cast<int>(procs.size()), procs.data(), periods.data(), 0, &cart);
    MPI_Comm_free(&sub);
  }
  cache[key] = cart;
  return cart;
}
inline MPI_Comm makeCart(const std::vector<int>& procs) {
  return makeCart(procs, std::vector<int>(procs.size(), 1));
}
/// periodic exactly in the dimensions with one-sided boundary, as the library's users set it up
inline MPI_Comm makeCartFor(const GridSpec& s) {
  std::vector<int> per;
  for (auto b : s.bnd) per.push_back(b == 1 ? 1 : 0);
  return makeCart(s.procs, per);
}

template <typename T>
struct Owned {
  std::vector<T> buffer;
  std::unique_ptr<DistributedFullGrid<T>> dfg;
};

/// build a distributed grid for the spec (only on ranks with comm != NULL)
template <typename T>
Owned<T> makeDfg(const GridSpec& s, MPI_Comm comm) {
  Owned<T> o;
  auto dim = static_cast<DimType>(s.dim);
  std::vector<IndexVector> dec;
  if (!s.useDefaultDecomposition) dec = s.decomposition;
  o.dfg.reset(new DistributedFullGrid<T>(dim, s.level, comm, s.bnd, nullptr, s.procs, s.forward, dec));
  auto n = static_cast<size_t>(o.dfg->getNrLocalElements());
  o.buffer.assign(n + 1, T(0));
  // re-create with the data pointer (the pointer is a constructor argument)
  o.dfg.reset(new DistributedFullGrid<T>(dim, s.level, comm, s.bnd, o.buffer.data(), s.procs,
                                         s.forward, dec));
  return o;
}

/// local index -> global vector index from the decomposition only (own arithmetic)
struct LocalBox {
  std::vector<long> lo, hi;
  long size() const {
    long r = 1;
    for (size_t d = 0; d < lo.size(); ++d) r *= hi[d] - lo[d];
    return r;
  }
};
template <typename T>
LocalBox boxOf(const GridSpec& s, const DistributedFullGrid<T>& dfg, int rank) {
  LocalBox b;
  auto c = s.cartCoords(rank);
  const auto& dec = dfg.getDecomposition();
  for (int d = 0; d < s.dim; ++d) {
    auto dd = static_cast<size_t>(d);
    auto k = static_cast<size_t>(c[dd]);
    b.lo.push_back(dec[dd][k]);
    b.hi.push_back(k + 1 < dec[dd].size() ? dec[dd][k + 1] : s.n[dd]);
  }
  return b;
}
template <typename F>
void forBox(const GridSpec& s, const LocalBox& b, F&& f) {
  long n = b.size();
  std::vector<long> v(static_cast<size_t>(s.dim));
  for (long i = 0; i < n; ++i) {
    long r = i;
    for (int d = 0; d < s.dim; ++d) {
      auto dd = static_cast<size_t>(d);
      v[dd] = b.lo[dd] + r % (b.hi[dd] - b.lo[dd]);
      r /= (b.hi[dd] - b.lo[dd]);
    }
    f(i, s.lin(v));
  }
}

template <typename T>
void scatter(const GridSpec& s, const std::vector<T>& global, DistributedFullGrid<T>& dfg) {
  auto b = boxOf(s, dfg, dfg.getRank());
  T* p = dfg.getData();
  forBox(s, b, [&](long i, long g) { p[i] = global[static_cast<size_t>(g)]; });
}

template <typename T>
bool compareLocal(pbt::Ctx& c, const GridSpec& s, const std::vector<T>& global,
                  const DistributedFullGrid<T>& dfg, double tol, const std::string& what) {
  auto b = boxOf(s, dfg, dfg.getRank());
  const T* p = dfg.getData();
  bool ok = true;
  forBox(s, b, [&](long i, long g) {
    ++c.checks;
    auto diff = std::abs(p[i] - global[static_cast<size_t>(g)]);
    if (ok && !(static_cast<double>(diff) <= tol)) {
      ok = false;
      std::vector<long> v;
      s.vec(g, v);
      std::ostringstream os;
      os.precision(17);
      os << what << ": at global index " << ref::str(v) << " got " << p[i] << " expected "
         << global[static_cast<size_t>(g)] << " (tol " << tol << ")";
      c.fail(os.str());
    }
  });
  return ok;
}

inline std::unique_ptr<BasisFunctionBasis> makeBasis(Basis b) {
  switch (b) {
    case ref::HAT: return std::unique_ptr<BasisFunctionBasis>(new HierarchicalHatBasisFunction());
    case ref::HATP: return std::unique_ptr<BasisFunctionBasis>(new HierarchicalHatPeriodicBasisFunction());
    case ref::FW: return std::unique_ptr<BasisFunctionBasis>(new FullWeightingBasisFunction());
    case ref::FWP: return std::unique_ptr<BasisFunctionBasis>(new FullWeightingPeriodicBasisFunction());
    case ref::BIO: return std::unique_ptr<BasisFunctionBasis>(new BiorthogonalBasisFunction());
    default: return std::unique_ptr<BasisFunctionBasis>(new BiorthogonalPeriodicBasisFunction());
  }
}
struct BasisSet {
  std::vector<std::unique_ptr<BasisFunctionBasis>> own;
  std::vector<BasisFunctionBasis*> ptr;
  explicit BasisSet(const std::vector<Basis>& b) {
    for (auto x : b) {
      own.push_back(makeBasis(x));
      ptr.push_back(own.back().get());
    }
  }
};

/// a basis valid for the boundary type of each dimension
inline std::vector<Basis> genBases(pbt::Gen& g, const GridSpec& s) {
  std::vector<Basis> r;
  bool same = g.chance(30);
  Basis b0 = static_cast<Basis>(g.range(0, 5));
  for (int d = 0; d < s.dim; ++d) {
    int bd = s.bnd[static_cast<size_t>(d)];
    Basis b = same ? b0 : static_cast<Basis>(g.range(0, 5));
    if (bd == 0) b = ref::HAT;
    // one-sided boundaries are periodic: periodic bases (plain hat treats them as periodic, too)
    if (bd == 1 && b == ref::FW) b = ref::FWP;
    if (bd == 1 && b == ref::BIO) b = ref::BIOP;
    r.push_back(b);
  }
  return r;
}
inline LevelVector genLmin(pbt::Gen& g, const GridSpec& s) {
  LevelVector r(static_cast<size_t>(s.dim), 0);
  bool zero = g.chance(40);
  for (int d = 0; d < s.dim; ++d) {
    auto dd = static_cast<size_t>(d);
    if (!zero && s.bnd[dd] != 0)
      r[dd] = static_cast<LevelType>(g.range(0, s.level[dd]));
  }
  return r;
}
}  // namespace ad
