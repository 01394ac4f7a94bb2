// A whole combination: generated scheme, groups, decomposition and data; the serial model of what
// combining means; and the adapter running it with the library's workers.
#pragma once
#include <omp.h>

#include "combischeme/CombiMinMaxScheme.hpp"
#include "family.hpp"
#include "fullgrid/DistributedFullGrid.hpp"
#include "io/BroadcastParameters.hpp"
#include "manager/CombiParameters.hpp"
#include "manager/ProcessGroupWorker.hpp"
#include "mpi/MPISystem.hpp"
#include "task/Task.hpp"
#include "utils/Stats.hpp"

namespace ad {

struct CombiSpec {
  Family f;
  LV lmin, lmax, reduce;
  std::vector<LV> levels;
  std::vector<double> coeffs;
  std::vector<int> group;      // of each grid
  std::vector<size_t> order;   // order in which tasks are created
  int ngroup = 1;
  int numGrids = 1;
  CombinationVariant variant = sparseGridReduce;
  uint32_t chunkMiB = 64;
  int threads = 1;
  bool setDecomposition = true;
  bool forward = false;
  std::vector<Basis> bases;
  bool validScheme = true;
  bool classical = true;
  uint64_t seed = 0;

  std::vector<GridSpec> specs;  // per grid
  GridSpec fine;                // of level lmax

  LV lminHier() const {
    for (auto b : f.bnd)
      if (b == 0) return LV(lmin.size(), 0);
    return lmin;
  }
  std::vector<bool> periodicEq() const {
    std::vector<bool> r;
    for (auto b : bases) r.push_back(ref::isPeriodic(b));
    return r;
  }
  int ranks() const { return ngroup * f.nprocs; }
  double amplification() const {
    double amp = 1;
    auto lh = lminHier();
    for (size_t d = 0; d < lmin.size(); ++d)
      if (bases[d] == ref::FW || bases[d] == ref::FWP) amp *= std::pow(3., lmax[d] - lh[d]);
    return amp;
  }
  std::string describe() const {
    std::ostringstream os;
    static const char* vn[] = {"sparseGridReduce", "subspaceReduce", "outgroup", "chunkedOutgroup"};
    os << vn[static_cast<int>(variant)] << " lmin=" << ref::str(lmin) << " lmax=" << ref::str(lmax);
    if (!reduce.empty()) os << " reduceLmax=" << ref::str(reduce);
    os << " groups=" << ngroup << " " << f.describe() << (setDecomposition ? "" : "(default)") << " grids=";
    for (size_t k = 0; k < levels.size() && k < 12; ++k)
      os << ref::str(levels[k]) << "*" << coeffs[k] << "@" << group[k] << " ";
    if (levels.size() > 12) os << "... " << levels.size() << " in total ";
    os << "bases=";
    for (auto b : bases) os << ref::basisName(b) << " ";
    os << "fields=" << numGrids << " chunk=" << chunkMiB << "MiB threads=" << threads << " data=" << seed;
    return os.str();
  }
};

/// points of the whole sparse grid, roughly: sum of the grids
inline long totalPoints(const std::vector<LV>& levels, const std::vector<BoundaryType>& bnd) {
  long t = 0;
  for (auto& l : levels) {
    long n = 1;
    for (size_t d = 0; d < l.size(); ++d) n *= ref::numPoints(l[d], bnd[d]);
    t += n;
  }
  return t;
}

struct CombiOpts {
  int worldSize = 8;
  int maxDim = 4;
  long maxPoints = 6000;
  bool severalFields = true;
  bool allVariants = true;
  bool large = false;
  bool faultTolerant = false;  // fault tolerant scheme with the same refinement in all dimensions
  bool classicalOnly = false;
  int maxGroups = 8;
  int minGroups = 1;  // as far as there are grids and ranks
  int minRanksReserved = 0;  // ranks not available (manager)
};

inline CombiSpec genCombi(pbt::Gen& g, const CombiOpts& o) {
  CombiSpec s;
  int avail = o.worldSize - o.minRanksReserved;
  int dim = g.irange(1, o.maxDim);
  if (o.faultTolerant) {
    dim = g.irange(1, 3);
    int diff = g.irange(1, dim == 1 ? 4 : dim == 2 ? 3 : 2);
    for (int d = 0; d < dim; ++d) s.lmin.push_back(g.irange(1, 2));
    for (int l : s.lmin) s.lmax.push_back(l + diff);
  } else if (o.large) {
    // more values per process than one 1 MiB chunk holds
    dim = 2;
    int a = g.irange(7, 8);
    s.lmin = {a, 15 - a};
    s.lmax = {a + 2, 15 - a + 2};
  } else {
    for (int d = 0; d < dim; ++d) s.lmin.push_back(g.chance(50) ? 1 : g.irange(1, 3));
    // equal differences (the classical regular case) or different ones
    bool equal = g.chance(55);
    int diff = g.irange(o.minGroups > 1 ? 1 : 0, dim <= 2 ? 4 : 3);
    for (int d = 0; d < dim; ++d) s.lmax.push_back(s.lmin[static_cast<size_t>(d)] + (equal ? diff : g.irange(0, dim <= 2 ? 4 : 3)));
  }
  // scheme
  int kind = o.faultTolerant ? 2 * g.irange(0, 1) : o.classicalOnly ? 0 : o.large ? (g.chance(50) ? 3 : 0) : g.irange(0, 4);  // 0-1 classical, 2 adaptive, 3-4 arbitrary
  auto budget = [&](const std::vector<LV>& ls) {
    long t = 0;
    for (auto& l : ls) {
      long n = 1;
      for (size_t d = 0; d < l.size(); ++d) n *= (1l << l[d]) + 1;
      t += n;
    }
    return t;
  };
  auto scheme = [&](int k) {
    s.levels.clear();
    s.coeffs.clear();
    CombiMinMaxScheme cs(static_cast<DimType>(s.lmin.size()), toLib(s.lmin), toLib(s.lmax));
    if (k == 2)
      cs.createAdaptiveCombischeme();
    else
      cs.createClassicalCombischeme();
    if (o.faultTolerant) cs.makeFaultTolerant();
    for (auto& l : cs.getCombiSpaces()) s.levels.push_back(fromLib(l));
    for (auto c : cs.getCoeffs()) s.coeffs.push_back(static_cast<double>(c));
  };
  s.classical = kind < 2;
  if (kind <= 2) {
    scheme(kind);
    while (!o.large && !o.faultTolerant && budget(s.levels) > o.maxPoints) {
      // too large: lower the highest level
      size_t m = 0;
      for (size_t d = 0; d < s.lmax.size(); ++d)
        if (s.lmax[d] > s.lmax[m]) m = d;
      if (s.lmax[m] > s.lmin[m]) {
        for (size_t d = 0; d < s.lmax.size(); ++d)
          if (s.lmax[d] > s.lmin[d] && s.lmax[d] - s.lmin[d] >= s.lmax[m] - s.lmin[m]) --s.lmax[d];
        if (s.lmax[m] > s.lmin[m] && s.lmax[m] >= 5) --s.lmax[m];
      } else {
        --s.lmax[m];
        --s.lmin[m];
      }
      scheme(kind);
    }
  } else if (o.large) {
    // a few grids of (nearly) the same level: the sizes of runs of subspaces are round numbers
    s.validScheme = false;
    for (size_t d = 0; d < s.lmin.size(); ++d) {
      ++s.lmin[d];
      s.lmax[d] = s.lmin[d] + g.irange(0, 1);
    }
    int n = g.irange(2, 3);
    for (int k = 0; k < n; ++k) {
      LV l = s.lmax;
      if (k > 0 && g.chance(50))
        for (size_t d = 0; d < l.size(); ++d) l[d] = g.irange(s.lmin[d], s.lmax[d]);
      s.levels.push_back(l);
      s.coeffs.push_back(g.irange(-16, 16) / 8.);
    }
  } else {
    s.validScheme = false;
    int n = g.irange(o.minGroups, 7);
    for (int k = 0; k < n; ++k) {
      LV l;
      for (size_t d = 0; d < s.lmin.size(); ++d) l.push_back(g.irange(s.lmin[d], s.lmax[d]));
      s.levels.push_back(l);
      s.coeffs.push_back(g.boolean() ? g.irange(-3, 3) : g.irange(-16, 16) / 8.);
    }
    while (budget(s.levels) > o.maxPoints) {
      // drop a level somewhere
      size_t bk = 0, bd = 0;
      int best = -1;
      for (size_t k = 0; k < s.levels.size(); ++k)
        for (size_t d = 0; d < s.lmin.size(); ++d)
          if (s.levels[k][d] > best) best = s.levels[k][d], bk = k, bd = d;
      if (s.levels[bk][bd] > s.lmin[bd])
        --s.levels[bk][bd];
      else {
        --s.lmin[bd];
        for (auto& l : s.levels) l[bd] = std::min(l[bd], s.lmin[bd]);
      }
    }
  }
  LV coarsest = s.lmin;
  for (auto& l : s.levels)
    for (size_t d = 0; d < l.size(); ++d) coarsest[d] = std::min(coarsest[d], l[d]);
  static const std::vector<int> groupChoices = {1, 2, 2, 3, 4, 2, 8, 5};
  s.ngroup = std::min({g.pick(groupChoices), static_cast<int>(s.levels.size()), avail, o.maxGroups});
  s.ngroup = std::max(s.ngroup, std::min({o.minGroups, static_cast<int>(s.levels.size()), avail}));
  if (o.large) s.ngroup = std::max(s.ngroup, std::min(2, avail));
  s.f = genFamily(g, s.lmax, coarsest, o.large && g.chance(75) ? 1 : avail / s.ngroup, true,
                  o.large && g.chance(60) ? 1 : -1);
  s.setDecomposition = g.chance(75);
  s.forward = false;
  for (size_t k = 0; k < s.levels.size(); ++k)
    s.group.push_back(k < static_cast<size_t>(s.ngroup) ? static_cast<int>(k) : g.irange(0, s.ngroup - 1));
  // which grid is where must not depend on the position in the list
  std::vector<size_t> perm(s.levels.size());
  std::iota(perm.begin(), perm.end(), 0);
  if (g.chance(50)) g.shuffle(perm);
  std::vector<int> gr(perm.size());
  for (size_t k = 0; k < perm.size(); ++k) gr[perm[k]] = s.group[k];
  s.group = gr;
  s.order.resize(perm.size());
  std::iota(s.order.begin(), s.order.end(), 0);
  if (g.chance(30)) g.shuffle(s.order);
  s.variant = o.allVariants ? static_cast<CombinationVariant>(g.irange(0, 3)) : sparseGridReduce;
  s.threads = g.irange(1, 3);
  if (o.large && g.chance(75)) s.threads = 1;  // chunks are per thread
  if (s.variant == subspaceReduce) s.threads = 1;
  s.chunkMiB = o.large ? 1 : g.pick(std::vector<uint32_t>{1, 64, 16});
  if (o.severalFields && s.variant != chunkedOutgroupSparseGridReduce && g.chance(20)) s.numGrids = 2;
  if (g.chance(o.large ? 10 : 30)) {
    bool ones = g.boolean();
    for (size_t d = 0; d < s.lmin.size(); ++d) s.reduce.push_back(ones ? 1 : g.irange(0, 2));
  }
  s.fine = s.f.grid(s.lmax);
  s.bases = o.large ? std::vector<Basis>(s.lmin.size(), ref::BIO) : genBases(g, s.fine);
  if (g.chance(40) || o.large)
    for (size_t d = 0; d < s.bases.size(); ++d)
      s.bases[d] = s.f.bnd[d] == 1 ? ref::HATP : ref::HAT;
  if (!s.setDecomposition) {
    // only if the default decompositions of all grids fit together
    auto def = [&](const LV& l) {
      IndexVector n;
      for (size_t d = 0; d < l.size(); ++d) n.push_back(static_cast<IndexType>(ref::numPoints(l[d], s.f.bnd[d])));
      return getDefaultDecomposition(n, s.f.procs, false);
    };
    auto keep = s.f.refDec;
    s.f.refDec = def(s.lmax);
    bool fits = s.f.everyoneHasPoints(coarsest);
    for (auto& l : s.levels) fits = fits && def(l) == s.f.decompositionFor(l);
    if (!fits) {
      s.f.refDec = keep;
      s.setDecomposition = true;
    }
  }
  s.fine = s.f.grid(s.lmax);
  for (auto& l : s.levels) s.specs.push_back(s.f.grid(l));
  s.seed = g.dataSeed();
  return s;
}

/// append n pseudo-random points to the coordinates
inline std::vector<std::vector<real>> manyPoints(std::vector<std::vector<real>> xs, size_t dim, int n, uint64_t seed) {
  for (int k = 0; k < n; ++k) {
    std::vector<real> x;
    for (size_t d = 0; d < dim; ++d)
      x.push_back(static_cast<double>(ref::hash2(seed + 5, static_cast<uint64_t>(k) * 16 + d) % 4096001) / 4096000.);
    xs.push_back(x);
  }
  return xs;
}

/// without a prescribed decomposition only levels whose default decomposition fits can be evaluated
inline bool evaluable(const CombiSpec& s, const LV& l) {
  if (s.setDecomposition) return true;
  IndexVector n;
  for (size_t d = 0; d < l.size(); ++d) n.push_back(static_cast<IndexType>(ref::numPoints(l[d], s.f.bnd[d])));
  return getDefaultDecomposition(n, s.f.procs, false) == s.f.decompositionFor(l);
}

/// what happens to the values between two combinations
struct Action {
  int kind = 1;  // 0 nothing, 1 overwrite, 2 add
  int round = 0;
};
template <typename T>
T valueAt(const CombiSpec& s, size_t grid, int field, const Action& a, std::vector<long> idx) {
  const auto& sp = s.specs[grid];
  for (size_t d = 0; d < idx.size(); ++d)
    if (sp.bnd[d] == 2 && ref::isPeriodic(s.bases[d]) && idx[d] == sp.n[d] - 1) idx[d] = 0;
  auto seed = ref::hash2(ref::hash2(s.seed, grid * 31 + static_cast<uint64_t>(field)), static_cast<uint64_t>(a.round) + 17);
  return ref::Value<T>::make(seed, static_cast<uint64_t>(sp.lin(idx))) * static_cast<T>(ref::dataScale(s.seed));
}

/// serial model: nodal values of every grid and field
template <typename T>
struct CombiModel {
  using Wide = std::conditional_t<std::is_same<T, double>::value, long double, std::complex<double>>;
  const CombiSpec& s;
  std::vector<std::vector<std::vector<T>>> nodal;  // [grid][field]
  std::vector<std::map<LV, std::vector<T>>> dummy;
  // per field: combined hierarchical coefficients on the fine grid, and which points are combined
  std::vector<std::vector<Wide>> coeff;
  std::vector<char> covered;  // some grid has this point and its subspace is in the sparse grid
  double maxAbs;

  explicit CombiModel(const CombiSpec& spec) : s(spec), maxAbs(ref::dataScale(spec.seed)) {
    nodal.resize(s.levels.size());
    for (size_t k = 0; k < nodal.size(); ++k)
      nodal[k].assign(static_cast<size_t>(s.numGrids), std::vector<T>(static_cast<size_t>(s.specs[k].total), T(0)));
  }
  void act(const Action& a) {
    if (a.kind == 0) return;
    std::vector<long> v;
    for (size_t k = 0; k < nodal.size(); ++k)
      for (int f = 0; f < s.numGrids; ++f)
        for (long i = 0; i < s.specs[k].total; ++i) {
          s.specs[k].vec(i, v);
          auto x = valueAt<T>(s, k, f, a, v);
          auto& y = nodal[k][static_cast<size_t>(f)][static_cast<size_t>(i)];
          y = a.kind == 1 ? x : y + x;
        }
  }
  long fineIndex(size_t k, const std::vector<long>& v) const {
    std::vector<long> w(v.size());
    for (size_t d = 0; d < v.size(); ++d) {
      int sh = s.lmax[d] - s.levels[k][d];
      w[d] = s.f.bnd[d] == 0 ? ((v[d] + 1) << sh) - 1 : v[d] << sh;
    }
    return s.fine.lin(w);
  }
  LV subspace(const GridSpec& sp, const std::vector<long>& v) const {
    LV r(v.size());
    for (size_t d = 0; d < v.size(); ++d) r[d] = subspaceLevel(sp.level[d], sp.bnd[d], v[d]);
    return r;
  }
  /// combine all grids over the subspaces `set`; only grids with use[k] contribute
  void combine(const std::set<LV>& set) {
    auto lh = toLib(s.lminHier());
    std::vector<bool> all(s.lmin.size(), true);
    coeff.assign(static_cast<size_t>(s.numGrids), {});
    covered.assign(static_cast<size_t>(s.fine.total), 0);
    // which fine points are in which subspace: membership per subspace, cached
    std::vector<long> v;
    for (int f = 0; f < s.numGrids; ++f) {
      auto ff = static_cast<size_t>(f);
      auto& acc = coeff[ff];
      acc.assign(static_cast<size_t>(s.fine.total), Wide(0));
      for (size_t k = 0; k < nodal.size(); ++k) {
        auto& x = nodal[k][ff];
        maxAbs = std::max(maxAbs, ref::absmax(x));
        ref::transformAll(s.specs[k], x, all, s.bases, lh, false);
        maxAbs = std::max(maxAbs, ref::absmax(x));
        for (long i = 0; i < s.specs[k].total; ++i) {
          s.specs[k].vec(i, v);
          if (!set.count(subspace(s.specs[k], v))) continue;
          auto fi = static_cast<size_t>(fineIndex(k, v));
          acc[fi] += static_cast<Wide>(x[static_cast<size_t>(i)]) * static_cast<Wide>(s.coeffs[k]);
          covered[fi] = 1;
        }
      }
      for (size_t k = 0; k < nodal.size(); ++k) {
        auto& x = nodal[k][ff];
        for (long i = 0; i < s.specs[k].total; ++i) {
          s.specs[k].vec(i, v);
          auto fi = static_cast<size_t>(fineIndex(k, v));
          if (covered[fi] && set.count(subspace(s.specs[k], v))) x[static_cast<size_t>(i)] = static_cast<T>(acc[fi]);
        }
        maxAbs = std::max(maxAbs, ref::absmax(x));
        ref::transformAll(s.specs[k], x, all, s.bases, lh, true);
        maxAbs = std::max(maxAbs, ref::absmax(x));
      }
    }
  }
  /// the combined solution on a grid of level l (<= lmax): coefficients of the sparse grid, zero elsewhere
  std::vector<T> evaluateOn(const GridSpec& sp, int field) const {
    std::vector<T> x(static_cast<size_t>(sp.total), T(0));
    std::vector<long> v, w(sp.level.size());
    for (long i = 0; i < sp.total; ++i) {
      sp.vec(i, v);
      for (size_t d = 0; d < v.size(); ++d) {
        int sh = s.lmax[d] - sp.level[d];
        w[d] = sp.bnd[d] == 0 ? ((v[d] + 1) << sh) - 1 : v[d] << sh;
      }
      auto fi = static_cast<size_t>(s.fine.lin(w));
      if (covered[fi]) x[static_cast<size_t>(i)] = static_cast<T>(coeff[static_cast<size_t>(field)][fi]);
    }
    ref::transformAll(sp, x, std::vector<bool>(sp.level.size(), true), s.bases, toLib(s.lminHier()), true);
    return x;
  }
  /// smallest and largest (real part of the) coefficient of a subspace of the last combination
  std::map<LV, std::pair<double, double>> minMax(int field) const {
    std::map<LV, std::pair<double, double>> r;
    std::vector<long> v;
    for (long i = 0; i < s.fine.total; ++i) {
      if (!covered[static_cast<size_t>(i)]) continue;
      s.fine.vec(i, v);
      auto l = subspace(s.fine, v);
      double x = static_cast<double>(std::real(coeff[static_cast<size_t>(field)][static_cast<size_t>(i)]));
      auto it = r.find(l);
      if (it == r.end())
        r[l] = {x, x};
      else
        it->second = {std::min(it->second.first, x), std::max(it->second.second, x)};
    }
    return r;
  }
  double tol(int round) const {
    double gr = 1;
    for (auto l : s.lmax) gr *= 2. * (l + 1);
    double sc = 1;
    for (auto c : s.coeffs) sc += std::abs(c);
    double amp = std::min(s.amplification(), 1e4);
    return 16. * ref::eps<T>() * gr * maxAbs * sc * amp * std::pow(100., round);
  }
};

/// task whose grids are filled from the case's data
template <typename T>
class CaseTask : public Task<T> {
 public:
  CaseTask(const CombiSpec* s, size_t grid, const std::vector<BoundaryType>& b, double coeff)
      : Task<T>(toLib(s->levels[grid]), b, coeff, nullptr), spec_(s), grid_(grid) {}
  void init(CommunicatorType lcomm, const std::vector<IndexVector>& decomposition) override {
    for (int f = 0; f < spec_->numGrids; ++f)
      dfg_.emplace_back(new OwningDistributedFullGrid<T>(this->getDim(), this->getLevelVector(), lcomm, this->getBoundary(),
                                                         spec_->f.procs, spec_->forward, decomposition));
  }
  void run(CommunicatorType) override {
    apply(action());
    this->setFinished(true);
  }
  void apply(const Action& a) {
    if (a.kind == 0) return;
    for (int f = 0; f < spec_->numGrids; ++f) {
      auto& d = *dfg_[static_cast<size_t>(f)];
      auto b = boxOf(spec_->specs[grid_], d, d.getRank());
      T* p = d.getData();
      std::vector<long> v;
      forBox(spec_->specs[grid_], b, [&](long i, long gl) {
        spec_->specs[grid_].vec(gl, v);
        auto x = valueAt<T>(*spec_, grid_, f, a, v);
        p[i] = a.kind == 1 ? x : p[i] + x;
      });
    }
  }
  static Action& action() {
    static Action a;
    return a;
  }
  DistributedFullGrid<T>& getDistributedFullGrid(size_t n) override { return *dfg_[n]; }
  const DistributedFullGrid<T>& getDistributedFullGrid(size_t n) const override { return *dfg_[n]; }
  void setZero() override {
    for (auto& d : dfg_) d->setZero();
  }
  size_t grid() const { return grid_; }

 private:
  const CombiSpec* spec_;
  size_t grid_;
  std::vector<std::unique_ptr<OwningDistributedFullGrid<T>>> dfg_;
};

/// communicator over the first n world ranks (cached)
inline MPI_Comm firstRanks(int n) {
  static std::map<int, MPI_Comm> cache;
  auto it = cache.find(n);
  if (it != cache.end()) return it->second;
  MPI_Comm c;
  MPI_Comm_split(MPI_COMM_WORLD, pbt::worldRank() < n ? 0 : MPI_UNDEFINED, pbt::worldRank(), &c);
  cache[n] = c;
  return c;
}

/// the library remembers the communicator of the last grid by its handle: make it look at one that
/// is never freed, so that a recycled handle is not taken for the old communicator
inline void forgetCommunicator() {
  static MPI_Comm cart = MPI_COMM_NULL;
  if (cart == MPI_COMM_NULL) {
    int one = 1, per = 0;
    MPI_Cart_create(MPI_COMM_SELF, 1, &one, &per, 0, &cart);
  }
  OwningDistributedFullGrid<double> d(1, LevelVector{1}, cart, std::vector<BoundaryType>{2}, std::vector<int>{1}, false);
  OwningDistributedFullGrid<std::complex<float>> e(1, LevelVector{1}, cart, std::vector<BoundaryType>{2}, std::vector<int>{1}, false);
}

/// (re-)initialize the library's process layout on the first ngroup*nprocs ranks; true on those
inline bool layout(int ngroup, int nprocs, bool always = false) {
  static int lastG = -1, lastP = -1;
  MPI_Comm c = firstRanks(ngroup * nprocs);
  forgetCommunicator();
  if (always || ngroup != lastG || nprocs != lastP) {
    if (c != MPI_COMM_NULL)
      theMPISystem()->initWorldReusable(c, static_cast<size_t>(ngroup), static_cast<size_t>(nprocs), false, false);
    // every rank remembers the layout: the cache must be the same decision everywhere.  A rank that
    // is not part of the new layout keeps a stale system, so the next layout re-initializes it.
    lastG = ngroup;
    lastP = nprocs;
  }
  return c != MPI_COMM_NULL;
}

inline CombiParameters makeParameters(const CombiSpec& s, size_t ncombi = 10) {
  CombiParameters p(static_cast<DimType>(s.lmin.size()), toLib(s.lmin), toLib(s.lmax), s.f.bnd, ncombi,
                    static_cast<IndexType>(s.numGrids), s.variant, s.f.procs, LevelVector(0), toLib(s.reduce), s.chunkMiB,
                    s.forward);
  std::vector<BasisFunctionBasis*> b;
  for (auto x : s.bases) b.push_back(makeBasis(x).release());
  p.setHierarchicalBases(b);
  if (s.setDecomposition) p.setDecomposition(s.f.refDec);
  return p;
}

/// the subspaces of the worker's sparse grid
template <typename T>
std::set<LV> subspacesOf(ProcessGroupWorker<T>& w, size_t field = 0) {
  std::set<LV> r;
  for (auto& l : w.getCombinedDSGVector()[field]->getAllLevelVectors()) r.insert(fromLib(l));
  return r;
}
inline std::set<LV> subspacesNeeded(const CombiSpec& s) {
  std::set<LV> r;
  LV one(s.lmin.size(), 1);
  for (auto& l : s.levels) forLevels(one, l, [&](const LV& x) { r.insert(x); });
  return r;
}
}  // namespace ad
