// C10: histories of a distributed sparse grid against a map from (subspace, point) to values
#include <omp.h>

#include "common/family.hpp"
#include "sparsegrid/DistributedSparseGridUniform.hpp"

using namespace ad;
using pbt::Ctx;
using pbt::Gen;

namespace {
template <typename T>
struct Wide {
  using type = long double;
};
template <typename R>
struct Wide<std::complex<R>> {
  using type = std::complex<long double>;
};
template <typename T>
struct RealOf {
  using type = T;
};
template <typename R>
struct RealOf<std::complex<R>> {
  using type = R;
};
long double re(long double x) { return x; }
long double re(std::complex<long double> x) { return x.real(); }
long double widen(double x) { return x; }
long double widen(float x) { return x; }
template <typename R>
std::complex<long double> widen(std::complex<R> x) {
  return {x.real(), x.imag()};
}

/// a component grid with its data
template <typename T>
struct Comp {
  LV level;
  GridSpec spec;
  Owned<T> own;
  std::vector<T> data;  // global data, as last set
};

/// what the sparse grid holds on this process
template <typename T>
struct Model {
  using W = typename Wide<T>::type;
  struct Container {
    std::set<int> allocated;  // empty and !created: nothing known
    bool created = false;
    // subspace -> point (linear index on the reference-level grid) -> value
    std::map<int, std::map<long, W>> values;
    std::map<int, std::map<long, long double>> mag;  // sum of magnitudes, for the tolerance
    long double old = 0;                             // largest magnitude of forgotten values
  };
  std::vector<LV> levels;
  std::vector<std::vector<bool>> registered;  // [rank][subspace] has its size set
  std::vector<std::vector<long>> npoints;     // [rank][subspace] owned points
  Container cur;
  int index(const LV& l) const {
    auto it = std::lower_bound(levels.begin(), levels.end(), l);
    return it != levels.end() && *it == l ? static_cast<int>(it - levels.begin()) : -1;
  }
  long size(int rank, int s) const {
    return registered[static_cast<size_t>(rank)][static_cast<size_t>(s)]
               ? npoints[static_cast<size_t>(rank)][static_cast<size_t>(s)]
               : 0;
  }
  void forget() {
    for (auto& m : cur.mag)
      for (auto& p : m.second) cur.old = std::max(cur.old, p.second);
    cur.values.clear();
    cur.mag.clear();
  }
};

template <typename T>
struct Machine {
  using W = typename Wide<T>::type;
  Gen& g;
  Ctx& c;
  Family f;
  MPI_Comm comm;
  int rank;  // in the grid's communicator, or -1
  GridSpec refSpec;
  std::vector<Comp<T>> comps;
  std::vector<std::unique_ptr<DistributedSparseGridUniform<T>>> dsg;
  std::vector<Model<T>> model;
  std::unique_ptr<DistributedSparseGridDataContainer<T>> spare;
  typename Model<T>::Container spareModel;
  std::vector<std::map<int, std::pair<long double, long double>>> minmax;
  std::string log;

  Machine(Gen& g_, Ctx& c_) : g(g_), c(c_) {}

  bool active() const { return comm != MPI_COMM_NULL; }
  long double epsT() const { return std::numeric_limits<typename RealOf<T>::type>::epsilon(); }

  long refIndex(const GridSpec& s, const std::vector<long>& v) const {
    std::vector<long> w(v);
    for (int d = 0; d < s.dim; ++d) {
      auto dd = static_cast<size_t>(d);
      int diff = f.ref[dd] - s.level[dd];
      w[dd] = s.bnd[dd] == 0 ? ((v[dd] + 1) << diff) - 1 : v[dd] << diff;
    }
    return refSpec.lin(w);
  }
  template <typename F>
  void forPoints(const Comp<T>& k, F&& fn) const {
    LocalBox b;
    auto cc = k.spec.cartCoords(rank);
    for (int d = 0; d < f.dim; ++d) {
      auto dd = static_cast<size_t>(d);
      auto x = static_cast<size_t>(cc[dd]);
      b.lo.push_back(k.spec.decomposition[dd][x]);
      b.hi.push_back(x + 1 < k.spec.decomposition[dd].size() ? k.spec.decomposition[dd][x + 1] : k.spec.n[dd]);
    }
    std::vector<long> v;
    forBox(k.spec, b, [&](long i, long gl) {
      k.spec.vec(gl, v);
      LV l;
      for (int d = 0; d < f.dim; ++d) {
        auto dd = static_cast<size_t>(d);
        l.push_back(subspaceLevel(k.spec.level[dd], k.spec.bnd[dd], v[dd]));
      }
      fn(i, gl, l, refIndex(k.spec, v));
    });
  }

  void note(const std::string& s) { log += " " + s; }

  void setup() {
    int dim = g.irange(1, 4);
    static const int maxL[] = {0, 7, 5, 4, 3};
    LV lmax, lmin;
    for (int d = 0; d < dim; ++d) {
      lmax.push_back(g.irange(g.chance(25) ? 1 : 2, maxL[dim]));
      lmin.push_back(g.irange(1, lmax.back()));
    }
    if (dim > 1 && g.chance(30)) {
      for (auto& x : lmax) x = std::min(lmax[0] + 1, maxL[dim]);
      for (size_t d = 0; d < lmin.size(); ++d) lmin[d] = std::min(lmin[d], lmax[d]);
    }
    // every grid of the case is at least as fine as `coarse`
    LV coarse(static_cast<size_t>(dim), 1);
    if (g.chance(50)) coarse = lmin;
    f = genFamily(g, lmax, coarse, 8);
    refSpec = f.grid(lmax);
    comm = makeCartFor(refSpec);
    rank = -1;
    if (active()) MPI_Comm_rank(comm, &rank);
    c.label("procs" + std::to_string(f.nprocs));
    c.label("dim" + std::to_string(dim));

    // subspaces
    std::vector<LV> levels;
    bool truncated = g.chance(60);
    LV one(static_cast<size_t>(dim), 1);
    uint64_t subsetSeed = 0;
    int density = 0;
    if (!truncated) {
      subsetSeed = g.dataSeed();
      density = g.irange(30, 100);
    }
    if (!truncated) {
      size_t i = 0;
      forLevels(one, lmax, [&](const LV& l) {
        if (static_cast<int>(ref::hash2(subsetSeed, i++) % 100) < density) levels.push_back(l);
      });
      if (levels.empty()) levels.push_back(one);
    }
    note(f.describe() + " lmin=" + ref::str(lmin) + (truncated ? " truncated" : " listed"));
    std::vector<LevelVector> lib;
    for (auto& l : levels) lib.push_back(toLib(l));
    int nd = g.chance(35) ? 2 : 1;
    for (int i = 0; i < nd; ++i) {
      model.emplace_back();
      minmax.emplace_back();
      if (truncated) {
        levels.clear();
        // the library may enlarge the set (up to all levels below lmax) when the level differences are
        // not equal: take its set, but insist on all subspaces of the combination scheme
        std::vector<LevelVector> created;
        createTruncatedHierarchicalLevels(toLib(lmax), toLib(lmin), created);
        for (auto& l : created) levels.push_back(fromLib(l));
        bool ordered = std::is_sorted(levels.begin(), levels.end()) &&
                       std::adjacent_find(levels.begin(), levels.end()) == levels.end();
        c.check(ordered, "subspace levels are sorted and unique");
        int cdiff = 1 << 20;
        bool equal = true;
        for (size_t d = 0; d < lmax.size(); ++d) {
          if (lmax[d] > lmin[d]) cdiff = std::min(cdiff, lmax[d] - lmin[d]);
          equal = equal && lmax[d] - lmin[d] == lmax[0] - lmin[0];
        }
        std::set<LV> have(levels.begin(), levels.end());
        size_t needed = 0;
        forLevels(one, lmax, [&](const LV& l) {
          int over = 0;
          for (size_t d = 0; d < lmax.size(); ++d)
            over += std::max(0, l[d] - (lmax[d] == lmin[d] ? lmin[d] : lmax[d] - cdiff));
          if (cdiff == 1 << 20 || over <= cdiff) {
            ++needed;
            c.check(have.count(l) == 1, "subspace " + ref::str(l) + " of the combination scheme is missing");
          }
        });
        for (auto& l : levels)
          for (size_t d = 0; d < l.size(); ++d)
            c.check(l[d] >= 1 && l[d] <= lmax[d], "subspace outside of the level range " + ref::str(l));
        if (equal) c.check(needed == levels.size(), "subspaces beyond the combination scheme");
      }
      model.back().levels = levels;
      model.back().registered.assign(static_cast<size_t>(f.nprocs), std::vector<bool>(levels.size(), false));
      // owned points of every subspace, on every rank
      auto& np = model.back().npoints;
      np.assign(static_cast<size_t>(f.nprocs), std::vector<long>(levels.size(), 0));
      for (size_t s = 0; s < levels.size(); ++s) {
        std::vector<std::vector<long>> cnt;
        for (int d = 0; d < dim; ++d) {
          auto dd = static_cast<size_t>(d);
          std::vector<long> k(f.refDec[dd].size(), 0);
          long n = refSpec.n[dd];
          for (long x = 0; x < n; ++x) {
            if (subspaceLevel(lmax[dd], f.bnd[dd], x) != levels[s][dd]) continue;
            size_t o = f.refDec[dd].size() - 1;
            while (f.refDec[dd][o] > x) --o;
            ++k[o];
          }
          cnt.push_back(k);
        }
        for (int r = 0; r < f.nprocs; ++r) {
          auto cc = refSpec.cartCoords(r);
          long p = 1;
          for (int d = 0; d < dim; ++d) p *= cnt[static_cast<size_t>(d)][static_cast<size_t>(cc[static_cast<size_t>(d)])];
          np[static_cast<size_t>(r)][s] = p;
        }
      }
      if (active()) {
        dsg.emplace_back(truncated ? new DistributedSparseGridUniform<T>(static_cast<DimType>(dim), toLib(lmax), toLib(lmin), comm)
                                   : new DistributedSparseGridUniform<T>(static_cast<DimType>(dim), lib, comm));
        std::vector<LV> got;
        for (auto& l : dsg.back()->getAllLevelVectors()) got.push_back(fromLib(l));
        c.check(got == levels, "subspaces of the sparse grid (order or set)");
        c.check(static_cast<size_t>(dsg.back()->getNumSubspaces()) == levels.size(), "number of subspaces");
        if (got != levels) return;
      }
    }
    // component grids
    int nk = g.irange(1, 4);
    for (int k = 0; k < nk; ++k) {
      LV l;
      for (int d = 0; d < dim; ++d)
        l.push_back(g.irange(coarse[static_cast<size_t>(d)], lmax[static_cast<size_t>(d)]));
      comps.emplace_back();
      auto& K = comps.back();
      K.level = l;
      K.spec = f.grid(l);
      note("grid" + std::to_string(k) + "=" + ref::str(l));
      K.data.assign(static_cast<size_t>(K.spec.total), T(0));
      if (active()) {
        K.own = makeDfg<T>(K.spec, comm);
        fillComp(K, 1000 + static_cast<uint64_t>(k), 1.);
      } else {
        fillComp(K, 1000 + static_cast<uint64_t>(k), 1.);
      }
    }
    // library and reference must agree on the decomposition before anything else makes sense
    c.nontrivial = f.nprocs > 1 || refSpec.total > 3;
  }
  void fillComp(Comp<T>& K, uint64_t seed, double scale) {
    for (long i = 0; i < K.spec.total; ++i)
      K.data[static_cast<size_t>(i)] = ref::Value<T>::make(seed, static_cast<uint64_t>(i)) * static_cast<T>(scale);
    if (active()) scatter(K.spec, K.data, *K.own.dfg);
  }

  bool allRanksHave(const Model<T>& m, const std::set<int>& subs) const {
    for (int r = 0; r < f.nprocs; ++r) {
      long n = 0;
      for (int s : subs) n += m.size(r, s);
      if (n == 0) return false;
    }
    return true;
  }
  std::set<int> allSubs(const Model<T>& m) const {
    std::set<int> s;
    for (size_t i = 0; i < m.levels.size(); ++i) s.insert(static_cast<int>(i));
    return s;
  }

  void checkSizes(size_t i) {
    if (!active()) return;
    auto& m = model[i];
    size_t total = 0, alloc = 0;
    for (size_t s = 0; s < m.levels.size(); ++s) {
      auto expected = static_cast<size_t>(m.size(rank, static_cast<int>(s)));
      total += expected;
      if (m.cur.created && m.cur.allocated.count(static_cast<int>(s))) alloc += expected;
      c.checkf(dsg[i]->getDataSize(s) == expected, [&](std::ostream& os) {
        os << "size of subspace " << ref::str(m.levels[s]) << ": " << dsg[i]->getDataSize(s) << " expected " << expected;
      });
    }
    c.check(dsg[i]->getAccumulatedDataSize() == total, "accumulated data size");
    c.check(dsg[i]->getRawDataSize() == alloc, "allocated data size");
    c.check(dsg[i]->isSubspaceDataCreated() == (alloc > 0), "isSubspaceDataCreated");
  }

  void doRegister(size_t i, size_t k) {
    note("register" + std::to_string(k) + "@" + std::to_string(i));
    auto& m = model[i];
    for (size_t s = 0; s < m.levels.size(); ++s) {
      bool in = true;
      for (size_t d = 0; d < comps[k].level.size(); ++d) in = in && m.levels[s][d] <= comps[k].level[d];
      if (!in) continue;
      for (int r = 0; r < f.nprocs; ++r) {
        bool grows = !m.registered[static_cast<size_t>(r)][s] && m.npoints[static_cast<size_t>(r)][s] > 0;
        m.registered[static_cast<size_t>(r)][s] = true;
        if (grows && r == rank) {  // data is invalidated
          m.forget();
          m.cur.old = 0;
          m.cur.created = false;
        }
      }
    }
    if (active()) dsg[i]->registerDistributedFullGrid(*comps[k].own.dfg);
  }
  /// is the data present on every rank: whether registering invalidated it may differ between
  /// ranks, so the machine agrees on it
  bool everyoneCreated(size_t i) {
    int mine = active() ? (model[i].cur.created ? 1 : 0) : 1, all = 0;
    MPI_Allreduce(&mine, &all, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
    return all == 1;
  }

  void zeroValues(size_t i) {
    auto& m = model[i];
    m.forget();
  }
  W& val(Model<T>& m, int s, long p) { return m.cur.values[s][p]; }

  void doAdd(size_t i, size_t k, double coeff, bool full) {
    note("add" + std::to_string(k) + "*" + std::to_string(coeff) + (full ? "" : "(partial)") + "@" + std::to_string(i));
    if (!active()) return;
    auto& m = model[i];
    if (full)
      dsg[i]->template addDistributedFullGrid<true>(*comps[k].own.dfg, coeff);
    else
      dsg[i]->template addDistributedFullGrid<false>(*comps[k].own.dfg, coeff);
    addToModel(m, k, coeff);
    // the grid itself is not changed
    const T* p = comps[k].own.dfg->getData();
    bool same = true;
    forPoints(comps[k], [&](long li, long gl, const LV&, long) { same = same && p[li] == comps[k].data[static_cast<size_t>(gl)]; });
    c.check(same, "adding a grid changed the grid");
  }
  void addToModel(Model<T>& m, size_t k, double coeff) {
    forPoints(comps[k], [&](long, long gl, const LV& l, long p) {
      int s = m.index(l);
      if (s < 0 || m.size(rank, s) == 0 || !m.cur.allocated.count(s)) return;
      W x = static_cast<long double>(coeff) * widen(comps[k].data[static_cast<size_t>(gl)]);
      m.cur.values[s][p] += x;
      m.cur.mag[s][p] += std::abs(x);
    });
  }
  long double tol(const Model<T>& m, int s, long p) const {
    auto it = m.cur.mag.find(s);
    long double a = 0;
    if (it != m.cur.mag.end()) {
      auto j = it->second.find(p);
      if (j != it->second.end()) a = j->second;
    }
    return 4 * epsT() * (a + m.cur.old) + std::numeric_limits<typename RealOf<T>::type>::min() * 16;
  }

  void doExtract(size_t i, Comp<T>& K, const std::string& name, bool full) {
    note("extract" + name + (full ? "" : "(partial)") + "@" + std::to_string(i));
    if (!active()) return;
    auto& m = model[i];
    size_t n = full ? K.own.dfg->template extractFromUniformSG<true>(*dsg[i])
                    : K.own.dfg->template extractFromUniformSG<false>(*dsg[i]);
    size_t expectedN = 0;
    const T* p = K.own.dfg->getData();
    forPoints(K, [&](long li, long gl, const LV& l, long pt) {
      int s = m.index(l);
      auto& old = K.data[static_cast<size_t>(gl)];
      if (s < 0 || m.size(rank, s) == 0 || !m.cur.allocated.count(s)) {
        c.checkf(p[li] == old, [&](std::ostream& os) {
          os << "extraction changed a point of subspace " << ref::str(l) << " which is not in the sparse grid: " << p[li]
             << " was " << old;
        });
        return;
      }
      ++expectedN;
      W e = 0;
      auto it = m.cur.values.find(s);
      if (it != m.cur.values.end()) {
        auto j = it->second.find(pt);
        if (j != it->second.end()) e = j->second;
      }
      auto t = tol(m, s, pt);
      c.checkf(std::abs(widen(p[li]) - e) <= t, [&](std::ostream& os) {
        os.precision(20);
        os << "extracted value in subspace " << ref::str(l) << " at reference point " << pt << " is " << p[li] << " expected "
           << e << " tolerance " << t;
      });
      old = p[li];
    });
    c.check(n == expectedN, "number of extracted values");
  }

  void doMinMax(size_t i) {
    note("minmax@" + std::to_string(i));
    if (!active()) return;
    auto& m = model[i];
    dsg[i]->accumulateMinMaxCoefficients();
    auto& mn = dsg[i]->getMinCoefficientsPerSubspace();
    auto& mx = dsg[i]->getMaxCoefficientsPerSubspace();
    c.check(mn.size() == m.levels.size() && mx.size() == m.levels.size(), "one minimum and maximum per subspace");
    if (mn.size() != m.levels.size() || mx.size() != m.levels.size()) return;
    for (size_t s = 0; s < m.levels.size(); ++s) {
      int si = static_cast<int>(s);
      long n = m.size(rank, si);
      long double t = 0;
      if (n > 0 && m.cur.allocated.count(si)) {
        long double lo = 1e300L, hi = -1e300L;
        auto it = m.cur.values.find(si);
        long seen = 0;
        if (it != m.cur.values.end())
          for (auto& kv : it->second) {
            ++seen;
            lo = std::min(lo, re(kv.second));
            hi = std::max(hi, re(kv.second));
            t = std::max(t, tol(m, si, kv.first));
          }
        if (seen < n) {
          lo = std::min(lo, 0.L);
          hi = std::max(hi, 0.L);
          t = std::max(t, tol(m, si, -1));
        }
        auto& mm = minmax[i];
        auto j = mm.find(si);
        if (j == mm.end())
          mm[si] = {lo, hi};
        else
          j->second = {std::min(lo, j->second.first), std::max(hi, j->second.second)};
        mmTol[i] = std::max(mmTol[i], t);
      }
      auto j = minmax[i].find(si);
      if (j != minmax[i].end()) {
        auto e = j->second;
        c.checkf(std::abs(static_cast<long double>(mn[s]) - e.first) <= mmTol[i] + 1e-300L, [&](std::ostream& os) {
          os << "minimum of subspace " << ref::str(m.levels[s]) << " is " << mn[s] << " expected " << e.first;
        });
        c.checkf(std::abs(static_cast<long double>(mx[s]) - e.second) <= mmTol[i] + 1e-300L, [&](std::ostream& os) {
          os << "maximum of subspace " << ref::str(m.levels[s]) << " is " << mx[s] << " expected " << e.second;
        });
      }
    }
  }
  std::map<size_t, long double> mmTol;

  void checkLookup(size_t i) {
    if (!active()) return;
    auto& m = model[i];
    LV hi = f.ref;
    for (auto& x : hi) ++x;
    forLevels(LV(f.ref.size(), 1), hi, [&](const LV& l) {
      c.check(dsg[i]->getIndex(toLib(l)) == m.index(l), "index of subspace " + ref::str(l));
    });
    int last = 0;
    for (size_t s = 0; s < m.levels.size(); ++s) {
      last = dsg[i]->getIndexInRange(toLib(m.levels[s]), last);
      c.check(last == static_cast<int>(s), "index of subspace, searched from the previous one");
    }
  }

  bool anyFailed() {
    int b = c.failed, any = 0;
    MPI_Allreduce(&b, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
    return any != 0;
  }
  void run() {
    setup();
    if (anyFailed()) return;
    bool threads = g.chance(10);
    omp_set_num_threads(threads ? 3 : 1);
    if (threads) note("threads=3");
    for (size_t i = 0; i < model.size(); ++i) checkLookup(i);
    size_t n = static_cast<size_t>(g.irange(3, 20));
    // always begin by registering something
    doRegister(0, 0);
    if (g.chance(70)) for (size_t k = 1; k < comps.size(); ++k) doRegister(0, k);
    bool interesting = false;
    for (size_t step = 0; step < n; ++step) {
      size_t i = model.size() > 1 ? static_cast<size_t>(g.range(0, 1)) : 0;
      size_t k = static_cast<size_t>(g.range(0, static_cast<int64_t>(comps.size()) - 1));
      auto& m = model[i];
      int op = g.irange(0, 13);
      bool created = everyoneCreated(i);
      if (!created && g.chance(70)) op = g.chance(70) ? 1 : 4;
      bool full = created && m.cur.allocated.size() == m.levels.size();
      switch (op) {
        case 0: doRegister(i, k); break;
        case 1: {  // create
          std::set<int> s = m.cur.allocated.empty() ? allSubs(m) : m.cur.allocated;
          if (!allRanksHave(m, s)) break;
          note("create@" + std::to_string(i));
          if (active()) {
            dsg[i]->createSubspaceData();
            zeroValues(i);
          }
          m.cur.created = true;
          m.cur.allocated = s;
          break;
        }
        case 2: {
          note("zero@" + std::to_string(i));
          if (active()) {
            dsg[i]->setZero();
            zeroValues(i);
          }
          m.cur.old = 0;
          break;
        }
        case 3: {
          if (!g.chance(40)) break;
          note("delete@" + std::to_string(i));
          if (active()) dsg[i]->deleteSubspaceData();
          zeroValues(i);
          m.cur.old = 0;
          m.cur.created = false;
          break;
        }
        case 4: {  // allocate another set of subspaces
          auto seed = g.dataSeed();
          int density = g.irange(10, 100);
          std::set<int> s;
          for (size_t x = 0; x < m.levels.size(); ++x)
            if (static_cast<int>(ref::hash2(seed, x) % 100) < density) s.insert(static_cast<int>(x));
          if (s.empty() || !allRanksHave(m, s)) break;
          note("allocate" + std::to_string(s.size()) + "@" + std::to_string(i));
          if (active()) {
            dsg[i]->allocateDifferentSubspaces(std::set<int>(s));
            c.check(dsg[i]->getCurrentlyAllocatedSubspaces() == s, "set of allocated subspaces");
          }
          zeroValues(i);
          m.cur.old = 0;
          m.cur.created = true;
          m.cur.allocated = s;
          break;
        }
        case 5:
        case 6:
        case 7: {
          if (!created) break;
          static const double cs[] = {1, -1, 2, -3, 0.5, 6, 0.1, -1.7};
          doAdd(i, k, cs[g.draw(8)], full && g.chance(70));
          interesting = true;
          break;
        }
        case 8: {  // many small contributions onto a large one
          if (!created) break;
          int reps = g.irange(2, 60);
          if (comps[k].spec.total > 400) reps = std::min(reps, 8);
          doAdd(i, k, 1., full);
          double tiny = static_cast<double>(epsT()) * 0.4;
          note("addtiny" + std::to_string(reps) + "x" + std::to_string(k));
          if (active())
            for (int r = 0; r < reps; ++r) {
              if (full)
                dsg[i]->template addDistributedFullGrid<true>(*comps[k].own.dfg, tiny);
              else
                dsg[i]->template addDistributedFullGrid<false>(*comps[k].own.dfg, tiny);
              addToModel(m, k, tiny);
            }
          interesting = true;
          break;
        }
        case 9:
        case 10:
          if (created) doExtract(i, comps[k], std::to_string(k), full && g.chance(70));
          break;
        case 11:
          fillComp(comps[k], g.dataSeed(), g.chance(20) ? 1e4 : 1.);
          note("fill" + std::to_string(k));
          break;
        case 12:
          if (created) {
            if (g.chance(30) && active()) {
              dsg[i]->clearMinMaxCoefficientsPerSubspace();
              minmax[i].clear();
              mmTol[i] = 0;
            }
            doMinMax(i);
          }
          break;
        default: {
          if (model.size() < 2) {  // swap the data away and back
            if (!created) break;
            if (!spare) {
              if (active()) spare.reset(new DistributedSparseGridDataContainer<T>(*dsg[0]));
              note("spare");
              if (!active()) spareModel.created = false;
            }
            if (!active()) break;
            // look after an unrelated container has been in place
            note("swaptwice");
            dsg[0]->swapDataContainers(*spare);
            c.check(!dsg[0]->isSubspaceDataCreated(), "data visible after swapping in an empty container");
            dsg[0]->swapDataContainers(*spare);
            break;
          }
          size_t o = 1 - i;
          if (g.chance(40)) {
            note("maxsizes" + std::to_string(o) + "to" + std::to_string(i));
            for (int r = 0; r < f.nprocs; ++r)
              for (size_t s = 0; s < m.levels.size(); ++s)
                if (model[o].registered[static_cast<size_t>(r)][s]) m.registered[static_cast<size_t>(r)][s] = true;
            if (active()) dsg[i]->maxReduceSubspaceSizes(*dsg[o]);
            zeroValues(i);
            m.cur.old = 0;
            m.cur.created = false;
          } else if (created && everyoneCreated(o)) {
            note("copy" + std::to_string(o) + "to" + std::to_string(i));
            if (!active()) break;
            std::vector<int> common;
            for (size_t s = 0; s < m.levels.size(); ++s) {
              int si = static_cast<int>(s);
              if (m.cur.allocated.count(si) && model[o].cur.allocated.count(si) && m.size(rank, si) > 0 && model[o].size(rank, si) > 0)
                common.push_back(si);
            }
            bool some = (step % 2) == 1;
            if (some) {
              // only every other one
              std::vector<int> half;
              for (size_t x = 0; x < common.size(); x += 2) half.push_back(common[x]);
              common = half;
              // selected subspaces may have no points on this process
              for (size_t s = 0; s < m.levels.size(); ++s) {
                int si = static_cast<int>(s);
                if (m.size(rank, si) == 0 && model[o].size(rank, si) == 0 && (s + static_cast<size_t>(step) / 2) % 2) half.push_back(si);
              }
              std::sort(half.begin(), half.end());
              dsg[i]->copyDataFrom(*dsg[o], half);
            } else {
              dsg[i]->copyDataFrom(*dsg[o]);
            }
            m.cur.old = std::max(m.cur.old, model[o].cur.old);
            for (int s : common) {
              for (auto& p : m.cur.mag[s]) m.cur.old = std::max(m.cur.old, p.second);
              m.cur.values[s] = model[o].cur.values[s];
              m.cur.mag[s] = model[o].cur.mag[s];
            }
          }
        }
      }
      checkSizes(i);
      if (anyFailed()) break;
    }
    // look at everything through a grid of the reference level (a subset of a fresh grid)
    for (size_t i = 0; i < model.size(); ++i) {
      bool created = everyoneCreated(i);
      if (anyFailed()) break;
      if (!created) continue;
      Comp<T> K;
      K.level = f.ref;
      K.spec = refSpec;
      K.data.assign(static_cast<size_t>(refSpec.total), T(0));
      if (active()) K.own = makeDfg<T>(K.spec, comm);
      fillComp(K, 4242, 1.);
      doExtract(i, K, "all", false);
    }
    c.nontrivial = c.nontrivial && interesting;
    omp_set_num_threads(1);
    c.desc << log;
  }
};

template <typename T>
void history(Gen& g, Ctx& c) {
  Machine<T> m(g, c);
  m.run();
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Driver d;
  std::string prop = argc > 1 ? argv[1] : "";
  if (prop == "C10") {
    d.add("history_double", 3, history<double>);
    d.add("history_float", 2, history<float>);
    d.add("history_complex", 2, history<std::complex<double>>);
    d.add("history_complexfloat", 1, history<std::complex<float>>);
  } else {
    return 9;
  }
  return d.main(argc - 1, argv + 1);
}
