// C13: objects sent to other processes; C21: serial full grids.
#include <mpi.h>

#include <boost/serialization/export.hpp>
#include <cmath>
#include <cstring>
#include <typeinfo>

#include "common/dfg.hpp"
#include "common/grid.hpp"
#include "fault_tolerance/StaticFaults.hpp"
#include "fullgrid/FullGrid.hpp"
#include "fullgrid/Tensor.hpp"
#include "hierarchization/Hierarchization.hpp"
#include "manager/CombiParameters.hpp"
#include "mpi/MPIUtils.hpp"
#include "task/Task.hpp"
#include "utils/BoostExports.hpp"
#include "utils/MonteCarlo.hpp"

using namespace combigrid;
using pbt::Ctx;
using pbt::Gen;

class SentTask : public Task<double> {
 public:
  SentTask() = default;
  SentTask(const LevelVector& l, const std::vector<BoundaryType>& b, real c, FaultCriterion* f)
      : Task<double>(l, b, c, nullptr, f) {}
  void run(CommunicatorType) override {}
  void init(CommunicatorType, const std::vector<IndexVector>&) override {}
  void setZero() override {}
  DistributedFullGrid<double>& getDistributedFullGrid(size_t) override { throw std::runtime_error("no grid"); }
  FaultCriterion* crit() const { return faultCriterion_; }
  std::string text;
  std::vector<double> numbers;

 private:
  friend class boost::serialization::access;
  template <class Archive>
  void serialize(Archive& ar, const unsigned int) {
    ar& boost::serialization::base_object<Task<double>>(*this);
    ar& text;
    ar& numbers;
  }
};
class OtherTask : public SentTask {
 public:
  OtherTask() = default;
  OtherTask(const LevelVector& l, const std::vector<BoundaryType>& b, real c, FaultCriterion* f)
      : SentTask(l, b, c, f) {}

 private:
  friend class boost::serialization::access;
  template <class Archive>
  void serialize(Archive& ar, const unsigned int) {
    ar& boost::serialization::base_object<SentTask>(*this);
  }
};
BOOST_CLASS_EXPORT(SentTask)
BOOST_CLASS_EXPORT(OtherTask)

namespace {
double anyReal(Gen& g) {
  switch (g.draw(6)) {
    case 0: return static_cast<double>(g.range(-3, 3));
    case 1: return static_cast<double>(g.range(-1000, 1000)) / 7.;
    case 2: return std::ldexp(static_cast<double>(g.range(1, 1000)), static_cast<int>(g.range(-300, 300)));
    case 3: return 1. / 3.;
    case 4: return -0.1 * static_cast<double>(g.range(0, 100));
    default: return static_cast<double>(g.range(-1, 1)) * 1e-17;
  }
}
LevelVector anyLevel(Gen& g, int dim, int hi) {
  LevelVector l;
  for (int d = 0; d < dim; ++d) l.push_back(static_cast<LevelType>(g.range(0, hi)));
  return l;
}
std::string anyText(Gen& g) {
  std::string s;
  static const char* c = "ab z_.:/-\n9\"0 ";
  int n = static_cast<int>(g.draw(12));
  for (int i = 0; i < n; ++i) s += c[g.draw(14)];
  return s;
}

BasisFunctionBasis* makeBasis(int b) {
  switch (b) {
    case 0: return new HierarchicalHatBasisFunction();
    case 1: return new HierarchicalHatPeriodicBasisFunction();
    case 2: return new FullWeightingBasisFunction();
    case 3: return new FullWeightingPeriodicBasisFunction();
    case 4: return new BiorthogonalBasisFunction();
    default: return new BiorthogonalPeriodicBasisFunction();
  }
}

/// deliver: mode 0 point to point along all receivers, 1 broadcast, 2 broadcast in the reverse group
template <typename T>
void deliver(T* t, int root, int mode) {
  const int W = pbt::worldSize(), me = pbt::worldRank();
  if (mode == 0) {
    for (int r = 0; r < W; ++r) {
      if (r == root) continue;
      if (me == root) MPIUtils::sendClass(t, r, MPI_COMM_WORLD);
      if (me == r) MPIUtils::receiveClass(t, root, MPI_COMM_WORLD);
    }
  } else {
    MPIUtils::broadcastClass(t, root, MPI_COMM_WORLD);
  }
}

void parameters(Gen& g, Ctx& c) {
  const int dim = 1 + static_cast<int>(g.draw(6));
  const bool withScheme = g.chance(70), hierDims = withScheme && g.chance(30);
  LevelVector lmin = anyLevel(g, dim, 3), lmax = lmin;
  for (auto& l : lmax) l = static_cast<LevelType>(l + g.range(0, 8));
  std::vector<BoundaryType> bnd;
  for (int d = 0; d < dim; ++d) bnd.push_back(static_cast<BoundaryType>(g.range(0, 2)));
  std::vector<LevelVector> levels;
  std::vector<real> coeffs;
  std::vector<size_t> ids;
  if (withScheme) {
    int n = 1 + static_cast<int>(g.draw(8));
    for (int i = 0; i < n; ++i) {
      auto l = anyLevel(g, dim, 9);
      if (std::find(levels.begin(), levels.end(), l) != levels.end()) continue;
      levels.push_back(l);
      coeffs.push_back(anyReal(g));
      ids.push_back(ids.empty() ? static_cast<size_t>(g.draw(4)) : ids.back() + 1 + static_cast<size_t>(g.draw(100000)));
    }
    if (g.chance(50)) {
      std::vector<size_t> p(ids.size());
      for (size_t i = 0; i < p.size(); ++i) p[i] = i;
      g.shuffle(p);
      auto q = ids;
      for (size_t i = 0; i < p.size(); ++i) ids[i] = q[p[i]];
    }
  }
  std::vector<bool> hd;
  for (int d = 0; d < dim; ++d) hd.push_back(hierDims ? g.boolean() : true);
  const size_t ncombi = static_cast<size_t>(g.draw(100));
  const IndexType ngrids = 1 + static_cast<IndexType>(g.draw(4));
  const auto variant = static_cast<CombinationVariant>(g.draw(4));
  std::vector<int> par;
  const bool setPar = g.chance(70);
  for (int d = 0; d < dim; ++d) par.push_back(1 + static_cast<int>(g.draw(6)));
  auto redMin = g.chance(50) ? LevelVector(0) : anyLevel(g, dim, 2);
  auto redMax = g.chance(50) ? LevelVector(0) : anyLevel(g, dim, 2);
  const uint32_t chunk = 1 + static_cast<uint32_t>(g.draw(5000));
  const bool fwd = g.boolean();
  const std::string host = anyText(g);
  const auto port = static_cast<unsigned short>(g.draw(65536));
  const size_t pg = static_cast<size_t>(g.draw(50));
  std::vector<int> bases;
  const bool setBases = g.chance(60);
  for (int d = 0; d < dim; ++d) bases.push_back(static_cast<int>(g.draw(6)));
  std::vector<IndexVector> dec;
  const bool setDec = setPar && g.chance(50);
  if (setDec)
    for (int d = 0; d < dim; ++d) {
      IndexVector v{0};
      for (int p = 1; p < par[d]; ++p) v.push_back(v.back() + 1 + static_cast<IndexType>(g.draw(1000)));
      dec.push_back(v);
    }
  const bool recoeff = withScheme && g.chance(30);
  const double newCoeff = anyReal(g);
  const int root = static_cast<int>(g.draw(pbt::worldSize())), mode = static_cast<int>(g.draw(2));
  c.desc << "parameters dim=" << dim << " lmin=" << ref::str(lmin) << " lmax=" << ref::str(lmax) << " bnd=" << ref::str(bnd)
         << " grids=" << levels.size() << " hierDims=" << hierDims << " variant=" << variant << " setPar=" << setPar
         << " setDec=" << setDec << " bases=" << (setBases ? ref::str(bases) : "default") << " redMax=" << ref::str(redMax)
         << " chunk=" << chunk << " fwd=" << fwd << " host='" << host << "' port=" << port << " root=" << root
         << " mode=" << mode;
  c.nontrivial = dim > 1 && levels.size() > 1;
  auto make = [&]() {
    CombiParameters* p;
    if (hierDims)
      p = new CombiParameters(static_cast<DimType>(dim), lmin, lmax, bnd, levels, coeffs, hd, ids, ncombi, ngrids, variant, redMin, redMax,
                          chunk, fwd, host, port, pg);
    else if (withScheme)
      p = new CombiParameters(static_cast<DimType>(dim), lmin, lmax, bnd, levels, coeffs, ids, ncombi, ngrids, variant,
                          setPar ? par : std::vector<int>{0}, redMin, redMax, chunk, fwd, host, port, pg);
    else
      p = new CombiParameters(static_cast<DimType>(dim), lmin, lmax, bnd, ncombi, ngrids, variant, setPar ? par : std::vector<int>{0}, redMin,
                          redMax, chunk, fwd, host, port, pg);
    if (hierDims && setPar) p->setParallelization(par);
    if (setBases) {
      std::vector<BasisFunctionBasis*> b;
      for (int x : bases) b.push_back(makeBasis(x));
      p->setHierarchicalBases(b);
    }
    if (setDec) p->setDecomposition(dec);
    if (recoeff) p->setCoeff(ids[0], newCoeff);
    return std::unique_ptr<CombiParameters>(p);
  };
  // receivers start from a different object half of the time
  auto want = make();
  std::unique_ptr<CombiParameters> got;
  if (pbt::worldRank() == root)
    got = make();
  else
    got.reset(new CombiParameters());
  deliver(got.get(), root, mode);
  auto& a = *got;
  auto& w = *want;
  c.check(a.getDim() == w.getDim(), "dimension");
  c.check(a.getLMin() == w.getLMin() && a.getLMax() == w.getLMax(), "minimum or maximum level");
  c.check(a.getLMaxReductionVector() == redMax, "reduction of the maximum level");
  c.check(a.getBoundary() == bnd, "boundary flags");
  c.check(a.getNumLevels() == levels.size(), "number of grids");
  for (size_t i = 0; i < ids.size(); ++i) {
    const double cf = recoeff && i == 0 ? newCoeff : coeffs[i];
    c.check(a.getCoeff(ids[i]) == cf, "coefficient of a grid");
    c.check(a.getLevel(ids[i]) == levels[i], "level of a grid");
    c.check(a.getID(levels[i]) == ids[i], "grid number of a level");
    auto it = a.getCombiDict().find(levels[i]);
    c.check(it != a.getCombiDict().end() && it->second == cf, "coefficient of a level");
  }
  c.check(a.getCoeff(987654321) == 0, "coefficient of an unknown grid");
  c.check(a.getNumGrids() == static_cast<size_t>(ngrids), "grids per task");
  c.check(a.getHierarchizationDims() == hd, "hierarchized dimensions");
  c.check(a.getNumberOfCombinations() == ncombi, "number of combinations");
  c.check(a.getCombinationVariant() == variant, "combination variant");
  c.check(a.getChunkSizeInMebibybtePerThread() == chunk, "chunk size");
  c.check(a.getForwardDecomposition() == fwd, "direction of decomposition");
  c.check(a.getThirdLevelHost() == host && a.getThirdLevelPort() == port && a.getThirdLevelPG() == pg, "third level host");
  c.check(a.isParallelizationSet() == setPar && (!setPar || a.getParallelization() == par), "parallelization");
  c.check(a.getDecomposition() == dec, "decomposition");
  c.check(a.getHierarchicalBases().size() == static_cast<size_t>(dim), "number of bases");
  if (a.getHierarchicalBases().size() == static_cast<size_t>(dim))
    for (int d = 0; d < dim; ++d) {
      auto* b = a.getHierarchicalBases()[static_cast<size_t>(d)];
      std::unique_ptr<BasisFunctionBasis> ex(setBases ? makeBasis(bases[static_cast<size_t>(d)])
                                                      : makeBasis(bnd[static_cast<size_t>(d)] == 1 ? 1 : 0));
      c.check(b != nullptr && typeid(*b) == typeid(*ex), "hierarchical basis");
    }
}

void tasks(Gen& g, Ctx& c) {
  const int n = 1 + static_cast<int>(g.draw(3));
  const int root = static_cast<int>(g.draw(pbt::worldSize())), mode = static_cast<int>(g.draw(3));
  c.desc << "tasks root=" << root << " mode=" << mode;
  c.nontrivial = n > 1;
  for (int k = 0; k < n; ++k) {
    const int dim = 1 + static_cast<int>(g.draw(6));
    auto l = anyLevel(g, dim, 12);
    std::vector<BoundaryType> bnd;
    for (int d = 0; d < dim; ++d) bnd.push_back(static_cast<BoundaryType>(g.range(0, 2)));
    const double coeff = anyReal(g);
    const bool other = g.boolean(), finished = g.boolean();
    const size_t id = static_cast<size_t>(g.draw(1u << 30));
    const int nf = static_cast<int>(g.draw(5));
    FaultsInfo fi;
    fi.numFaults_ = nf;
    for (int i = 0; i < nf; ++i) {
      fi.iterationFaults_.push_back(static_cast<IndexType>(g.draw(4)));
      fi.globalRankFaults_.push_back(static_cast<IndexType>(g.draw(4)));
    }
    const std::string text = anyText(g);
    std::vector<double> nums;
    for (int i = static_cast<int>(g.draw(4)); i > 0; --i) nums.push_back(anyReal(g));
    c.desc << "; level=" << ref::str(l) << " bnd=" << ref::str(bnd) << " coeff=" << coeff << " id=" << id << " faults=" << nf
           << " numbers=" << nums.size() << " type=" << other;
    Task<double>* t = nullptr;
    if (pbt::worldRank() == root) {
      SentTask* s = other ? new OtherTask(l, bnd, coeff, new StaticFaults(fi)) : new SentTask(l, bnd, coeff, new StaticFaults(fi));
      s->setID(id);
      s->setFinished(finished);
      s->text = text;
      s->numbers = nums;
      t = s;
    }
    if (mode == 0)
      Task<double>::broadcast(&t, root, MPI_COMM_WORLD);
    else
      for (int r = 0; r < pbt::worldSize(); ++r) {
        if (r == root) continue;
        if (pbt::worldRank() == root) Task<double>::send(t, r, MPI_COMM_WORLD);
        if (pbt::worldRank() == r) Task<double>::receive(&t, mode == 1 ? root : MPI_ANY_SOURCE, MPI_COMM_WORLD);
      }
    c.check(t != nullptr && typeid(*t) == (other ? typeid(OtherTask) : typeid(SentTask)), "type of a received task");
    auto* s = dynamic_cast<SentTask*>(t);
    c.check(s != nullptr, "received task");
    if (s) {
      c.check(s->getDim() == dim, "dimension");
      c.check(s->getLevelVector() == l, "level");
      c.check(s->getBoundary() == bnd, "boundary");
      c.check(s->getCoefficient() == coeff, "coefficient");
      c.check(s->getID() == id, "id");
      c.check(s->isFinished() == finished, "finished flag");
      c.check(s->text == text && s->numbers == nums, "data of the derived class");
      c.check(s->crit() != nullptr, "fault criterion");
      if (s->crit())
        for (int it = 0; it < 4; ++it)
          for (int rk = 0; rk < 4; ++rk) {
            bool ex = false;
            for (int i = 0; i < nf; ++i) ex |= fi.iterationFaults_[static_cast<size_t>(i)] == it && fi.globalRankFaults_[static_cast<size_t>(i)] == rk;
            c.check(s->crit()->failNow(it, 0., rk) == ex, "fault criterion's decision");
          }
    }
    delete t;
  }
}

template <typename T>
void containers1(Ctx& c, std::vector<T> v, int root, const char* what) {
  auto w = v;
  if (pbt::worldRank() != root) v.assign(v.size() / 2, T(7));
  MPIUtils::broadcastContainer(v, root, MPI_COMM_WORLD);
  c.check(v.size() == w.size() && (v.empty() || !std::memcmp(v.data(), w.data(), v.size() * sizeof(T))), what);
}
void containers(Gen& g, Ctx& c) {
  const int root = static_cast<int>(g.draw(pbt::worldSize()));
  int n = static_cast<int>(g.draw(g.chance(10) ? 5000 : 40));
  const uint64_t seed = g.dataSeed();
  const int kind = static_cast<int>(g.draw(6));
  if (kind == 5 && n == 0) n = 1;  // lists of coordinates are never empty
  c.desc << "container kind=" << kind << " n=" << n << " root=" << root << " data=" << seed;
  c.nontrivial = n > 0;
  auto fill = [&](auto x) {
    using T = decltype(x);
    std::vector<T> v;
    for (int i = 0; i < n; ++i) v.push_back(static_cast<T>(static_cast<double>(static_cast<int64_t>(pbt::mix(seed + i) >> 40)) / 3.));
    return v;
  };
  switch (kind) {
    case 0: containers1(c, fill(double()), root, "vector of double"); break;
    case 1: containers1(c, fill(float()), root, "vector of float"); break;
    case 2: containers1(c, fill(int()), root, "vector of int"); break;
    case 3: containers1(c, fill(size_t()), root, "vector of size_t"); break;
    case 4: {
      std::string s, w;
      for (int i = 0; i < n; ++i) w += static_cast<char>(pbt::mix(seed + i));
      if (pbt::worldRank() == root) s = w;
      MPIUtils::broadcastContainer(s, root, MPI_COMM_WORLD);
      c.check(s == w, "string");
      break;
    }
    default: {
      const int dim = 1 + static_cast<int>(seed % 6);
      std::vector<std::vector<real>> p;
      for (int i = 0; i < n; ++i) {
        p.emplace_back();
        for (int d = 0; d < dim; ++d)
          p.back().push_back(static_cast<double>(pbt::mix(seed + i * 8 + d) >> 11) / 9007199254740992.);
      }
      auto flat = serializeInterpolationCoords(p);
      c.check(flat.size() == static_cast<size_t>(n * dim), "length of serialized coordinates");
      MPIUtils::broadcastContainer(flat, root, MPI_COMM_WORLD);
      auto q = deserializeInterpolationCoords(flat, static_cast<DimType>(dim));
      c.check(p == q, "coordinates");
      auto rnd = montecarlo::getRandomCoordinates(n, static_cast<size_t>(dim));
      bool ok = rnd.size() == static_cast<size_t>(n);
      for (auto& x : rnd) {
        ok = ok && x.size() == static_cast<size_t>(dim);
        for (double y : x) ok = ok && y >= 0. && y <= 1.;
      }
      c.check(ok, "random coordinates");
    }
  }
}

template <typename T>
void fullgridSent(Gen& g, Ctx& c) {
  ref::GridOpts o;
  o.maxPoints = 600;
  o.maxProcs = 1;
  auto s = ref::genGrid(g, o);
  const bool created = g.chance(80), hier = g.boolean();
  const int mode = static_cast<int>(g.draw(3)), root = static_cast<int>(g.draw(pbt::worldSize()));
  const uint64_t seed = g.dataSeed();
  c.desc << "full grid " << s.describe() << " created=" << created << " hierarchized=" << hier << " mode=" << mode << " data=" << seed;
  c.nontrivial = created && s.total > 1;
  auto data = ref::genData<T>(s, seed, std::vector<bool>(s.dim, false));
  for (size_t i = 0; i < data.size(); ++i) data[i] *= 1. / 3. * std::pow(10., static_cast<double>(i % 40) - 20.);
  std::unique_ptr<FullGrid<T>> f(new FullGrid<T>(static_cast<DimType>(s.dim), s.level, s.bnd));
  if (created) f->setElementVector(data);
  if (hier) f->setHierarchized();
  std::unique_ptr<FullGrid<T>> r;
  if (mode == 2) {
    std::string fn = c.scratch + "/fg." + std::to_string(pbt::worldRank());
    f->save(fn);
    r.reset(new FullGrid<T>(fn.c_str()));
    unlink(fn.c_str());
  } else {
    r.reset(new FullGrid<T>(1, LevelVector{1}, std::vector<BoundaryType>{2}));
    if (pbt::worldRank() == root) std::swap(f, r);
    deliver(r.get(), root, mode);
  }
  c.check(r->getDimension() == s.dim && r->getLevels() == s.level && r->returnBoundaryFlags() == s.bnd, "shape of a full grid");
  c.check(r->isGridCreated() == created && r->isHierarchized() == hier, "state of a full grid");
  c.check(r->getNrElements() == s.total, "number of elements");
  IndexType off = 1;
  for (int d = 0; d < s.dim; ++d) {
    c.check(r->length(static_cast<DimType>(d)) == s.n[static_cast<size_t>(d)] && r->getOffset(static_cast<DimType>(d)) == off, "extents or offsets");
    off *= static_cast<IndexType>(s.n[static_cast<size_t>(d)]);
  }
  c.check(r->getElementVector() == (created ? data : std::vector<T>{}), "values of a full grid");
}

// ------------------------------------------------------------------ C21
template <typename T>
void serialGrid(Gen& g, Ctx& c) {
  ref::GridOpts o;
  o.maxPoints = 700;
  o.maxProcs = 1;
  o.allowOneSided = false;
  auto s = ref::genGrid(g, o);
  const uint64_t seed = g.dataSeed();
  const int ctor = static_cast<int>(g.draw(3));
  const int npts = 1 + static_cast<int>(g.draw(4));
  std::vector<std::vector<double>> pts;
  for (int i = 0; i < npts; ++i) {
    std::vector<double> x;
    for (int d = 0; d < s.dim; ++d) {
      const auto dd = static_cast<size_t>(d);
      const double h = 1. / static_cast<double>(1l << s.level[dd]);
      // grids without boundary extrapolate towards it: stay where values on both sides exist
      const bool open = s.bnd[dd] == 0 && s.level[dd] > 1;
      const double lo = open ? h : 0., hi = open ? 1. - h : 1.;
      switch (g.draw(3)) {
        case 0: x.push_back(lo + (hi - lo) * static_cast<double>(g.range(0, 1000)) / 1000.); break;
        case 1: {
          const double k = static_cast<double>(g.range(0, (1l << s.level[dd])));
          x.push_back(std::min(std::max(k * h, lo), hi));
          break;
        }
        default: x.push_back(g.boolean() ? lo : hi);
      }
    }
    pts.push_back(x);
  }
  bool sameB = true, sameL = true;
  for (int d = 1; d < s.dim; ++d) {
    sameB = sameB && s.bnd[static_cast<size_t>(d)] == s.bnd[0];
    sameL = sameL && s.level[static_cast<size_t>(d)] == s.level[0];
  }
  c.desc << "serial grid " << s.describe() << " data=" << seed << " points=" << npts << " x0=" << ref::strd(pts[0]);
  c.nontrivial = s.total > 1;
  const auto dim = static_cast<DimType>(s.dim);
  std::unique_ptr<FullGrid<T>> f;
  if (ctor == 0 && sameB && sameL)
    f.reset(new FullGrid<T>(dim, s.level[0], s.bnd[0]));
  else if (ctor == 1 && sameB)
    f.reset(new FullGrid<T>(dim, s.level, s.bnd[0]));
  else
    f.reset(new FullGrid<T>(dim, s.level, s.bnd));
  auto data = ref::genData<T>(s, seed, std::vector<bool>(s.dim, false));
  f->createFullGrid();
  c.check(f->getNrElements() == s.total && f->getElementVector().size() == static_cast<size_t>(s.total), "number of points");
  if (f->getNrElements() != s.total) return;
  for (auto& x : f->getElementVector()) c.check(x == T(0), "new grid is zero");
  f->getElementVector() = data;
  // indices, coordinates, levels
  std::vector<long> v;
  std::vector<real> co(s.dim);
  LevelVector lv(s.dim);
  IndexVector iv(s.dim), ax(s.dim);
  std::vector<IndexType> ext;
  for (long n : s.n) ext.push_back(static_cast<IndexType>(n));
  Tensor<T> tensor(data.data(), IndexVector(ext.begin(), ext.end()));
  c.check(tensor.size() == static_cast<size_t>(s.total), "size of a tensor");
  for (long i = 0; i < s.total; ++i) {
    s.vec(i, v);
    f->getCoords(static_cast<IndexType>(i), co);
    f->getLI(static_cast<IndexType>(i), lv, iv);
    f->getVectorIndex(static_cast<IndexType>(i), ax);
    bool ok = f->getLinearIndex(ax) == i, okc = true, okl = true;
    IndexVector idx(s.dim);
    for (int d = 0; d < s.dim; ++d) {
      const auto dd = static_cast<size_t>(d);
      idx[dd] = static_cast<IndexType>(v[dd]);
      ok = ok && ax[dd] == v[dd];
      okc = okc && co[dd] == s.coord(d, v[dd]);
      // a point is (level, index) with an odd index on its level; the left end is (0,0)
      const double x = static_cast<double>(iv[dd]) / static_cast<double>(1l << lv[dd]);
      okl = okl && x == s.coord(d, v[dd]) && lv[dd] <= s.level[dd] && (iv[dd] % 2 == 1 || (iv[dd] == 0 && lv[dd] == 0));
    }
    c.check(ok, "vector index");
    c.check(okc, "coordinates");
    c.check(okl, "level and index of a point");
    c.check(tensor.sequentialIndex(idx) == i && tensor.getVectorIndex(static_cast<IndexType>(i)) == idx &&
                &tensor(idx) == &data[static_cast<size_t>(i)],
            "tensor index");
  }
  // interpolation
  const double m = ref::absmax(data);
  for (auto& x : pts) {
    auto y = x;
    const T got = f->eval(y), want = ref::interpolate(s, data, x);
    c.checkf(std::abs(got - want) <= 1e-12 * m, [&](std::ostream& os) {
      os << "value at " << ref::strd(x) << " is " << got << ", expected " << want;
    });
  }
  // norms
  double l1 = 0, l2 = 0;
  for (auto& x : data) {
    l1 += std::abs(x);
    l2 += std::abs(x) * std::abs(x);
  }
  l2 = std::sqrt(l2);
  auto near = [](double a, double b) { return std::abs(a - b) <= 1e-11 * std::max(std::abs(a), std::abs(b)); };
  c.check(near(f->getlpNorm(0), m) && near(f->getlpNorm(1), l1) && near(f->getlpNorm(2), l2), "norms");
  // hierarchization
  FullGrid<T> h(dim, s.level, s.bnd);
  h.setElementVector(data);
  Hierarchization::hierarchize(h);
  auto want = data;
  ref::transformAll(s, want, std::vector<bool>(s.dim, true), std::vector<ref::Basis>(s.dim, ref::HAT), LevelVector(s.dim, 0), false);
  bool ok = true;
  for (long i = 0; i < s.total; ++i)
    ok = ok && std::abs(h.getElementVector()[static_cast<size_t>(i)] - want[static_cast<size_t>(i)]) <= 1e-12 * m * (1 << s.dim);
  c.check(ok && h.isHierarchized(), "hierarchical coefficients");
  Hierarchization::dehierarchize(h);
  ok = true;
  for (long i = 0; i < s.total; ++i)
    ok = ok && std::abs(h.getElementVector()[static_cast<size_t>(i)] - data[static_cast<size_t>(i)]) <= 1e-12 * m * (1 << s.dim);
  c.check(ok && !h.isHierarchized(), "dehierarchization does not restore the values");
  // adding grids
  auto t = s;
  for (int d = 0; d < t.dim; ++d)
    if (t.bnd[static_cast<size_t>(d)] == 2 && t.level[static_cast<size_t>(d)] > 1 && (seed >> d) % 2)
      --t.level[static_cast<size_t>(d)];
  FullGrid<T> coarse(dim, t.level, t.bnd);
  t.total = 1;
  for (int d = 0; d < t.dim; ++d) t.total *= t.n[static_cast<size_t>(d)] = ref::numPoints(t.level[static_cast<size_t>(d)], t.bnd[static_cast<size_t>(d)]);
  auto cd = ref::genData<T>(t, seed + 1, std::vector<bool>(t.dim, false));
  coarse.setElementVector(cd);
  h.setElementVector(data);
  h.add(coarse, -0.75);
  ok = true;
  for (long i = 0; i < s.total; ++i) {
    s.vec(i, v);
    std::vector<double> x;
    for (int d = 0; d < s.dim; ++d) x.push_back(s.coord(d, v[static_cast<size_t>(d)]));
    const T e = data[static_cast<size_t>(i)] - 0.75 * ref::interpolate(t, cd, x);
    ok = ok && std::abs(h.getElementVector()[static_cast<size_t>(i)] - e) <= 1e-12 * (m + ref::absmax(cd));
  }
  c.check(ok, "adding a multiple of another grid");
  if (m > 0) {
    h.setElementVector(data);
    const double nrm = h.normalizelp(2);
    c.check(near(nrm, l2) && near(h.getlpNorm(2), 1.), "normalizing");
  }
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Driver d;
  std::string prop = argc > 1 ? argv[1] : "";
  if (prop == "C13") {
    d.add("parameters", 4, parameters);
    d.add("tasks", 3, tasks);
    d.add("containers", 3, containers);
    d.add("fullgrid_double", 1, fullgridSent<double>);
    d.add("fullgrid_complex", 1, fullgridSent<std::complex<double>>);
  } else if (prop == "C21") {
    d.add("serial_double", 2, serialGrid<double>);
    d.add("serial_complex", 1, serialGrid<std::complex<double>>);
  } else {
    return 9;
  }
  return d.main(argc - 1, argv + 1);
}
