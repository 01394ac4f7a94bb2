// C04 / C05 / C06: distributed full grids -- indexing, interpolation, grid-wide operations
#include <omp.h>

#include "common/family.hpp"

using namespace ad;
using pbt::Ctx;
using pbt::Gen;

namespace {
void labels(Ctx& c, const GridSpec& s) {
  c.label("dim" + std::to_string(s.dim));
  c.label("procs" + std::to_string(s.nprocs));
  c.label(s.useDefaultDecomposition ? "default_dec" : "given_dec");
  for (auto b : s.bnd) c.label("bnd" + std::to_string(b));
}
template <typename A, typename B>
bool same(const std::vector<A>& a, const std::vector<B>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (static_cast<long>(a[i]) != static_cast<long>(b[i])) return false;
  return true;
}
template <typename V>
IndexVector iv(const V& v) {
  IndexVector r;
  for (auto x : v) r.push_back(static_cast<IndexType>(x));
  return r;
}
/// does the 1d index belong to the 1d subspace of level l (library convention: level 1 carries the
/// boundary points)
bool inSubspace1d(const GridSpec& s, int d, long idx, int l) {
  auto dd = static_cast<size_t>(d);
  int lv = ref::levelOf(s.level[dd], s.bnd[dd], idx);
  return lv == l || (l == 1 && lv == 0 && s.bnd[dd] > 0);
}

// one point: all per-point conversions on this process
template <typename DFG>
void checkPoint(Ctx& c, const GridSpec& s, const DFG& dfg, const LocalBox& b, long g) {
  std::vector<long> v;
  s.vec(g, v);
  auto gi = static_cast<IndexType>(g);
  auto at = [&](const char* what) {
    return [&, what](std::ostream& os) { os << what << " wrong for global point " << ref::str(v); };
  };
  IndexVector gv(static_cast<size_t>(s.dim));
  dfg.getGlobalVectorIndex(gi, gv);
  c.checkf(same(gv, v), at("global linear -> vector index"));
  c.checkf(dfg.getGlobalLinearIndex(iv(v)) == gi, at("global vector -> linear index"));
  bool mine = true;
  std::vector<long> lv(static_cast<size_t>(s.dim));
  long li = 0, st = 1;
  for (int d = 0; d < s.dim; ++d) {
    auto dd = static_cast<size_t>(d);
    mine = mine && v[dd] >= b.lo[dd] && v[dd] < b.hi[dd];
    lv[dd] = v[dd] - b.lo[dd];
    li += lv[dd] * st;
    st *= b.hi[dd] - b.lo[dd];
  }
  c.checkf(dfg.isGlobalIndexHere(iv(v)) == mine, at("isGlobalIndexHere(vector)"));
  c.checkf(dfg.isGlobalIndexHere(gi) == mine, at("isGlobalIndexHere(linear)"));
  IndexVector loc(static_cast<size_t>(s.dim), 77);
  c.checkf(dfg.getLocalVectorIndex(iv(v), loc) == mine, at("getLocalVectorIndex return value"));
  auto back = dfg.getLocalLinearIndex(gi);
  if (mine) {
    c.checkf(same(loc, lv), at("global -> local vector index"));
    c.checkf(dfg.getLocalLinearIndex(iv(lv)) == static_cast<IndexType>(li), at("local vector -> linear index"));
    c.checkf(back == static_cast<IndexType>(li), at("global linear -> local linear index"));
    c.checkf(dfg.getGlobalLinearIndex(static_cast<IndexType>(li)) == gi, at("local linear -> global linear index"));
    IndexVector l2(static_cast<size_t>(s.dim)), g2(static_cast<size_t>(s.dim));
    dfg.getLocalVectorIndex(static_cast<IndexType>(li), l2);
    c.checkf(same(l2, lv), at("local linear -> local vector index"));
    dfg.getGlobalVectorIndex(iv(lv), g2);
    c.checkf(same(g2, v), at("local vector -> global vector index"));
    std::vector<real> x;
    dfg.getCoordsLocal(static_cast<IndexType>(li), x);
    bool ok = x.size() == static_cast<size_t>(s.dim);
    for (int d = 0; ok && d < s.dim; ++d) ok = x[static_cast<size_t>(d)] == s.coord(d, v[static_cast<size_t>(d)]);
    c.checkf(ok, at("local coordinates"));
    auto onb = dfg.isLocalLinearIndexOnBoundary(static_cast<IndexType>(li));
    for (int d = 0; d < s.dim; ++d) {
      auto dd = static_cast<size_t>(d);
      bool ex = s.bnd[dd] == 2 && (v[dd] == 0 || v[dd] == s.n[dd] - 1);
      c.checkf(onb[dd] == ex, at("boundary flag (local)"));
    }
  } else {
    c.checkf(back < 0, at("local linear index of a point owned elsewhere"));
  }
  std::vector<real> x;
  dfg.getCoordsGlobal(gi, x);
  bool ok = x.size() == static_cast<size_t>(s.dim);
  for (int d = 0; ok && d < s.dim; ++d) ok = x[static_cast<size_t>(d)] == s.coord(d, v[static_cast<size_t>(d)]);
  c.checkf(ok, at("global coordinates"));
  auto onb = dfg.isGlobalLinearIndexOnBoundary(gi);
  for (int d = 0; d < s.dim; ++d) {
    auto dd = static_cast<size_t>(d);
    bool ex = s.bnd[dd] == 2 && (v[dd] == 0 || v[dd] == s.n[dd] - 1);
    c.checkf(onb[dd] == ex, at("boundary flag (global)"));
  }
  LevelVector lev;
  IndexVector ind;
  dfg.getGlobalLI(gi, lev, ind);
  for (int d = 0; d < s.dim; ++d) {
    auto dd = static_cast<size_t>(d);
    long i = v[dd] + (s.bnd[dd] == 0 ? 1 : 0);
    int l = s.level[dd];
    if (i == 0) l = 0;
    while (i != 0 && i % 2 == 0) { i /= 2; --l; }
    c.checkf(lev[dd] == l && ind[dd] == static_cast<IndexType>(i), at("level/index representation"));
  }
  // owner
  std::vector<int> pc;
  dfg.getPartitionCoords(iv(v), pc);
  for (int d = 0; d < s.dim; ++d) {
    auto dd = static_cast<size_t>(d);
    const auto& dec = dfg.getDecomposition()[dd];
    int own = 0;
    for (size_t k = 0; k < dec.size(); ++k)
      if (dec[k] <= v[dd]) own = static_cast<int>(k);
    c.checkf(pc[dd] == own, at("partition coordinates"));
    auto mc = s.cartCoords(dfg.getRank());
    mc[dd] = own;
    int r = 0;
    for (int e = 0; e < s.dim; ++e) r = r * s.procs[static_cast<size_t>(e)] + mc[static_cast<size_t>(e)];
    c.checkf(dfg.getNeighbor1dFromAxisIndex(static_cast<DimType>(d), static_cast<IndexType>(v[dd])) == r,
             at("1d neighbour rank"));
  }
}

template <typename DFG>
void checkAxes(Ctx& c, const GridSpec& s, const DFG& dfg, long step) {
  for (int d = 0; d < s.dim; ++d) {
    auto dd = static_cast<size_t>(d);
    auto D = static_cast<DimType>(d);
    for (long i = 0; i < s.n[dd]; i += (i < 4 || s.n[dd] - i < 4) ? 1 : step) {
      int l = ref::levelOf(s.level[dd], s.bnd[dd], i);
      auto ii = static_cast<IndexType>(i);
      c.checkf(dfg.getLevel(D, ii) == l, [&](std::ostream& os) {
        os << "level of index " << i << " in dimension " << d << " is " << int(dfg.getLevel(D, ii)) << ", should be " << l;
      });
      long h = 1l << (s.level[dd] - l);
      long lp = l == 0 ? -1 : i - h;
      long rp = l == 0 ? -1 : i + h;
      if (l != 0 && s.bnd[dd] == 0) {
        if (rp >= s.n[dd]) rp = -1;
      }
      auto glp = dfg.getLeftPredecessor(D, ii), grp = dfg.getRightPredecessor(D, ii);
      c.checkf(lp < 0 ? glp < 0 : glp == lp, [&](std::ostream& os) {
        os << "left predecessor of " << i << " in dimension " << d << " is " << glp << ", should be " << lp;
      });
      c.checkf(rp < 0 ? grp < 0 : grp == rp, [&](std::ostream& os) {
        os << "right predecessor of " << i << " in dimension " << d << " is " << grp << ", should be " << rp;
      });
    }
    c.check(dfg.getNeighbor1dFromAxisIndex(D, -1) < 0, "neighbour of index -1 should not exist");
    c.check(dfg.getNeighbor1dFromAxisIndex(D, static_cast<IndexType>(s.n[dd])) < 0, "neighbour behind the end should not exist");
  }
}

template <typename DFG>
void checkShape(Ctx& c, const GridSpec& s, const DFG& dfg) {
  c.check(dfg.getDimension() == s.dim, "dimension");
  c.check(dfg.getNrElements() == static_cast<IndexType>(s.total), "number of grid points");
  c.check(same(dfg.getGlobalSizes(), s.n), "global sizes");
  long st = 1, lst = 1;
  auto b = boxOf(s, dfg, dfg.getRank());
  double vol = 1;
  for (int d = 0; d < s.dim; ++d) {
    auto dd = static_cast<size_t>(d);
    c.check(dfg.getOffsets()[dd] == static_cast<IndexType>(st), "global offsets");
    c.check(dfg.getLocalOffsets()[dd] == static_cast<IndexType>(lst), "local offsets");
    st *= s.n[dd];
    lst *= b.hi[dd] - b.lo[dd];
    double h = 1. / static_cast<double>(1l << s.level[dd]);
    vol *= h;
    c.check(dfg.getGridSpacing()[dd] == h, "grid spacing");
    c.check(dfg.getInverseGridSpacingIn(static_cast<DimType>(d)) == 1. / h, "inverse grid spacing");
    c.check(dfg.getInverseGridSpacing()[dd] == 1. / h, "inverse grid spacing vector");
    c.check(dfg.getLowerBoundsCoord(static_cast<DimType>(d)) == s.coord(d, b.lo[dd]), "coordinate of lower bound");
    c.check(dfg.getUpperBoundsCoords()[dd] == s.coord(d, b.hi[dd]), "coordinate of upper bound");
    c.check(dfg.getFirstGlobal1dIndex(static_cast<DimType>(d)) == static_cast<IndexType>(b.lo[dd]), "first 1d index");
    c.check(dfg.getLastGlobal1dIndex(static_cast<DimType>(d)) == static_cast<IndexType>(b.hi[dd] - 1), "last 1d index");
  }
  c.check(dfg.getInnerNodalBasisFunctionIntegral() == vol, "integral of a nodal basis function");
  c.check(dfg.getNrLocalElements() == static_cast<IndexType>(b.size()), "number of local points");
  c.check(dfg.getCommunicatorSize() == s.nprocs, "communicator size");
  c.check(same(dfg.getParallelization(), s.procs), "parallelization");
  c.check(same(dfg.getLowerBounds(), b.lo) && same(dfg.getUpperBounds(), b.hi), "own bounds");
  for (int r = 0; r < s.nprocs; ++r) {
    auto o = boxOf(s, dfg, r);
    c.check(same(dfg.getLowerBounds(r), o.lo), "lower bounds of rank");
    c.check(same(dfg.getUpperBounds(r), o.hi), "upper bounds of rank");
    for (int d = 0; d < s.dim; ++d)
      c.check(dfg.getUpperBoundsCoords(r)[static_cast<size_t>(d)] == s.coord(d, o.hi[static_cast<size_t>(d)]), "upper bounds coordinates of rank");
  }
  // decomposition: given one is used, default one is strictly increasing, starts at 0, is balanced
  const auto& dec = dfg.getDecomposition();
  c.check(dec.size() == static_cast<size_t>(s.dim), "decomposition size");
  for (int d = 0; d < s.dim; ++d) {
    auto dd = static_cast<size_t>(d);
    c.check(dec[dd].size() == static_cast<size_t>(s.procs[dd]), "decomposition entries");
    if (!s.useDefaultDecomposition) {
      c.check(same(dec[dd], s.decomposition[dd]), "given decomposition not used");
      continue;
    }
    c.check(dec[dd][0] == 0, "default decomposition starts at 0");
    long q = s.n[dd] / s.procs[dd];
    for (size_t k = 0; k < dec[dd].size(); ++k) {
      long next = k + 1 < dec[dd].size() ? dec[dd][k + 1] : s.n[dd];
      long len = next - dec[dd][k];
      c.checkf(len >= 1 && len >= q && len <= q + 1, [&](std::ostream& os) {
        os << "default decomposition gives part " << k << " of dimension " << d << " " << len << " of " << s.n[dd]
           << " points";
      });
      // documented: forward = points on the geometric boundary go to the right process
      double ideal = static_cast<double>(s.n[dd]) * static_cast<double>(k) / static_cast<double>(s.procs[dd]);
      double diff = static_cast<double>(dec[dd][k]) - ideal;
      c.check(s.forward ? (diff >= 0 && diff < 1) : (diff <= 0 && diff > -1), "default decomposition rounding direction");
    }
  }
}

template <typename DFG>
void checkSubspaces(Ctx& c, const GridSpec& s, const DFG& dfg, const LocalBox& b, bool beyond) {
  // enumerate all subspaces 1..level (+1)
  LevelVector l(static_cast<size_t>(s.dim), 1);
  std::vector<int> seen(static_cast<size_t>(b.size()), 0);
  std::vector<long> v;
  while (true) {
    bool outside = false;
    for (int d = 0; d < s.dim; ++d) outside |= l[static_cast<size_t>(d)] > s.level[static_cast<size_t>(d)];
    auto got = dfg.getFGPointsOfSubspace(l);
    std::vector<long> ex;
    if (!outside)
      forBox(s, b, [&](long i, long g) {
        s.vec(g, v);
        for (int d = 0; d < s.dim; ++d)
          if (!inSubspace1d(s, d, v[static_cast<size_t>(d)], l[static_cast<size_t>(d)])) return;
        ex.push_back(i);
      });
    c.checkf(same(got, ex), [&](std::ostream& os) {
      os << "points of subspace " << ref::str(l) << ": got " << ref::str(got) << " expected " << ref::str(ex);
    });
    for (auto i : got)
      if (i >= 0 && i < static_cast<IndexType>(seen.size())) seen[static_cast<size_t>(i)]++;
    int d = 0;
    for (; d < s.dim; ++d) {
      auto dd = static_cast<size_t>(d);
      if (l[dd] < s.level[dd] + (beyond ? 1 : 0)) {
        ++l[dd];
        break;
      }
      l[dd] = 1;
    }
    if (d == s.dim) break;
  }
  for (auto x : seen) c.check(x == 1, "a local point is in " + std::to_string(x) + " subspaces");
  for (int d = 0; d < s.dim; ++d) {
    auto dd = static_cast<size_t>(d);
    for (int lv = 1; lv <= s.level[dd]; ++lv) {
      std::vector<long> ex;
      for (long i = b.lo[dd]; i < b.hi[dd]; ++i)
        if (inSubspace1d(s, d, i, lv)) ex.push_back(i - b.lo[dd]);
      c.check(dfg.getNumPointsOnThisPartition(static_cast<LevelType>(lv), static_cast<DimType>(d)) ==
                  static_cast<IndexType>(ex.size()), "number of 1d points of a level on this partition");
      IndexVector got;
      dfg.get1dIndicesLocal(static_cast<DimType>(d), static_cast<LevelType>(lv), got);
      c.checkf(same(got, ex), [&](std::ostream& os) {
        os << "1d indices of level " << lv << " in dimension " << d << " on this partition: " << ref::str(got)
           << " expected " << ref::str(ex);
      });
    }
  }
}

void indexing(Gen& g, Ctx& c) {
  ref::GridOpts o;
  o.maxProcs = pbt::worldSize();
  o.maxPoints = 600;
  o.maxDim = 6;
  if (g.chance(30)) { o.maxDim = 2; o.maxLevel = 9; }
  auto s = genGrid(g, o);
  c.desc << s.describe();
  labels(c, s);
  c.nontrivial = s.total > 3 && s.nprocs > 1;
  MPI_Comm comm = makeCart(s.procs);
  if (comm != MPI_COMM_NULL) {
    auto od = makeDfg<double>(s, comm);
    auto& dfg = *od.dfg;
    checkShape(c, s, dfg);
    auto b = boxOf(s, dfg, dfg.getRank());
    std::vector<int> own(static_cast<size_t>(s.total), 0);
    for (long i = 0; i < s.total; ++i) {
      checkPoint(c, s, dfg, b, i);
      own[static_cast<size_t>(i)] = dfg.getLocalLinearIndex(static_cast<IndexType>(i)) >= 0;
    }
    MPI_Allreduce(MPI_IN_PLACE, own.data(), static_cast<int>(own.size()), MPI_INT, MPI_SUM, comm);
    for (auto x : own) c.check(x == 1, "a grid point is owned by " + std::to_string(x) + " processes");
    checkAxes(c, s, dfg, 1);
    checkSubspaces(c, s, dfg, b, s.dim <= 4);
  }
}

// several grids on the same processes, asked in turn for the same indices or the same coordinates
std::vector<GridSpec> genGrids(Gen& g, MPI_Comm& comm, int maxDim, int maxLevel, long maxPoints) {
  const int dim = g.irange(1, maxDim);
  LV top, coarsest;
  long pts = 1;
  for (int d = 0; d < dim; ++d) {
    int l = g.irange(1, maxLevel);
    while (l > 1 && pts * ((1l << l) + 1) > maxPoints) --l;
    pts *= (1l << l) + 1;
    top.push_back(l);
  }
  std::vector<LV> levels;
  const int n = g.irange(2, 3);
  for (int k = 0; k < n; ++k) {
    LV l;
    for (int d = 0; d < dim; ++d) l.push_back(g.irange(1, top[static_cast<size_t>(d)]));
    levels.push_back(l);
  }
  coarsest = top;
  for (auto& l : levels)
    for (size_t d = 0; d < l.size(); ++d) coarsest[d] = std::min(coarsest[d], l[d]);
  auto f = genFamily(g, top, coarsest, pbt::worldSize());
  comm = makeCart(f.procs);
  std::vector<GridSpec> r;
  for (auto& l : levels) r.push_back(f.grid(l));
  return r;
}

void interleaved(Gen& g, Ctx& c) {
  MPI_Comm comm;
  auto ss = genGrids(g, comm, 5, 6, 500);
  for (auto& s : ss) c.desc << s.describe() << "; ";
  labels(c, ss[0]);
  c.nontrivial = ss[0].level != ss[1].level;
  if (comm != MPI_COMM_NULL) {
    std::vector<decltype(makeDfg<double>(ss[0], comm))> ds;
    long m = 0;
    for (auto& s : ss) {
      ds.push_back(makeDfg<double>(s, comm));
      m = std::max(m, s.total);
    }
    for (long i = 0; i < m; ++i)
      for (size_t k = 0; k < ss.size(); ++k)
        if (i < ss[k].total) checkPoint(c, ss[k], *ds[k].dfg, boxOf(ss[k], *ds[k].dfg, ds[k].dfg->getRank()), i);
    for (size_t k = 0; k < ss.size(); ++k) {
      checkShape(c, ss[k], *ds[k].dfg);
      checkAxes(c, ss[k], *ds[k].dfg, 1);
    }
  }
}

// huge grids: only index arithmetic, no data
void hugeIndexing(Gen& g, Ctx& c) {
  GridSpec s;
  s.dim = g.irange(1, 6);
  bool one = false;
  // index type is a 32 bit integer: fewer than 2^31 grid points
  for (int d = 0; d < s.dim; ++d) {
    int b = g.irange(0, 2);
    long rest = 1;
    for (int e = d + 1; e < s.dim; ++e) rest *= 3;
    int hi = 1;
    while (hi < 29 && s.total * ref::numPoints(hi + 1, b) * rest < (1l << 31)) ++hi;
    int l = g.irange(1, hi);
    one |= b == 1;
    s.level.push_back(static_cast<LevelType>(l));
    s.bnd.push_back(static_cast<BoundaryType>(b));
    s.n.push_back(ref::numPoints(l, b));
    s.total *= s.n.back();
  }
  s.procs = ref::genProcs(g, s.n, pbt::worldSize());
  for (int p : s.procs) s.nprocs *= p;
  if (g.chance(60)) {
    for (int d = 0; d < s.dim; ++d)
      s.decomposition.push_back(ref::genDecomposition1d(g, s.n[static_cast<size_t>(d)], s.procs[static_cast<size_t>(d)]));
  } else {
    s.useDefaultDecomposition = true;
    s.forward = one ? false : g.boolean();
  }
  auto seed = g.dataSeed();
  c.desc << "huge " << s.describe() << " sample=" << seed;
  labels(c, s);
  c.nontrivial = s.nprocs > 1;
  MPI_Comm comm = makeCart(s.procs);
  if (comm != MPI_COMM_NULL) {
    std::vector<IndexVector> dec;
    if (!s.useDefaultDecomposition) dec = s.decomposition;
    DistributedFullGrid<double> dfg(static_cast<DimType>(s.dim), s.level, comm, s.bnd, nullptr, s.procs, s.forward, dec);
    checkShape(c, s, dfg);
    auto b = boxOf(s, dfg, dfg.getRank());
    for (uint64_t k = 0; k < 40; ++k) {
      // points anywhere and points close to partition boundaries
      std::vector<long> v;
      for (int d = 0; d < s.dim; ++d) {
        auto dd = static_cast<size_t>(d);
        auto h = ref::hash2(seed + static_cast<uint64_t>(d) * 1315423911u, k);
        long x;
        if (h % 3 == 0) {
          const auto& de = dfg.getDecomposition()[dd];
          x = de[(h >> 8) % de.size()] + static_cast<long>((h >> 20) % 3) - 1;
        } else {
          x = static_cast<long>((h >> 8) % static_cast<uint64_t>(s.n[dd]));
        }
        v.push_back(std::min(std::max(x, 0l), s.n[dd] - 1));
      }
      checkPoint(c, s, dfg, b, s.lin(v));
    }
    checkAxes(c, s, dfg, 1l << 22);
  }
}

// one dimension with up to 2^30 points, around the process boundaries only
void downsamplingLarge(Gen& g, Ctx& c) {
  int level = g.irange(12, 30), coarse = g.irange(1, level);
  auto bnd = static_cast<BoundaryType>(g.irange(0, 2));
  long n = ref::numPoints(level, bnd), nc = ref::numPoints(coarse, bnd), diff = level - coarse, off = bnd == 0 ? 1 : 0;
  std::set<long> starts{0};
  int parts = g.irange(1, 12);
  for (int k = 1; k < parts; ++k) {
    long x;
    if (g.chance(70)) {
      // close to a point of the coarse grid
      long i = static_cast<long>(g.draw(static_cast<uint64_t>(nc)));
      if (g.chance(30)) i = nc - 1 - std::min(nc - 1, static_cast<long>(g.irange(0, 5)));
      x = ((i + off) << diff) - off + g.irange(-2, 2);
    } else
      x = static_cast<long>(g.draw(static_cast<uint64_t>(n)));
    starts.insert(std::min(std::max(x, 0l), n - 1));
  }
  IndexVector fine(starts.begin(), starts.end());
  c.desc << "level " << level << " coarse " << coarse << " boundary " << static_cast<int>(bnd) << " parts start at";
  for (auto x : fine) c.desc << " " << x;
  c.label(level > 24 ? "huge" : "large");
  c.nontrivial = fine.size() > 1;
  auto dec = downsampleDecomposition(std::vector<IndexVector>{fine}, LevelVector{static_cast<LevelType>(level)}, LevelVector{static_cast<LevelType>(coarse)}, std::vector<BoundaryType>{bnd});
  c.check(dec.size() == 1 && dec[0].size() == fine.size(), "number of parts changed");
  if (dec.size() != 1 || dec[0].size() != fine.size()) return;
  auto owner = [](const IndexVector& v, long x) {
    int r = -1;
    for (size_t k = 0; k < v.size(); ++k)
      if (v[k] <= x) r = static_cast<int>(k);
    return r;
  };
  for (size_t k = 0; k < fine.size(); ++k)
    for (long i = ((fine[k] + off) >> diff) - off - 2; i <= ((fine[k] + off) >> diff) - off + 2; ++i) {
      if (i < 0 || i >= nc) continue;
      long fi = ((i + off) << diff) - off;
      c.checkf(owner(dec[0], i) == owner(fine, fi), [&](std::ostream& os) {
        os << "coarse point " << i << " belongs to part " << owner(dec[0], i) << " but the same fine point belongs to " << owner(fine, fi);
      });
    }
  for (size_t k = 1; k < fine.size(); ++k) c.check(dec[0][k] >= dec[0][k - 1], "downsampled decomposition not sorted");
}

// coarse grids with a downsampled decomposition: a point keeps its owner
void downsampling(Gen& g, Ctx& c) {
  ref::GridOpts o;
  o.maxProcs = pbt::worldSize();
  o.maxPoints = 3000;
  o.maxDim = 3;
  o.maxLevel = 8;
  auto s = genGrid(g, o);
  if (s.useDefaultDecomposition) {
    IndexVector n;
    for (auto x : s.n) n.push_back(static_cast<IndexType>(x));
    s.decomposition = getDefaultDecomposition(n, s.procs, s.forward);
  }
  LevelVector coarse;
  for (auto l : s.level) coarse.push_back(static_cast<LevelType>(g.range(1, l)));
  c.desc << s.describe() << " coarse level " << ref::str(coarse);
  auto dec = downsampleDecomposition(s.decomposition, s.level, coarse, s.bnd);
  labels(c, s);
  c.nontrivial = s.nprocs > 1;
  for (int d = 0; d < s.dim; ++d) {
    auto dd = static_cast<size_t>(d);
    c.check(dec[dd].size() == s.decomposition[dd].size(), "number of parts changed");
    long diff = s.level[dd] - coarse[dd];
    long nc = ref::numPoints(coarse[dd], s.bnd[dd]);
    for (long i = 0; i < nc; ++i) {
      // the same coordinate on the fine grid
      long off = s.bnd[dd] == 0 ? 1 : 0;
      long fi = ((i + off) << diff) - off;
      // owner by definition: last part starting at or before the point
      auto owner = [](const IndexVector& v, long x) {
        int r = -1;
        for (size_t k = 0; k < v.size(); ++k)
          if (v[k] <= x) r = static_cast<int>(k);
        return r;
      };
      c.checkf(owner(dec[dd], i) == owner(s.decomposition[dd], fi), [&](std::ostream& os) {
        os << "coarse point " << i << " of dimension " << d << " belongs to part " << owner(dec[dd], i)
           << " but the same fine point belongs to " << owner(s.decomposition[dd], fi);
      });
    }
    for (size_t k = 1; k < dec[dd].size(); ++k) c.check(dec[dd][k] >= dec[dd][k - 1], "downsampled decomposition not sorted");
  }
}

// --- C05
template <typename T>
void interpolation(Gen& g, Ctx& c) {
  ref::GridOpts o;
  o.maxProcs = pbt::worldSize();
  if (g.chance(30)) { o.maxDim = 2; o.maxLevel = 10; }
  else if (g.chance(2)) { o.maxDim = 1; o.minLevel = 15; o.maxLevel = 17; o.maxPoints = 140000; }
  else if (g.chance(10)) { o.minDim = 6; o.maxDim = 7; }
  auto s = genGrid(g, o);
  auto seed = g.dataSeed();
  int m = g.irange(1, 24);
  int threads = g.irange(1, 3);
  // coordinates
  std::vector<std::vector<real>> xs;
  MPI_Comm comm = makeCart(s.procs);
  std::vector<IndexVector> dec = s.decomposition;
  if (s.useDefaultDecomposition) {
    IndexVector n;
    for (auto x : s.n) n.push_back(static_cast<IndexType>(x));
    dec = getDefaultDecomposition(n, s.procs, s.forward);
  }
  bool special = false;
  for (int k = 0; k < m; ++k) {
    std::vector<real> x;
    for (int d = 0; d < s.dim; ++d) {
      auto dd = static_cast<size_t>(d);
      int kind = g.irange(0, 7);
      double h = 1. / static_cast<double>(1l << s.level[dd]);
      double v;
      if (kind == 0) { v = 0.; special = true; }
      else if (kind == 1) { v = 1.; special = true; }
      else if (kind == 2) v = s.coord(d, g.range(0, s.n[dd] - 1));
      else if (kind == 3) {  // around a process boundary
        const auto& de = dec[dd];
        v = s.coord(d, de[g.draw(de.size())]);
        int sh = g.irange(0, 4);
        v += sh == 1 ? -h / 2 : sh == 2 ? h / 2 : sh == 3 ? -h : sh == 4 ? 1e-15 : 0;
      } else if (kind == 4) v = g.boolean() ? h * g.irange(0, 4) / 4. : 1. - h * g.irange(0, 4) / 4.;
      else v = static_cast<double>(g.draw(1u << 30)) / static_cast<double>(1u << 30);
      x.push_back(std::min(1., std::max(0., v)));
    }
    xs.push_back(x);
  }
  c.desc << s.describe() << " data=" << seed << " points=" << m << " first=" << ref::strd(xs[0]) << " threads=" << threads;
  labels(c, s);
  if (special) c.label("domain_boundary_coordinate");
  c.nontrivial = s.total > 1;
  if (g.chance(4)) {  // many points at once
    const int extra = g.irange(1, 3000);
    c.desc << " and " << extra << " random points";
    c.label("many_points");
    for (int k = 0; k < extra; ++k) {
      std::vector<real> x;
      for (int d = 0; d < s.dim; ++d)
        x.push_back(static_cast<double>(ref::hash2(seed + 5, static_cast<uint64_t>(k * 16 + d)) % 4096001) / 4096000.);
      xs.push_back(x);
    }
  }
  auto data = ref::genData<T>(s, seed, std::vector<bool>(static_cast<size_t>(s.dim), false));
  if (comm != MPI_COMM_NULL) {
    omp_set_num_threads(threads);
    auto od = makeDfg<T>(s, comm);
    ad::scatter(s, data, *od.dfg);
    auto vals = od.dfg->getInterpolatedValues(xs);
    omp_set_num_threads(1);
    c.check(vals.size() == xs.size(), "number of interpolated values");
    double tol = 64. * (1 << s.dim) * ref::absmax(data) *
                 (ref::eps<T>() + ref::eps<double>() * static_cast<double>(1l << *std::max_element(s.level.begin(), s.level.end())));
    // |x| error eps gets multiplied by 1/h
    for (size_t k = 0; k < xs.size() && k < vals.size(); ++k) {
      T ex = ref::interpolate<T>(s, data, xs[k]);
      c.checkf(std::abs(vals[k] - ex) <= tol, [&](std::ostream& os) {
        os.precision(17);
        os << "interpolated value at " << ref::strd(xs[k]) << " is " << vals[k] << ", multilinear interpolant is " << ex;
      });
    }
    // single points, and the sum of the local contributions
    size_t k = seed % xs.size();
    auto one = od.dfg->getInterpolatedValues({xs[k]});
    c.check(one.size() == 1 && std::abs(one[0] - vals[k]) <= tol, "value depends on the number of points evaluated together");
    T loc = od.dfg->evalLocal(xs[k]);
    std::vector<T> all(static_cast<size_t>(s.nprocs));
    MPI_Allgather(&loc, sizeof(T), MPI_BYTE, all.data(), sizeof(T), MPI_BYTE, comm);
    T sum(0);
    for (auto& x : all) sum += x;
    c.check(std::abs(sum - ref::interpolate<T>(s, data, xs[k])) <= tol, "local contributions do not add up to the interpolant");
    ad::compareLocal(c, s, data, *od.dfg, 0., "interpolation changed the grid");
  }
}

// --- C06
template <typename T>
void interpolationInTurn(Gen& g, Ctx& c) {
  MPI_Comm comm;
  auto ss = genGrids(g, comm, 4, 8, 3000);
  auto seed = g.dataSeed();
  const int m = g.irange(1, 8);
  std::vector<std::vector<real>> xs;
  for (int k = 0; k < m; ++k) {
    std::vector<real> x;
    for (int d = 0; d < ss[0].dim; ++d)
      x.push_back(g.boolean() ? g.irange(0, 16) / 16. : static_cast<double>(g.draw(1u << 30)) / static_cast<double>(1u << 30));
    xs.push_back(x);
  }
  for (auto& s : ss) c.desc << s.describe() << "; ";
  c.desc << "data=" << seed << " points=" << m << " first=" << ref::strd(xs[0]);
  labels(c, ss[0]);
  c.nontrivial = ss[0].level != ss[1].level;
  std::vector<std::vector<T>> data;
  for (size_t k = 0; k < ss.size(); ++k)
    data.push_back(ref::genData<T>(ss[k], seed + k, std::vector<bool>(static_cast<size_t>(ss[k].dim), false)));
  if (comm != MPI_COMM_NULL) {
    std::vector<decltype(makeDfg<T>(ss[0], comm))> ds;
    for (size_t k = 0; k < ss.size(); ++k) {
      ds.push_back(makeDfg<T>(ss[k], comm));
      ad::scatter(ss[k], data[k], *ds[k].dfg);
    }
    for (size_t j = 0; j < xs.size(); ++j)
      for (size_t k = 0; k < ss.size(); ++k) {
        auto& s = ss[k];
        auto v = ds[k].dfg->getInterpolatedValues({xs[j]});
        T ex = ref::interpolate<T>(s, data[k], xs[j]);
        double tol = 64. * (1 << s.dim) * ref::absmax(data[k]) *
                     (ref::eps<T>() + ref::eps<double>() * static_cast<double>(1l << *std::max_element(s.level.begin(), s.level.end())));
        c.checkf(v.size() == 1 && std::abs(v[0] - ex) <= tol, [&](std::ostream& os) {
          os.precision(17);
          os << "grid " << k << ": interpolated value at " << ref::strd(xs[j]) << " is " << (v.empty() ? T(0) : v[0])
             << ", multilinear interpolant is " << ex;
        });
      }
  }
}

template <typename T>
void gridOps(Gen& g, Ctx& c) {
  ref::GridOpts o;
  o.maxProcs = pbt::worldSize();
  if (g.chance(25)) { o.maxDim = 2; o.maxLevel = 9; }
  else if (g.chance(2)) { o.maxDim = 1; o.minLevel = 15; o.maxLevel = 17; o.maxPoints = 140000; }
  else if (g.chance(10)) { o.minDim = 6; o.maxDim = 7; }
  auto s = genGrid(g, o);
  auto seed = g.dataSeed();
  int root = g.irange(0, s.nprocs - 1);
  int d = g.irange(0, s.dim - 1);
  int threads = g.irange(1, 3);
  c.desc << s.describe() << " data=" << seed << " root=" << root << " d=" << d << " threads=" << threads << " type=" << typeid(T).name();
  labels(c, s);
  c.nontrivial = s.total > 3 && s.nprocs > 1;
  auto data = ref::genData<T>(s, seed, std::vector<bool>(static_cast<size_t>(s.dim), false));
  std::vector<long> v;
  MPI_Comm comm = makeCartFor(s);
  if (comm == MPI_COMM_NULL) return;
  omp_set_num_threads(threads);
  auto od = makeDfg<T>(s, comm);
  auto& dfg = *od.dfg;
  ad::scatter(s, data, dfg);
  auto dd = static_cast<size_t>(d);
  // norms
  {
    double mx = 0, sum = 0, vol = 1;
    for (auto l : s.level) vol /= static_cast<double>(1l << l);
    for (long i = 0; i < s.total; ++i) {
      s.vec(i, v);
      double a = static_cast<double>(std::abs(data[static_cast<size_t>(i)]));
      mx = std::max(mx, a);
      for (int e = 0; e < s.dim; ++e) {
        auto ee = static_cast<size_t>(e);
        if (s.bnd[ee] == 2 && (v[ee] == 0 || v[ee] == s.n[ee] - 1)) a *= 0.5;
      }
      sum += a * vol;
    }
    double gm = dfg.getLpNorm(0), g1 = dfg.getLpNorm(1);
    c.checkf(std::abs(gm - mx) <= ref::eps<T>() * 4 * mx, [&](std::ostream& os) { os << "maximum norm " << gm << " expected " << mx; });
    c.checkf(std::abs(g1 - sum) <= (1e-12 + 100 * ref::eps<T>()) * mx, [&](std::ostream& os) {
      os.precision(17);
      os << "1-norm " << g1 << " expected " << sum;
    });
  }
  // corners
  {
    auto cv = dfg.getCornersValues();
    auto ci = dfg.getCornersGlobalVectorIndices();
    c.check(cv.size() == (1u << s.dim) && ci.size() == cv.size(), "number of corners");
    std::set<std::vector<long>> seen;
    for (size_t k = 0; k < cv.size() && k < ci.size(); ++k) {
      std::vector<long> w(ci[k].begin(), ci[k].end());
      bool ok = w.size() == static_cast<size_t>(s.dim);
      for (int e = 0; ok && e < s.dim; ++e) {
        auto ee = static_cast<size_t>(e);
        ok = w[ee] == 0 || w[ee] == s.n[ee] - 1;
      }
      c.check(ok, "a listed corner is not a corner");
      if (!ok) break;
      seen.insert(w);
      c.checkf(cv[k] == data[static_cast<size_t>(s.lin(w))], [&](std::ostream& os) {
        os << "value of corner " << ref::str(w) << " is " << cv[k] << " expected " << data[static_cast<size_t>(s.lin(w))];
      });
    }
    size_t ex = 1;
    for (auto n : s.n) ex *= n > 1 ? 2 : 1;
    c.check(seen.size() == ex, "corner list misses a corner");
  }
  // gather
  {
    FullGrid<T> fg(static_cast<DimType>(s.dim), s.level, s.bnd);
    dfg.gatherFullGrid(fg, root);
    if (dfg.getRank() == root) {
      c.check(static_cast<long>(fg.getNrElements()) == s.total, "size of the gathered grid");
      for (long i = 0; i < s.total; ++i) {
        ++c.checks;
        if (fg.getData()[i] != data[static_cast<size_t>(i)]) {
          s.vec(i, v);
          c.fail("gathered grid differs at " + ref::str(v));
          break;
        }
      }
    }
  }
  ad::compareLocal(c, s, data, dfg, 0., "norm/corner/gather changed the grid");
  auto box = boxOf(s, dfg, dfg.getRank());
  // ghost layer
  {
    std::vector<int> ext;
    std::vector<T> ghost;
    bool async = seed % 3 == 1;
    if (async) {
      MPI_Request req;
      dfg.exchangeGhostLayerUpward(static_cast<DimType>(d), ext, ghost, &req);
      MPI_Wait(&req, MPI_STATUS_IGNORE);
    } else {
      ghost = dfg.exchangeGhostLayerUpward(static_cast<DimType>(d), ext);
    }
    bool lowest = box.lo[dd] == 0;
    bool have = !lowest || s.bnd[dd] == 1;
    if (!have) {
      c.check(ghost.empty(), "ghost layer received although there is no lower neighbour");
    } else {
      long layer = lowest ? s.n[dd] - 1 : box.lo[dd] - 1;
      LocalBox gb = box;
      gb.lo[dd] = layer;
      gb.hi[dd] = layer + 1;
      c.check(ghost.size() == static_cast<size_t>(gb.size()), "size of the ghost layer");
      bool okExt = ext.size() == static_cast<size_t>(s.dim);
      for (int e = 0; okExt && e < s.dim; ++e)
        okExt = ext[static_cast<size_t>(e)] == gb.hi[static_cast<size_t>(e)] - gb.lo[static_cast<size_t>(e)];
      c.check(okExt, "extents of the ghost layer");
      if (ghost.size() == static_cast<size_t>(gb.size()))
        forBox(s, gb, [&](long i, long gl) {
          c.checkf(ghost[static_cast<size_t>(i)] == data[static_cast<size_t>(gl)], [&](std::ostream& os) {
            s.vec(gl, v);
            os << "ghost value for " << ref::str(v) << " is " << ghost[static_cast<size_t>(i)] << " expected "
               << data[static_cast<size_t>(gl)];
          });
        });
    }
    ad::compareLocal(c, s, data, dfg, 0., "ghost exchange changed the grid");
  }
  // periodic boundary copy
  if (s.bnd[dd] == 2) {
    c.label("boundary_copy");
    dfg.writeLowerBoundaryToUpperBoundary(static_cast<DimType>(d));
    auto ex = data;
    for (long i = 0; i < s.total; ++i) {
      s.vec(i, v);
      if (v[dd] == s.n[dd] - 1) {
        v[dd] = 0;
        ex[static_cast<size_t>(i)] = data[static_cast<size_t>(s.lin(v))];
      }
    }
    ad::compareLocal(c, s, ex, dfg, 0., "writeLowerBoundaryToUpperBoundary");
  }
  dfg.setZero();
  ad::compareLocal(c, s, std::vector<T>(data.size(), T(0)), dfg, 0., "setZero");
  c.check(od.buffer.back() == T(0), "wrote behind the local data");
  omp_set_num_threads(1);
}

template <typename T>
void plotFile(Gen& g, Ctx& c) {
  ref::GridOpts o;
  o.maxProcs = pbt::worldSize();
  o.maxDim = 6;
  auto s = genGrid(g, o);
  auto seed = g.dataSeed();
  bool raw = g.boolean();
  std::string fn = c.scratch + "/plot" + std::to_string(c.caseNo) + (raw ? ".raw" : ".dat");
  c.desc << s.describe() << " data=" << seed << (raw ? " raw" : " with header") << " type=" << typeid(T).name();
  labels(c, s);
  c.nontrivial = s.total > 3;
  auto data = ref::genData<T>(s, seed, std::vector<bool>(static_cast<size_t>(s.dim), false));
  MPI_Comm comm = makeCartFor(s);
  if (comm != MPI_COMM_NULL) {
    auto od = makeDfg<T>(s, comm);
    ad::scatter(s, data, *od.dfg);
    od.dfg->writePlotFile(fn.c_str());
    MPI_Barrier(comm);
    if (od.dfg->getRank() == 0) {
      std::ifstream in(fn, std::ios::binary);
      std::string bytes((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
      size_t off = raw ? 0 : (1 + static_cast<size_t>(s.dim)) * sizeof(int);
      c.checkf(bytes.size() == off + data.size() * sizeof(T), [&](std::ostream& os) {
        os << "plot file has " << bytes.size() << " bytes, expected " << off + data.size() * sizeof(T);
      });
      if (bytes.size() == off + data.size() * sizeof(T)) {
        if (!raw) {
          const int* h = reinterpret_cast<const int*>(bytes.data());
          c.checkf(h[0] == s.dim, [&](std::ostream& os) { os << "header says dimension " << h[0]; });
          for (int d = 0; d < s.dim; ++d)
            c.checkf(h[1 + d] == s.n[static_cast<size_t>(d)], [&](std::ostream& os) {
              os << "header says " << h[1 + d] << " points in dimension " << d;
            });
        }
        for (size_t i = 0; i < data.size(); ++i) {
          T x;
          std::memcpy(&x, bytes.data() + off + i * sizeof(T), sizeof(T));
          ++c.checks;
          if (x != data[i]) {
            c.fail("plot file value " + std::to_string(i) + " differs");
            break;
          }
        }
      }
      if (raw) {
        std::ifstream h(fn + "_header");
        std::string w;
        // "dimensionality" is printed with the type used for dimensions; only the extents are checked
        std::getline(h, w);
        h >> w;
        std::vector<long> ext;
        for (int d = 0; d < s.dim; ++d) {
          long x = -1;
          h >> x;
          ext.push_back(x);
        }
        c.check(same(ext, s.n), "extents in the header file");
        unlink((fn + "_header").c_str());
      }
      unlink(fn.c_str());
    }
    MPI_Barrier(comm);
  }
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Driver d;
  std::string prop = argc > 1 ? argv[1] : "";
  if (prop == "C04") {
    d.add("indexing", 3, indexing);
    d.add("interleaved", 1, interleaved);
    d.add("huge", 2, hugeIndexing);
    d.add("downsampling", 2, downsampling);
    d.add("downsampling_large", 1, downsamplingLarge);
  } else if (prop == "C05") {
    d.add("interpolation_double", 4, interpolation<double>);
    d.add("interpolation_in_turn", 1, interpolationInTurn<double>);
    d.add("interpolation_float", 1, interpolation<float>);
    d.add("interpolation_complex", 1, interpolation<std::complex<double>>);
  } else if (prop == "C06") {
    d.add("ops_double", 6, gridOps<double>);
    d.add("ops_float", 2, gridOps<float>);
    d.add("ops_complex", 2, gridOps<std::complex<double>>);
    d.add("plot_double", 1, plotFile<double>);
    d.add("plot_complex", 1, plotFile<std::complex<double>>);
  } else {
    return 9;
  }
  return d.main(argc - 1, argv + 1);
}
