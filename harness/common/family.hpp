// A family of component grids sharing boundary flags, a process grid and the decomposition of a
// reference level; and the serial reference for combining them.
#pragma once
#include "dfg.hpp"

namespace ad {
using LV = std::vector<int>;

inline LevelVector toLib(const LV& l) {
  LevelVector r;
  for (int x : l) r.push_back(static_cast<LevelType>(x));
  return r;
}
inline LV fromLib(const LevelVector& l) {
  LV r;
  for (auto x : l) r.push_back(static_cast<int>(x));
  return r;
}

struct Family {
  int dim = 1;
  LV ref;  // reference level of the decomposition
  std::vector<BoundaryType> bnd;
  std::vector<int> procs;
  int nprocs = 1;
  std::vector<IndexVector> refDec;

  /// lower bounds on the grid of level l: a coarse point belongs to the owner of the same point on
  /// the reference level
  std::vector<IndexVector> decompositionFor(const LV& l) const {
    std::vector<IndexVector> r(static_cast<size_t>(dim));
    for (size_t d = 0; d < r.size(); ++d) {
      long n = ref::numPoints(l[d], bnd[d]);
      for (auto lo : refDec[d]) {
        long i = 0;
        while (i < n) {
          long fine = bnd[d] == 0 ? ((i + 1) << (ref[d] - l[d])) - 1 : i << (ref[d] - l[d]);
          if (fine >= lo) break;
          ++i;
        }
        r[d].push_back(static_cast<IndexType>(i));
      }
    }
    return r;
  }
  bool everyoneHasPoints(const LV& l) const {
    auto dec = decompositionFor(l);
    for (size_t d = 0; d < dec.size(); ++d) {
      long n = ref::numPoints(l[d], bnd[d]);
      for (size_t k = 0; k < dec[d].size(); ++k)
        if (dec[d][k] >= (k + 1 < dec[d].size() ? dec[d][k + 1] : n)) return false;
    }
    return true;
  }
  GridSpec grid(const LV& l) const {
    GridSpec s;
    s.dim = dim;
    s.level = toLib(l);
    s.bnd = bnd;
    s.procs = procs;
    s.nprocs = nprocs;
    s.decomposition = decompositionFor(l);
    for (size_t d = 0; d < l.size(); ++d) {
      s.n.push_back(ref::numPoints(l[d], bnd[d]));
      s.total *= s.n.back();
    }
    return s;
  }
  std::string describe() const {
    std::ostringstream os;
    os << "reference=" << ref::str(ref) << " boundary=" << ref::str(bnd) << " procs=" << ref::str(procs) << " dec=";
    for (auto& d : refDec) os << ref::str(d);
    return os.str();
  }
};

/// level of the 1d subspace a point belongs to (boundary points belong to level 1)
inline int subspaceLevel(int level, int bnd, long i) {
  int lv = ref::levelOf(level, bnd, i);
  return lv == 0 ? 1 : lv;
}

/// reference level, boundary flags, process grid and decomposition such that every process has
/// points on the grid of level `coarsest`
inline Family genFamily(pbt::Gen& g, const LV& ref, const LV& coarsest, int maxProcs, bool allowNoBoundary = true,
                        int boundaryEverywhere = -1) {
  Family f;
  f.dim = static_cast<int>(ref.size());
  f.ref = ref;
  bool same = boundaryEverywhere >= 0 || g.chance(60);
  auto gb = [&]() { return allowNoBoundary ? g.irange(0, 2) : g.irange(1, 2); };
  int b0 = boundaryEverywhere >= 0 ? boundaryEverywhere : gb();
  std::vector<long> n, nc;
  for (size_t d = 0; d < ref.size(); ++d) {
    f.bnd.push_back(static_cast<BoundaryType>(same ? b0 : gb()));
    n.push_back(ref::numPoints(ref[d], f.bnd[d]));
    nc.push_back(ref::numPoints(coarsest[d], f.bnd[d]));
  }
  f.procs = ref::genProcs(g, nc, maxProcs);
  for (int p : f.procs) f.nprocs *= p;
  bool own = g.chance(60);
  bool forward = g.boolean();
  for (size_t d = 0; d < ref.size(); ++d) {
    IndexVector dec;
    if (own) {
      // cut between points of the coarsest grid, then move the cut within the gap on the fine grid
      auto c = ref::genDecomposition1d(g, nc[d], f.procs[d]);
      for (size_t k = 0; k < c.size(); ++k) {
        if (k == 0) {
          dec.push_back(0);
          continue;
        }
        int diff = ref[d] - coarsest[d];
        auto fine = [&](long i) { return f.bnd[d] == 0 ? ((i + 1) << diff) - 1 : i << diff; };
        dec.push_back(static_cast<IndexType>(g.range(fine(c[k] - 1) + 1, fine(c[k]))));
      }
    } else {
      dec = getDefaultDecomposition({static_cast<IndexType>(n[d])}, {f.procs[d]}, forward)[0];
    }
    f.refDec.push_back(dec);
  }
  if (!f.everyoneHasPoints(coarsest)) {
    // the default decomposition does not fit the coarsest grid: one process
    f.procs.assign(ref.size(), 1);
    f.nprocs = 1;
    f.refDec.assign(ref.size(), IndexVector{0});
  }
  return f;
}

template <typename F>
void forLevels(const LV& lo, const LV& hi, F&& f) {
  LV l = lo;
  for (size_t d = 0; d < lo.size(); ++d)
    if (lo[d] > hi[d]) return;
  while (true) {
    f(l);
    size_t d = lo.size();
    while (d > 0 && l[d - 1] == hi[d - 1]) {
      l[d - 1] = lo[d - 1];
      --d;
    }
    if (d == 0) return;
    ++l[d - 1];
  }
}
}  // namespace ad
