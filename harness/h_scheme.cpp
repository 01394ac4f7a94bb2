// C07 / C08 / C09: combination schemes -- validity, files and broadcast, distribution
#include "common/grid.hpp"

#include "combischeme/CombiMinMaxScheme.hpp"
#include "combischeme/CombiThirdLevelScheme.hpp"
#include "io/BroadcastParameters.hpp"
#include "utils/DecompositionUtils.hpp"
#include "utils/LevelSetUtils.hpp"

using pbt::Ctx;
using pbt::Gen;
using namespace combigrid;

namespace {
using LV = std::vector<int>;
using Map = std::map<LV, double>;

LV lv(const LevelVector& l) { return LV(l.begin(), l.end()); }
LevelVector lib(const LV& l) {
  LevelVector r;
  for (int x : l) r.push_back(static_cast<LevelType>(x));
  return r;
}
int sum(const LV& l) { return std::accumulate(l.begin(), l.end(), 0); }
bool leq(const LV& a, const LV& b) {
  for (size_t i = 0; i < a.size(); ++i)
    if (a[i] > b[i]) return false;
  return true;
}
std::string str(const LV& l) { return ref::str(l); }

/// call f for all lo <= l <= hi
template <typename F>
void forAll(const LV& lo, const LV& hi, F&& f) {
  LV l = lo;
  for (size_t i = 0; i < lo.size(); ++i)
    if (lo[i] > hi[i]) return;
  while (true) {
    f(l);
    size_t d = 0;
    while (d < l.size() && l[d] == hi[d]) {
      l[d] = lo[d];
      ++d;
    }
    if (d == l.size()) return;
    ++l[d];
  }
}
std::set<LV> downSetOf(const std::vector<LV>& grids) {
  std::set<LV> r;
  for (auto& g : grids) {
    if (r.count(g)) continue;
    forAll(LV(g.size(), 1), g, [&](const LV& l) { r.insert(l); });
  }
  return r;
}
double binom(int n, int k) {
  double r = 1;
  for (int i = 1; i <= k; ++i) r = r * (n - k + i) / i;
  return std::round(r);
}

struct Range {
  LV lmin, lmax;
};
Range genRange(Gen& g, Ctx& c, int maxDim) {
  Range r;
  int dim = g.irange(1, maxDim);
  static const int maxDiffForDim[] = {0, 14, 9, 6, 5, 4, 3, 2};
  static const int largeDiffForDim[] = {0, 20, 20, 14, 8, 6, 5, 3};
  const bool large = g.chance(8);  // schemes with several hundred grids
  int maxDiff = large ? largeDiffForDim[dim] : maxDiffForDim[dim];
  int maxMin = large && dim >= 3 ? 1 : dim >= 5 ? 2 : dim >= 4 ? 3 : 5;
  int kind = large && g.chance(70) ? 0 : g.irange(0, 3);  // 0: all equal differences, 1: some constant, 2: arbitrary, 3: arbitrary + constant
  int d0 = g.irange(large ? maxDiff * 2 / 3 : 0, maxDiff);
  bool sameMin = g.chance(40);
  int m0 = g.irange(1, maxMin);
  for (int i = 0; i < dim; ++i) {
    int mn = sameMin ? m0 : g.irange(1, maxMin);
    int df = d0;
    if (kind >= 2) df = g.irange(0, maxDiff);
    if ((kind == 1 || kind == 3) && g.chance(35)) df = 0;
    r.lmin.push_back(mn);
    r.lmax.push_back(mn + df);
  }
  c.desc << "lmin=" << str(r.lmin) << " lmax=" << str(r.lmax) << " ";
  static const char* names[] = {"equal", "some_constant", "unequal", "unequal_constant"};
  c.label(names[kind]);
  c.label("dim" + std::to_string(dim));
  if (large) c.label("large");
  return r;
}

/// compare the scheme's grids with the expected map; no duplicates, no zeros
void compareScheme(Ctx& c, const CombiMinMaxScheme& s, const Map& expected, const std::string& what) {
  const auto& spaces = s.getCombiSpaces();
  const auto& coeffs = s.getCoeffs();
  c.checkf(spaces.size() == coeffs.size(), [&](std::ostream& os) {
    os << what << ": " << spaces.size() << " grids but " << coeffs.size() << " coefficients";
  });
  if (c.failed) return;
  std::set<LV> seen;
  for (size_t i = 0; i < spaces.size(); ++i) {
    LV l = lv(spaces[i]);
    c.checkf(seen.insert(l).second, [&](std::ostream& os) { os << what << ": grid " << str(l) << " listed twice"; });
    auto it = expected.find(l);
    c.checkf(it != expected.end(), [&](std::ostream& os) {
      os << what << ": unexpected grid " << str(l) << " with coefficient " << coeffs[i];
    });
    if (it != expected.end())
      c.checkf(coeffs[i] == it->second, [&](std::ostream& os) {
        os << what << ": grid " << str(l) << " has coefficient " << coeffs[i] << " instead of " << it->second;
      });
  }
  for (auto& e : expected)
    c.checkf(seen.count(e.first), [&](std::ostream& os) { os << what << ": grid " << str(e.first) << " is missing"; });
}

/// every subspace below a grid is covered with coefficients summing to one
void checkValidity(Ctx& c, const CombiMinMaxScheme& s, const std::set<LV>& down, const std::string& what) {
  std::map<LV, double> cover;
  for (size_t i = 0; i < s.getCombiSpaces().size(); ++i) {
    LV g = lv(s.getCombiSpaces()[i]);
    if (s.getCoeffs()[i] == 0.) continue;
    forAll(LV(g.size(), 1), g, [&](const LV& l) { cover[l] += s.getCoeffs()[i]; });
  }
  for (auto& d : down) {
    auto it = cover.find(d);
    double v = it == cover.end() ? 0. : it->second;
    c.checkf(v == 1., [&](std::ostream& os) {
      os << what << ": the coefficients of the grids containing subspace " << str(d) << " add up to " << v;
    });
  }
}
void checkDownSet(Ctx& c, const std::vector<LevelVector>& got, const std::set<LV>& expected, const std::string& what) {
  std::set<LV> seen;
  for (auto& l : got) {
    c.checkf(expected.count(lv(l)), [&](std::ostream& os) { os << what << ": subspace " << ref::str(l) << " is not below any grid"; });
    c.checkf(seen.insert(lv(l)).second, [&](std::ostream& os) { os << what << ": subspace " << ref::str(l) << " listed twice"; });
  }
  for (auto& l : expected)
    c.checkf(seen.count(l), [&](std::ostream& os) { os << what << ": subspace " << str(l) << " is missing"; });
}

/// 1d point count of hierarchical level l (level 1 carries the boundary)
long long hier1d(int l, int b) { return l == 1 ? 1 + b : 1ll << (l - 1); }

void checkDof(Ctx& c, const CombiMinMaxScheme& s, const std::set<LV>& down, Gen& g) {
  size_t dim = s.getCombiSpaces()[0].size();
  std::vector<BoundaryType> bnd;
  for (size_t i = 0; i < dim; ++i) bnd.push_back(static_cast<BoundaryType>(g.irange(0, 2)));
  for (auto& l : s.getCombiSpaces()) {
    long long n = 1, nh = 0;
    for (size_t d = 0; d < dim; ++d) n *= ref::numPoints(l[d], bnd[d]);
    c.checkf(getCombiDegreesOfFreedom(l, bnd) == n, [&](std::ostream& os) {
      os << "number of points of grid " << ref::str(l) << " boundary " << ref::str(bnd) << " reported as "
         << getCombiDegreesOfFreedom(l, bnd) << " instead of " << n;
    });
    if (n < (1ll << 31)) {
      c.checkf(static_cast<long long>(getNumDofNodal(l, bnd)) == n, [&](std::ostream& os) {
        os << "getNumDofNodal of grid " << ref::str(l) << " boundary " << ref::str(bnd) << " is " << getNumDofNodal(l, bnd);
      });
      // the grid is the disjoint union of its subspaces
      auto ds = combigrid::getDownSet(l);
      for (auto& h : ds) nh += getNumDofHierarchical(h, bnd);
      c.checkf(nh == n, [&](std::ostream& os) {
        os << "points of the subspaces below " << ref::str(l) << " boundary " << ref::str(bnd) << " add up to " << nh;
      });
    }
  }
  long long sg = 0;
  std::vector<LevelVector> dv;
  for (auto& l : down) {
    long long n = 1;
    for (int x : l) n *= hier1d(x, 2);
    sg += n;
    dv.push_back(lib(l));
  }
  c.checkf(getSGDegreesOfFreedomFromDownSet(dv) == sg, [&](std::ostream& os) {
    os << "sparse grid points reported as " << getSGDegreesOfFreedomFromDownSet(dv) << " instead of " << sg;
  });
}

void classicalScheme(Gen& g, Ctx& c) {
  auto r = genRange(g, c, 6);
  size_t dim = r.lmin.size();
  int e = 0, cc = 1 << 20;
  for (size_t i = 0; i < dim; ++i)
    if (r.lmax[i] > r.lmin[i]) {
      ++e;
      cc = std::min(cc, r.lmax[i] - r.lmin[i]);
    }
  LV base = r.lmax;
  Map expected;
  if (e == 0) {
    expected[r.lmax] = 1.;
    cc = 0;
  } else {
    for (size_t i = 0; i < dim; ++i)
      if (r.lmax[i] > r.lmin[i]) base[i] = r.lmax[i] - cc;
    int s0 = sum(base);
    forAll(base, r.lmax, [&](const LV& l) {
      int p = cc - (sum(l) - s0);
      if (p >= 0 && p <= e - 1) expected[l] = (p % 2 ? -1. : 1.) * binom(e - 1, p);
    });
  }
  c.nontrivial = expected.size() > 1;
  CombiMinMaxScheme s(static_cast<DimType>(dim), lib(r.lmin), lib(r.lmax));
  s.createClassicalCombischeme();
  compareScheme(c, s, expected, "classical scheme");
  if (c.failed) return;
  std::vector<LV> grids;
  for (auto& x : expected) grids.push_back(x.first);
  auto down = downSetOf(grids);
  checkValidity(c, s, down, "classical scheme");
  checkDownSet(c, s.getDownSet(), down, "classical scheme, down set");
  if (g.chance(30)) {
    auto before = s;
    s.makeFaultTolerant();
    auto n0 = before.getCombiSpaces().size();
    std::set<LV> extra;
    forAll(base, r.lmax, [&](const LV& l) {
      int p = cc - (sum(l) - sum(base));
      if (e > 0 && (p == e || p == e + 1)) extra.insert(l);
    });
    c.check(s.getCombiSpaces().size() == s.getCoeffs().size(), "fault tolerant scheme: sizes differ");
    if (c.failed) return;
    std::set<LV> got;
    for (size_t i = 0; i < s.getCombiSpaces().size(); ++i) {
      if (i < n0) {
        c.check(lv(s.getCombiSpaces()[i]) == lv(before.getCombiSpaces()[i]) && s.getCoeffs()[i] == before.getCoeffs()[i],
                "fault tolerance changes the grids in use");
      } else {
        c.check(s.getCoeffs()[i] == 0., "extra grid for fault tolerance has a coefficient");
        c.check(got.insert(lv(s.getCombiSpaces()[i])).second, "extra grid for fault tolerance listed twice");
      }
    }
    c.checkf(got == extra, [&](std::ostream& os) { os << "extra grids for fault tolerance: " << got.size() << " instead of " << extra.size(); });
    c.label("fault_tolerant");
  }
  s.createDownSet();
  checkDownSet(c, s.getDownSet(), down, "createDownSet");
  checkDof(c, s, down, g);
}

void adaptiveScheme(Gen& g, Ctx& c) {
  auto r = genRange(g, c, 5);
  size_t dim = r.lmin.size();
  int n = 0;
  for (size_t i = 0; i < dim; ++i) n = std::max(n, r.lmax[i] - r.lmin[i]);
  std::set<LV> S;
  forAll(r.lmin, r.lmax, [&](const LV& l) {
    if (sum(l) - sum(r.lmin) <= n) S.insert(l);
  });
  Map expected;
  std::vector<LV> grids;
  for (auto& l : S) {
    double co = 0;
    for (unsigned z = 0; z < (1u << dim); ++z) {
      LV m = l;
      for (size_t d = 0; d < dim; ++d) m[d] += (z >> d) & 1;
      if (S.count(m)) co += __builtin_popcount(z) % 2 ? -1 : 1;
    }
    if (co != 0) {
      expected[l] = co;
      grids.push_back(l);
    }
  }
  c.nontrivial = expected.size() > 1;
  CombiMinMaxScheme s(static_cast<DimType>(dim), lib(r.lmin), lib(r.lmax));
  s.createAdaptiveCombischeme();
  compareScheme(c, s, expected, "adaptive scheme");
  if (c.failed) return;
  auto down = downSetOf(grids);
  checkValidity(c, s, down, "adaptive scheme");
  checkDownSet(c, s.getDownSet(), down, "adaptive scheme, down set");
  if (g.chance(50)) {
    s.createDownSet();
    checkDownSet(c, s.getDownSet(), down, "createDownSet");
  }
  checkDof(c, s, down, g);
}

/// sparse grid sizes per process against counting the points
void partitionedDof(Gen& g, Ctx& c) {
  auto r = genRange(g, c, 4);
  size_t dim = r.lmin.size();
  LV refl = r.lmax;
  std::vector<IndexVector> dec;
  std::vector<long> n;
  int procs = 1;
  for (size_t d = 0; d < dim; ++d) {
    refl[d] += g.irange(0, 2);
    n.push_back((1l << refl[d]) + 1);
    int p = g.irange(1, static_cast<int>(std::min<long>(n[d], procs > 30 ? 1 : 6)));
    procs *= p;
    if (g.chance(25))
      dec.push_back(getDefaultDecomposition({static_cast<IndexType>(n[d])}, {p}, g.boolean())[0]);
    else
      dec.push_back(ref::genDecomposition1d(g, n[d], p));
    c.desc << ref::str(dec.back());
  }
  c.desc << " reference level=" << str(refl);
  std::vector<LevelVector> down;
  if (g.boolean()) {
    CombiMinMaxScheme s(static_cast<DimType>(dim), lib(r.lmin), lib(r.lmax));
    s.createAdaptiveCombischeme();
    down = s.getDownSet();
  } else {
    down = getDownSet(lib(r.lmin));
  }
  c.nontrivial = procs > 1;
  std::vector<long long> expected(static_cast<size_t>(procs), 0);
  // points of level l in each part of dimension d
  auto count = [&](size_t d, int l) {
    std::vector<long long> k(dec[d].size(), 0);
    long step = 1l << (refl[d] - l);
    auto add = [&](long i) {
      size_t p = dec[d].size() - 1;
      while (dec[d][p] > i) --p;
      ++k[p];
    };
    for (long i = step; i < n[d]; i += 2 * step) add(i);
    if (l == 1) {
      add(0);
      add(n[d] - 1);
    }
    return k;
  };
  std::vector<std::vector<std::vector<long long>>> cnt(dim);
  for (size_t d = 0; d < dim; ++d)
    for (int l = 0; l <= r.lmax[d]; ++l) cnt[d].push_back(l == 0 ? std::vector<long long>() : count(d, l));
  for (auto& l : down)
    for (int p = 0; p < procs; ++p) {
      long long m = 1;
      int q = p;
      for (size_t d = 0; d < dim; ++d) {
        m *= cnt[d][static_cast<size_t>(l[d])][static_cast<size_t>(q) % dec[d].size()];
        q /= static_cast<int>(dec[d].size());
      }
      expected[static_cast<size_t>(p)] += m;
    }
  auto got = getPartitionedNumDOFSG(down, lib(refl), dec);
  c.check(got.size() == expected.size(), "number of processes in the partitioned sizes");
  for (size_t p = 0; p < expected.size() && !c.failed; ++p)
    c.checkf(got[p] == expected[p], [&](std::ostream& os) {
      os << "sparse grid points on process " << p << " reported as " << got[p] << ", but it owns " << expected[p];
    });
}

void levelSets(Gen& g, Ctx& c) {
  int dim = g.irange(1, 5);
  LV l;
  for (int d = 0; d < dim; ++d) l.push_back(g.irange(1, dim > 3 ? 4 : 7));
  c.desc << "level=" << str(l);
  c.nontrivial = dim > 1;
  std::set<LV> exp = downSetOf({l});
  checkDownSet(c, combigrid::getDownSet(lib(l)), exp, "getDownSet");
  HypercubeDownSetGenerator gen(lib(l));
  std::vector<LevelVector> all;
  auto n = gen.getTotalNumberOfLevels();
  c.check(static_cast<size_t>(n) == exp.size(), "getTotalNumberOfLevels");
  for (int i = 0; i < n; ++i) all.push_back(gen.getNextLevel());
  checkDownSet(c, all, exp, "HypercubeDownSetGenerator");
  // k out of d dimensions
  int D = g.irange(1, 7), k = g.irange(0, D);
  for (int rep = 0; rep < 2; ++rep) {
    const auto& sel = AllKOutOfDDimensions::get(static_cast<DimType>(k), static_cast<DimType>(D));
    std::set<LV> seen;
    for (auto& s : sel) {
      LV v(s.begin(), s.end());
      bool ok = static_cast<int>(v.size()) == k;
      for (size_t i = 0; i < v.size(); ++i) ok = ok && v[i] >= 0 && v[i] < D && (i == 0 || v[i] > v[i - 1]);
      c.check(ok && seen.insert(v).second, "selection of dimensions invalid or repeated");
    }
    c.check(static_cast<double>(seen.size()) == binom(D, k), "number of selections of k out of d dimensions");
  }
  // subspaces of a sparse grid: everything below the diagonal of the (uniformly) truncated scheme
  auto r = genRange(g, c, 4);
  int m = 1 << 20;
  for (size_t i = 0; i < r.lmin.size(); ++i) m = std::min(m, r.lmax[i] - r.lmin[i]);
  LV base = r.lmax;
  for (auto& x : base) x -= m;
  std::set<LV> ds;
  forAll(LV(base.size(), 1), r.lmax, [&](const LV& x) {
    int s = 0;
    for (size_t i = 0; i < x.size(); ++i) s += std::max(0, x[i] - base[i]);
    if (s <= m) ds.insert(x);
  });
  std::vector<LevelVector> created;
  createTruncatedHierarchicalLevels(lib(r.lmax), lib(r.lmin), created);
  checkDownSet(c, created, ds, "createTruncatedHierarchicalLevels");
}

/// point counts of lists of large levels (beyond 32 bit)
void largeCounts(Gen& g, Ctx& c) {
  int dim = g.irange(1, 7), n = g.irange(1, 4);
  std::vector<LevelVector> L;
  std::vector<BoundaryType> bnd;
  for (int d = 0; d < dim; ++d) bnd.push_back(static_cast<BoundaryType>(g.irange(0, 2)));
  long long nodal = 0, hier = 0, sg = 0;
  for (int i = 0; i < n; ++i) {
    int left = 40;
    LevelVector l;
    long long a = 1, b = 1, e = 1;
    for (int d = 0; d < dim; ++d) {
      auto dd = static_cast<size_t>(d);
      int x = g.irange(1, std::min(25, left - (dim - 1 - d)));
      left -= x;
      l.push_back(static_cast<LevelType>(x));
      a *= (1ll << x) + bnd[dd] - 1;
      b *= hier1d(x, bnd[dd]);
      e *= hier1d(x, 2);
    }
    c.desc << "level=" << ref::str(l) << " ";
    const bool fits = a <= std::numeric_limits<IndexType>::max();
    c.checkf(getCombiDegreesOfFreedom(l, bnd) == a && (!fits || static_cast<long long>(getNumDofNodal(l, bnd)) == a), [&](std::ostream& os) {
      os << "number of points of grid " << ref::str(l) << " boundary " << ref::str(bnd) << " reported as "
         << getCombiDegreesOfFreedom(l, bnd) << " and " << getNumDofNodal(l, bnd) << " instead of " << a;
    });
    c.checkf(b > std::numeric_limits<IndexType>::max() || static_cast<long long>(getNumDofHierarchical(l, bnd)) == b, [&](std::ostream& os) {
      os << "number of points of subspace " << ref::str(l) << " boundary " << ref::str(bnd) << " reported as " << getNumDofHierarchical(l, bnd)
         << " instead of " << b;
    });
    nodal += a;
    hier += b;
    sg += e;
    L.push_back(l);
  }
  c.desc << "boundary=" << ref::str(bnd);
  c.nontrivial = nodal > (1ll << 31);
  if (c.nontrivial) c.label("beyond_32_bit");
  c.check(nodal > std::numeric_limits<IndexType>::max() || static_cast<long long>(getNumDofNodal(L, bnd)) == nodal, "total number of grid points");
  c.check(hier > std::numeric_limits<IndexType>::max() || static_cast<long long>(getNumDofHierarchical(L, bnd)) == hier, "total number of points of the subspaces");
  c.check(getSGDegreesOfFreedomFromDownSet(L) == sg, "degrees of freedom of the sparse grid");
}

// ---------------------------------------------------------------- files
struct FileScheme {
  std::vector<LV> levels;
  std::vector<double> coeffs;
  std::vector<int> groups;
  LV lmin, lmax;
};
FileScheme genFileScheme(Gen& g, Ctx& c, int maxGrids) {
  FileScheme f;
  int dim = g.irange(1, 6);
  int n = g.irange(1, g.chance(10) ? maxGrids : 30);
  uint64_t seed = g.dataSeed();
  int coeffKind = g.irange(0, 2);
  bool groups = g.chance(70);
  int ng = g.irange(1, 9);
  f.lmin.assign(static_cast<size_t>(dim), 1);
  f.lmax.assign(static_cast<size_t>(dim), 1);
  for (int i = 0; i < n; ++i) {
    LV l;
    for (int d = 0; d < dim; ++d) {
      l.push_back(1 + static_cast<int>(ref::hash2(seed, static_cast<uint64_t>(i * 8 + d)) % 19));
      f.lmax[static_cast<size_t>(d)] = std::max(f.lmax[static_cast<size_t>(d)], l.back());
    }
    f.levels.push_back(l);
    auto h = ref::hash2(seed + 5, static_cast<uint64_t>(i));
    double co = coeffKind == 0 ? (h % 2 ? 1. : -1.)
                : coeffKind == 1 ? static_cast<double>(static_cast<long>(h % 41) - 20)
                                 : ref::dyadic(seed, static_cast<uint64_t>(i)) * 3.7;
    f.coeffs.push_back(co);
    if (groups) f.groups.push_back(i == 0 ? 0 : static_cast<int>(ref::hash2(seed + 9, static_cast<uint64_t>(i)) % static_cast<uint64_t>(ng)));
  }
  c.desc << "grids=" << n << " dim=" << dim << " coefficients=" << coeffKind << " groups=" << (groups ? ng : 0) << " seed=" << seed << " ";
  return f;
}
std::string toJson(Gen& g, const FileScheme& f) {
  std::ostringstream os;
  os.precision(17);
  int style = g.irange(0, 3);
  std::string nl = style == 0 ? "" : style == 1 ? "\n" : style == 2 ? "\r\n\t" : " ";
  int order = g.irange(0, 5);
  os << "[";
  for (size_t i = 0; i < f.levels.size(); ++i) {
    if (i) os << "," << nl;
    std::vector<std::string> parts;
    std::ostringstream a, b;
    a.precision(17);
    a << "\"coeff\":" << nl << f.coeffs[i];
    b << "\"level\":" << nl << "[";
    for (size_t d = 0; d < f.levels[i].size(); ++d) b << (d ? "," : "") << nl << f.levels[i][d];
    b << "]";
    parts.push_back(a.str());
    parts.push_back(b.str());
    if (!f.groups.empty()) parts.push_back("\"group_no\": " + std::to_string(f.groups[i]));
    std::rotate(parts.begin(), parts.begin() + static_cast<long>(static_cast<size_t>(order) % parts.size()), parts.end());
    os << "{" << nl;
    for (size_t k = 0; k < parts.size(); ++k) os << (k ? "," : "") << nl << parts[k];
    os << nl << "}";
  }
  os << "]" << nl;
  return os.str();
}
MPI_Comm someComm(Gen& g, Ctx& c) {
  static std::map<int, MPI_Comm> cache;
  int size = pbt::worldSize();
  int kind = g.irange(0, 2 * size);  // contiguous prefix of k ranks, reversed order for the upper half
  int k = kind % size + 1;
  bool rev = kind >= size;
  int key = k * 2 + rev;
  c.desc << "comm=" << k << (rev ? " reversed " : " ");
  auto it = cache.find(key);
  if (it == cache.end()) {
    MPI_Comm m;
    int rank = pbt::worldRank();
    MPI_Comm_split(MPI_COMM_WORLD, rank < k ? 0 : MPI_UNDEFINED, rev ? -rank : rank, &m);
    it = cache.emplace(key, m).first;
  }
  return it->second;
}
int rankIn(MPI_Comm m) {
  int r;
  MPI_Comm_rank(m, &r);
  return r;
}
void writeFile(const std::string& fn, const std::string& s) {
  std::ofstream f(fn, std::ios::binary);
  f << s;
}

void schemeFile(Gen& g, Ctx& c) {
  auto f = genFileScheme(g, c, 3000);
  auto json = toJson(g, f);
  MPI_Comm comm = someComm(g, c);
  c.nontrivial = f.levels.size() > 1;
  c.label(f.groups.empty() ? "no_groups" : "groups");
  int ng = g.irange(1, 9);
  if (comm == MPI_COMM_NULL) return;
  std::string fn = c.scratch + "/scheme.json";
  // only the reading process can see the file
  std::string mine = rankIn(comm) == 0 ? fn : "/nonexistent/scheme.json";
  if (rankIn(comm) == 0) writeFile(fn, json);
  CombiMinMaxSchemeFromFile s(static_cast<DimType>(f.lmin.size()), lib(f.lmin), lib(f.lmax), mine, comm);
  c.checkf(s.getCombiSpaces().size() == f.levels.size() && s.getCoeffs().size() == f.coeffs.size() &&
               s.getProcessGroupNumbers().size() == f.groups.size(),
           [&](std::ostream& os) {
             os << "scheme of " << f.levels.size() << " grids read with " << s.getCombiSpaces().size() << " levels, "
                << s.getCoeffs().size() << " coefficients, " << s.getProcessGroupNumbers().size() << " groups";
           });
  if (!c.failed) {
    for (size_t i = 0; i < f.levels.size(); ++i) {
      c.checkf(lv(s.getCombiSpaces()[i]) == f.levels[i], [&](std::ostream& os) {
        os << "grid " << i << " read as " << ref::str(s.getCombiSpaces()[i]) << " instead of " << str(f.levels[i]);
      });
      c.checkf(s.getCoeffs()[i] == f.coeffs[i], [&](std::ostream& os) {
        os.precision(17);
        os << "coefficient " << i << " read as " << s.getCoeffs()[i] << " instead of " << f.coeffs[i];
      });
      if (!f.groups.empty())
        c.check(s.getProcessGroupNumbers()[i] == f.groups[i], "group number of grid " + std::to_string(i));
    }
  }
  if (!c.failed) {
    // levels assigned to the groups
    size_t assigned = 0;
    for (int p = 0; p < ng; ++p) {
      std::vector<LevelVector> levels;
      std::vector<real> coeffs;
      std::vector<size_t> ids;
      bool thrown = false;
      size_t total = 0;
      try {
        total = getAssignedLevels(s, p, levels, coeffs, ids);
      } catch (const std::runtime_error&) {
        thrown = true;
      }
      c.check(thrown == f.groups.empty(), f.groups.empty() ? "scheme without group numbers accepted"
                                                           : "scheme with group numbers rejected");
      if (thrown || c.failed) continue;
      std::vector<size_t> expIds;
      for (size_t i = 0; i < f.groups.size(); ++i)
        if (f.groups[i] == p) expIds.push_back(i);
      c.check(total == f.levels.size(), "total number of grids reported with the assignment");
      auto sorted = ids;
      std::sort(sorted.begin(), sorted.end());
      c.check(sorted == expIds, "grids assigned to group " + std::to_string(p) + " are not the ones in the file");
      for (size_t k = 0; k < ids.size() && !c.failed; ++k)
        c.check(lv(levels[k]) == f.levels[ids[k]] && coeffs[k] == f.coeffs[ids[k]], "level or coefficient of an assigned grid");
      assigned += ids.size();
    }
  }
  if (rankIn(comm) == 0) unlink(fn.c_str());
}

void fileContents(Gen& g, Ctx& c) {
  MPI_Comm comm = someComm(g, c);
  size_t n = g.chance(15) ? static_cast<size_t>(g.range(0, 400000)) : static_cast<size_t>(g.range(0, 300));
  uint64_t seed = g.dataSeed();
  int kind = g.irange(0, 2);  // text, bytes, newlines
  std::string s(n, 'a');
  for (size_t i = 0; i < n; ++i) {
    auto h = ref::hash2(seed, i);
    s[i] = kind == 0 ? static_cast<char>('!' + h % 90) : kind == 1 ? static_cast<char>(h & 0xff) : "\n \r\t\0x"[h % 6];
  }
  c.desc << "bytes=" << n << " kind=" << kind << " seed=" << seed;
  c.nontrivial = n > 0;
  if (comm == MPI_COMM_NULL) return;
  std::string fn = c.scratch + "/contents.bin";
  std::string mine = rankIn(comm) == 0 ? fn : "/nonexistent/contents";
  if (rankIn(comm) == 0) writeFile(fn, s);
  auto got = broadcastParameters::getFileContentsFromRankZero(mine, comm);
  c.checkf(got == s, [&](std::ostream& os) { os << "contents differ: " << got.size() << " bytes instead of " << s.size(); });
  if (rankIn(comm) == 0) unlink(fn.c_str());
}

void parameterFile(Gen& g, Ctx& c) {
  MPI_Comm comm = someComm(g, c);
  int sections = g.irange(1, 5);
  uint64_t seed = g.dataSeed();
  std::map<std::string, std::string> kv;
  std::ostringstream os;
  for (int s = 0; s < sections; ++s) {
    std::string sec = "sec" + std::to_string(s);
    os << "[" << sec << "]\n";
    int keys = g.irange(0, 8);
    for (int k = 0; k < keys; ++k) {
      auto h = ref::hash2(seed, static_cast<uint64_t>(s * 20 + k));
      std::string key = "k" + std::to_string(k), val;
      switch (h % 4) {
        case 0: val = std::to_string(static_cast<int>(h >> 40)); break;
        case 1: val = "2 3 " + std::to_string(h % 17); break;
        case 2: val = "path/to_" + std::to_string(h % 1000) + ".json"; break;
        default: val = std::to_string(1e-3 * static_cast<double>(h % 100000));
      }
      if (h % 7 == 0) os << "\n";
      os << key << (h % 3 ? " = " : "=") << val << "\n";
      kv[sec + "." + key] = val;
    }
  }
  c.desc << "sections=" << sections << " keys=" << kv.size() << " seed=" << seed;
  c.nontrivial = kv.size() > 1;
  if (comm == MPI_COMM_NULL) return;
  std::string fn = c.scratch + "/ctparam";
  std::string mine = rankIn(comm) == 0 ? fn : "/nonexistent/ctparam";
  if (rankIn(comm) == 0) writeFile(fn, os.str());
  auto cfg = broadcastParameters::getParametersFromRankZero(mine, comm);
  size_t n = 0;
  for (auto& s : cfg) n += s.second.size();
  c.check(n == kv.size(), "number of parameters");
  for (auto& e : kv) c.check(cfg.get<std::string>(e.first, "<missing>") == e.second, "parameter " + e.first);
  if (rankIn(comm) == 0) unlink(fn.c_str());
}

// ---------------------------------------------------------------- distribution
CombiMinMaxScheme genAnyScheme(Gen& g, Ctx& c, bool large) {
  if (!large && g.boolean()) {
    auto r = genRange(g, c, 5);
    CombiMinMaxScheme s(static_cast<DimType>(r.lmin.size()), lib(r.lmin), lib(r.lmax));
    if (g.boolean())
      s.createClassicalCombischeme();
    else
      s.createAdaptiveCombischeme();
    return s;
  }
  auto f = genFileScheme(g, c, large ? 12000 : 400);
  std::vector<LevelVector> l;
  for (auto& x : f.levels) {
    LV y = x;
    for (auto& v : y) v = 1 + v % 9;
    l.push_back(lib(y));
  }
  return CombiMinMaxScheme(l, f.coeffs);
}

void distribution(Gen& g, Ctx& c) {
  auto s = genAnyScheme(g, c, false);
  const auto& L = s.getCombiSpaces();
  const auto& C = s.getCoeffs();
  int maxGroups = static_cast<int>(std::min<size_t>(L.size(), 16));
  int ng = g.irange(1, maxGroups);
  bool byLoad = g.boolean();
  std::vector<BoundaryType> bnd;
  for (size_t d = 0; d < L[0].size(); ++d) bnd.push_back(static_cast<BoundaryType>(g.irange(0, 2)));
  c.desc << "groups=" << ng << (byLoad ? " by load, boundary=" + ref::str(bnd) : " round robin");
  c.label(byLoad ? "by_load" : "round_robin");
  c.nontrivial = ng > 1;
  std::vector<int> count(L.size(), 0);
  double total = 0, maxTask = 0, maxLoad = 0;
  auto points = [&](const LevelVector& l) {
    double n = 1;
    for (size_t d = 0; d < l.size(); ++d) n *= static_cast<double>(ref::numPoints(l[d], bnd[d]));
    return n;
  };
  for (auto& l : L) {
    total += points(l);
    maxTask = std::max(maxTask, points(l));
  }
  size_t minSize = L.size(), maxSize = 0;
  for (int p = 0; p < ng; ++p) {
    std::vector<LevelVector> levels;
    std::vector<real> coeffs;
    std::vector<size_t> ids;
    size_t n = byLoad ? getLoadBalancedLevels(s, p, static_cast<size_t>(ng), bnd, levels, coeffs, ids)
                      : getRoundRobinLevels(s, p, static_cast<size_t>(ng), levels, coeffs, ids);
    c.check(n == L.size(), "total number of grids reported");
    c.check(levels.size() == ids.size() && coeffs.size() == ids.size(), "levels, coefficients and numbers differ in count");
    c.check(!ids.empty(), "group " + std::to_string(p) + " gets no grid although there are enough");
    minSize = std::min(minSize, ids.size());
    maxSize = std::max(maxSize, ids.size());
    double load = 0;
    for (size_t k = 0; k < ids.size() && !c.failed; ++k) {
      c.check(ids[k] < L.size(), "unknown grid number");
      if (c.failed) break;
      ++count[ids[k]];
      c.checkf(lv(levels[k]) == lv(L[ids[k]]) && coeffs[k] == C[ids[k]], [&](std::ostream& os) {
        os << "grid number " << ids[k] << " handed to group " << p << " as level " << ref::str(levels[k]) << " coefficient " << coeffs[k];
      });
      load += points(levels[k]);
    }
    maxLoad = std::max(maxLoad, load);
  }
  for (size_t i = 0; i < count.size(); ++i)
    c.checkf(count[i] == 1, [&](std::ostream& os) { os << "grid number " << i << " is assigned " << count[i] << " times"; });
  if (byLoad)
    c.checkf(maxLoad <= total / ng + maxTask, [&](std::ostream& os) {
      os << "the fullest group has " << maxLoad << " points, average " << total / ng << ", largest grid " << maxTask;
    });
  else
    c.check(maxSize - minSize <= 1, "round robin is uneven");
}

void systems(Gen& g, Ctx& c) {
  bool large = g.chance(15);
  auto s = genAnyScheme(g, c, large);
  const auto& L = s.getCombiSpaces();
  const auto& C = s.getCoeffs();
  int ns = g.irange(1, 6);
  std::vector<real> frac;
  bool dflt = ns == 2 && g.boolean();
  if (dflt) {
    frac = {0.5, 0.5};
  } else {
    int kind = g.irange(0, 2);
    std::vector<double> w;
    double sumw = 0;
    for (int i = 0; i < ns; ++i) {
      w.push_back(kind == 0 ? 1. : static_cast<double>(g.irange(0, 100)));
      sumw += w.back();
    }
    if (sumw == 0) w[0] = sumw = 1;
    for (auto x : w) frac.push_back(x / sumw);
    if (kind == 2)  // fractions as one would type them: a few digits only
      for (auto& x : frac) x = std::round(x * 10000.) / 10000.;
  }
  double fs = 0;
  for (auto x : frac) fs += x;
  c.desc << "systems=" << ns << " fractions=" << ref::strd(frac);
  if (std::abs(fs - 1.) >= 1e-3) return;
  c.nontrivial = ns > 1;
  c.label("systems" + std::to_string(ns));
  if (large) c.label("large");
  size_t pos = 0;
  for (int k = 0; k < ns; ++k) {
    std::vector<LevelVector> levels;
    std::vector<real> coeffs;
    if (dflt)
      CombiThirdLevelScheme::createThirdLevelScheme(L, C, static_cast<unsigned>(k), static_cast<unsigned>(ns), levels, coeffs);
    else
      CombiThirdLevelScheme::createThirdLevelScheme(L, C, static_cast<unsigned>(k), static_cast<unsigned>(ns), levels, coeffs, frac);
    c.check(levels.size() == coeffs.size(), "levels and coefficients differ in count");
    if (c.failed) return;
    c.checkf(pos + levels.size() <= L.size(), [&](std::ostream& os) { os << "more grids than in the scheme are assigned"; });
    for (size_t i = 0; i < levels.size() && !c.failed; ++i)
      c.checkf(lv(levels[i]) == lv(L[pos + i]) && coeffs[i] == C[pos + i], [&](std::ostream& os) {
        os << "system " << k << " gets level " << ref::str(levels[i]) << " coefficient " << coeffs[i] << " as its grid " << i;
      });
    pos += levels.size();
    double share = frac[static_cast<size_t>(k)] * static_cast<double>(L.size());
    c.checkf(std::abs(static_cast<double>(levels.size()) - share) <= 1.5 + 1e-3 * static_cast<double>(L.size()), [&](std::ostream& os) {
      os << "system " << k << " gets " << levels.size() << " grids for a fraction of " << frac[static_cast<size_t>(k)] << " of " << L.size();
    });
  }
  c.checkf(pos == L.size(), [&](std::ostream& os) { os << pos << " of " << L.size() << " grids are assigned to the systems"; });
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Driver d;
  std::string prop = argc > 1 ? argv[1] : "";
  if (prop == "C07") {
    d.add("classical", 3, classicalScheme);
    d.add("adaptive", 3, adaptiveScheme);
    d.add("partitioned", 2, partitionedDof);
    d.add("level_sets", 1, levelSets);
    d.add("large_counts", 1, largeCounts);
  } else if (prop == "C08") {
    d.add("scheme", 3, schemeFile);
    d.add("contents", 2, fileContents);
    d.add("parameters", 1, parameterFile);
  } else if (prop == "C09") {
    d.add("groups", 3, distribution);
    d.add("systems", 2, systems);
  } else {
    return 9;
  }
  return d.main(argc - 1, argv + 1);
}
