// C01 / C02 / C03: hierarchical basis transforms
#include <omp.h>
#include "common/dfg.hpp"

using namespace ad;
using pbt::Ctx;
using pbt::Gen;

namespace {
std::string basesStr(const std::vector<Basis>& b) {
  std::string r = "[";
  for (auto x : b) r += std::string(r.size() > 1 ? "," : "") + ref::basisName(x);
  return r + "]";
}
void labels(Ctx& c, const GridSpec& s, const std::vector<Basis>& b) {
  c.label("dim" + std::to_string(s.dim));
  if (s.nprocs > 1) c.label("decomposed");
  for (int d = 0; d < s.dim; ++d) {
    auto dd = static_cast<size_t>(d);
    c.label(std::string("basis_") + ref::basisName(b[dd]) + (s.procs[dd] > 1 ? "_split" : "_unsplit"));
    c.label("bnd" + std::to_string(s.bnd[dd]));
  }
}
double growth(const GridSpec& s) {
  double r = 1;
  for (auto l : s.level) r *= 2. * static_cast<double>(l + 1);
  return r;
}
std::vector<bool> periodicEq(const GridSpec& s, const std::vector<Basis>& b) {
  std::vector<bool> r;
  for (size_t d = 0; d < b.size(); ++d) r.push_back(ref::isPeriodic(b[d]));
  return r;
}
ref::GridOpts optsFor(Gen& g) {
  ref::GridOpts o;
  o.maxProcs = pbt::worldSize();
  // one third of the cases: few dimensions, long poles
  int shape = g.irange(0, 199);
  if (shape >= 130) {
    o.maxDim = 2;
    o.maxLevel = 11;
    o.maxPoints = 4200;
  } else if (shape >= 128) {  // very long poles: more points than fit into 16 bit
    o.maxDim = 1;
    o.minLevel = 15;
    o.maxLevel = 17;
    o.maxPoints = 140000;
  } else if (shape >= 116) {  // many dimensions
    o.minDim = 6;
    o.maxDim = 7;
    o.maxPoints = 2500;
  }
  return o;
}

// --- C02: every transform equals the serial reference, for every decomposition and thread count
template <typename T>
void equalsReference(Gen& g, Ctx& c) {
  auto s = genGrid(g, optsFor(g));
  auto bases = genBases(g, s);
  auto lmin = genLmin(g, s);
  std::vector<bool> dims;
  bool all = g.chance(60);
  for (int d = 0; d < s.dim; ++d) dims.push_back(all || g.boolean());
  bool inverse = g.boolean();
  int threads = g.irange(1, 4);
  auto seed = g.dataSeed();
  c.desc << s.describe() << " bases=" << basesStr(bases) << " lmin=" << ref::str(lmin)
         << " dims=" << ref::str(std::vector<int>(dims.begin(), dims.end()))
         << (inverse ? " dehierarchize" : " hierarchize") << " threads=" << threads
         << " data=" << seed << " type=" << typeid(T).name();
  labels(c, s, bases);
  c.nontrivial = s.total > 3 && std::any_of(dims.begin(), dims.end(), [](bool b) { return b; });
  auto data = ref::genData<T>(s, seed, periodicEq(s, bases));
  auto expected = data;
  ref::transformAll(s, expected, dims, bases, lmin, inverse);
  MPI_Comm comm = makeCart(s.procs);
  if (comm != MPI_COMM_NULL) {
    omp_set_num_threads(threads);
    auto o = makeDfg<T>(s, comm);
    ad::scatter(s, data, *o.dfg);
    T canary = o.buffer.back();
    BasisSet bs(bases);
    if (inverse)
      DistributedHierarchization::dehierarchize<T>(*o.dfg, dims, bs.ptr, lmin);
    else
      DistributedHierarchization::hierarchize<T>(*o.dfg, dims, bs.ptr, lmin);
    double tol = 16. * ref::eps<T>() * growth(s) * std::max(ref::absmax(data), ref::absmax(expected));
    compareLocal(c, s, expected, *o.dfg, tol, inverse ? "dehierarchize" : "hierarchize");
    c.check(o.buffer.back() == canary, "wrote behind the local data");
    o.dfg.reset();
  }
}

// the convenience entry points with one basis for all dimensions
template <typename T>
void equalsReferenceUniform(Gen& g, Ctx& c) {
  auto s = genGrid(g, optsFor(g));
  int which = g.irange(0, 5);
  bool anyNo = false, anyOne = false;
  for (auto b : s.bnd) {
    anyNo |= b == 0;
    anyOne |= b == 1;
  }
  Basis b = static_cast<Basis>(which);
  if (anyNo) b = ref::HAT;
  if (anyOne && b == ref::FW) b = ref::FWP;
  if (anyOne && b == ref::BIO) b = ref::BIOP;
  std::vector<Basis> bases(static_cast<size_t>(s.dim), b);
  auto lmin = genLmin(g, s);
  bool passLmin = g.boolean();
  if (!passLmin) lmin.assign(static_cast<size_t>(s.dim), 0);
  std::vector<bool> dims(static_cast<size_t>(s.dim), true);
  if (g.chance(40))
    for (int d = 0; d < s.dim; ++d) dims[static_cast<size_t>(d)] = g.boolean();
  bool inverse = g.boolean();
  int threads = g.irange(1, 4);
  auto seed = g.dataSeed();
  c.desc << s.describe() << " basis=" << ref::basisName(b) << " lmin=" << ref::str(lmin)
         << (inverse ? " dehierarchize" : " hierarchize")
         << " dims=" << ref::str(std::vector<int>(dims.begin(), dims.end())) << " threads="
         << threads << " data=" << seed;
  labels(c, s, bases);
  c.nontrivial = s.total > 3;
  auto data = ref::genData<T>(s, seed, periodicEq(s, bases));
  auto expected = data;
  ref::transformAll(s, expected, dims, bases, lmin, inverse);
  MPI_Comm comm = makeCart(s.procs);
  if (comm != MPI_COMM_NULL) {
    omp_set_num_threads(threads);
    auto o = makeDfg<T>(s, comm);
    ad::scatter(s, data, *o.dfg);
    using DH = DistributedHierarchization;
    LevelVector lm = passLmin ? lmin : LevelVector(0);
    auto& d = *o.dfg;
    if (!inverse) switch (b) {
        case ref::HAT:
          if (std::all_of(dims.begin(), dims.end(), [](bool x) { return x; }) && seed % 2)
            DH::hierarchize<T>(d, lm);
          else
            DH::hierarchizeHierarchicalHat<T>(d, dims, lm);
          break;
        case ref::HATP: DH::hierarchizeHierarchicalHatPeriodic<T>(d, dims, lm); break;
        case ref::FW: DH::hierarchizeFullWeighting<T>(d, dims, lm); break;
        case ref::FWP: DH::hierarchizeFullWeightingPeriodic<T>(d, dims, lm); break;
        case ref::BIO: DH::hierarchizeBiorthogonal<T>(d, dims, lm); break;
        default: DH::hierarchizeBiorthogonalPeriodic<T>(d, dims, lm); break;
      }
    else switch (b) {
        case ref::HAT:
          if (std::all_of(dims.begin(), dims.end(), [](bool x) { return x; }) && seed % 2)
            DH::dehierarchize<T>(d, lm);
          else
            DH::dehierarchizeHierarchicalHat<T>(d, dims, lm);
          break;
        case ref::HATP: DH::dehierarchizeHierachicalBasis<T, HierarchicalHatPeriodicBasisFunction>(d, dims, lm); break;
        case ref::FW: DH::dehierarchizeFullWeighting<T>(d, dims, lm); break;
        case ref::FWP: DH::dehierarchizeFullWeightingPeriodic<T>(d, dims, lm); break;
        case ref::BIO: DH::dehierarchizeBiorthogonal<T>(d, dims, lm); break;
        default: DH::dehierarchizeBiorthogonalPeriodic<T>(d, dims, lm); break;
      }
    double tol = 16. * ref::eps<T>() * growth(s) * std::max(ref::absmax(data), ref::absmax(expected));
    compareLocal(c, s, expected, d, tol, inverse ? "dehierarchize" : "hierarchize");
    o.dfg.reset();
  }
}

// --- C01: transforms are undone by their inverse; histories of transforms on dimension subsets
template <typename T>
void roundTrip(Gen& g, Ctx& c) {
  auto s = genGrid(g, optsFor(g));
  int steps = g.irange(1, 3);
  struct Step {
    std::vector<Basis> bases;
    LevelVector lmin;
    std::vector<bool> dims;
    bool inverse;
  };
  std::vector<Step> st;
  for (int k = 0; k < steps; ++k) {
    Step x;
    x.bases = genBases(g, s);
    x.lmin = genLmin(g, s);
    bool all = g.chance(50);
    for (int d = 0; d < s.dim; ++d) x.dims.push_back(all || g.boolean());
    x.inverse = g.chance(35);
    st.push_back(x);
  }
  int threads = g.irange(1, 4);
  auto seed = g.dataSeed();
  c.desc << s.describe() << " threads=" << threads << " data=" << seed;
  std::vector<bool> per(static_cast<size_t>(s.dim), false);
  for (auto& x : st) {
    c.desc << " {" << (x.inverse ? "dehier " : "hier ") << basesStr(x.bases) << " lmin="
           << ref::str(x.lmin) << " dims=" << ref::str(std::vector<int>(x.dims.begin(), x.dims.end()))
           << "}";
    for (size_t d = 0; d < per.size(); ++d)
      if (ref::isPeriodic(x.bases[d])) per[d] = true;
    labels(c, s, x.bases);
  }
  // a step on a two-sided dimension with a non-periodic basis does not keep the ends equal:
  // then periodic bases must not follow in that dimension
  for (size_t d = 0; d < per.size(); ++d)
    if (per[d] && s.bnd[d] == 2)
      for (auto& x : st)
        if (!ref::isPeriodic(x.bases[d]))
          x.bases[d] = x.bases[d] == ref::FW ? ref::FWP : x.bases[d] == ref::BIO ? ref::BIOP : ref::HATP;
  c.nontrivial = s.total > 3;
  auto data = ref::genData<T>(s, seed, per);
  MPI_Comm comm = makeCart(s.procs);
  if (comm != MPI_COMM_NULL) {
    omp_set_num_threads(threads);
    auto o = makeDfg<T>(s, comm);
    ad::scatter(s, data, *o.dfg);
    auto apply = [&](const Step& x, bool inv) {
      BasisSet bs(x.bases);
      if (inv)
        DistributedHierarchization::dehierarchize<T>(*o.dfg, x.dims, bs.ptr, x.lmin);
      else
        DistributedHierarchization::hierarchize<T>(*o.dfg, x.dims, bs.ptr, x.lmin);
    };
    double maxv = ref::absmax(data);
    for (auto& x : st) {
      apply(x, x.inverse);
      double m = 0;
      for (auto& v : o.buffer) m = std::max(m, static_cast<double>(std::abs(v)));
      MPI_Allreduce(MPI_IN_PLACE, &m, 1, MPI_DOUBLE, MPI_MAX, comm);
      maxv = std::max(maxv, m);
    }
    for (size_t k = st.size(); k-- > 0;) apply(st[k], !st[k].inverse);
    // full weighting amplifies when inverted: factor <= 3 per level and dimension
    double amp = 1;
    for (size_t d = 0; d < per.size(); ++d)
      for (auto& x : st)
        if (x.dims[d]) amp *= (x.bases[d] == ref::FW || x.bases[d] == ref::FWP) ? std::pow(3., std::min<double>(s.level[d], 8)) : 4.;
    double tol = 16. * ref::eps<T>() * growth(s) * maxv * std::min(amp, 1e4);
    compareLocal(c, s, data, *o.dfg, tol, "after undoing all transforms");
    c.check(o.buffer.back() == T(0), "wrote behind the local data");
    o.dfg.reset();
  }
}

// --- C03: meaning of the coefficients
// (a) summing hierarchical hats weighted by the coefficients reproduces the piecewise multilinear
//     interpolant of the nodal values at arbitrary points
void hatSynthesis(Gen& g, Ctx& c) {
  ref::GridOpts o;
  o.maxProcs = pbt::worldSize();
  o.maxPoints = 800;
  o.maxDim = 4;
  auto s = genGrid(g, o);
  std::vector<Basis> bases;
  for (int d = 0; d < s.dim; ++d)
    bases.push_back(s.bnd[static_cast<size_t>(d)] == 0 ? ref::HAT : g.boolean() ? ref::HATP : ref::HAT);
  LevelVector lmin = genLmin(g, s);
  auto seed = g.dataSeed();
  int npts = 6;
  std::vector<std::vector<double>> pts;
  for (int k = 0; k < npts; ++k) {
    std::vector<double> x;
    for (int d = 0; d < s.dim; ++d) x.push_back(static_cast<double>(g.range(0, 4096)) / 4096.);
    pts.push_back(x);
  }
  c.desc << s.describe() << " bases=" << basesStr(bases) << " lmin=" << ref::str(lmin)
         << " data=" << seed << " hat synthesis at x0=" << ref::strd(pts[0]);
  labels(c, s, bases);
  c.nontrivial = s.total > 3;
  std::vector<bool> per(static_cast<size_t>(s.dim), true);
  auto data = ref::genData<double>(s, seed, per);
  MPI_Comm comm = makeCart(s.procs);
  if (comm != MPI_COMM_NULL) {
    auto od = makeDfg<double>(s, comm);
    ad::scatter(s, data, *od.dfg);
    BasisSet bs(bases);
    DistributedHierarchization::hierarchize<double>(
        *od.dfg, std::vector<bool>(static_cast<size_t>(s.dim), true), bs.ptr, lmin);
    auto b = boxOf(s, *od.dfg, od.dfg->getRank());
    for (auto& x : pts) {
      double local = 0;
      std::vector<long> v;
      forBox(s, b, [&](long i, long gl) {
        s.vec(gl, v);
        double w = 1;
        for (int d = 0; d < s.dim && w != 0; ++d) {
          auto dd = static_cast<size_t>(d);
          int L = s.level[dd];
          int lev = std::max<int>(ref::levelOf(L, s.bnd[dd], v[dd]), lmin[dd]);
          lev = std::min(lev, L);
          double node = s.coord(d, v[dd]);
          double supp = 1. / static_cast<double>(1l << lev);
          double phi = std::max(0., 1. - std::abs(x[dd] - node) / supp);
          if (s.bnd[dd] == 1 && v[dd] == 0)
            phi += std::max(0., 1. - std::abs(x[dd] - 1.) / supp);
          w *= phi;
        }
        local += w * od.dfg->getData()[i];
      });
      double sum = 0;
      MPI_Allreduce(&local, &sum, 1, MPI_DOUBLE, MPI_SUM, comm);
      double ex = ref::interpolate(s, data, x);
      c.checkf(std::abs(sum - ex) <= 1e-11 * growth(s) * ref::absmax(data), [&](std::ostream& os) {
        os.precision(17);
        os << "hat synthesis at " << ref::strd(x) << " gives " << sum << ", interpolant is " << ex;
      });
    }
    od.dfg.reset();
  }
}

// (b) dropping detail coefficients of the mass-conserving bases does not change the integral;
// (c) detail coefficients of functions that are (multi-)linear vanish (hat, biorthogonal)
void massConservation(Gen& g, Ctx& c) {
  ref::GridOpts o;
  o.maxProcs = pbt::worldSize();
  o.allowNoBoundary = false;
  o.maxDim = 4;
  o.maxLevel = 8;
  auto s = genGrid(g, o);
  std::vector<Basis> bases;
  std::vector<bool> per;
  for (int d = 0; d < s.dim; ++d) {
    bool bio = g.boolean();
    bool p = s.bnd[static_cast<size_t>(d)] == 1 || g.boolean();
    bases.push_back(bio ? (p ? ref::BIOP : ref::BIO) : (p ? ref::FWP : ref::FW));
    per.push_back(p);
  }
  LevelVector lmin = genLmin(g, s);
  // which level to truncate at, per dimension
  LevelVector cut;
  for (int d = 0; d < s.dim; ++d) {
    auto dd = static_cast<size_t>(d);
    cut.push_back(static_cast<LevelType>(g.range(lmin[dd], s.level[dd])));
  }
  auto seed = g.dataSeed();
  bool anyInside = g.boolean();  // truncate if any dimension is above the cut
  c.desc << s.describe() << " bases=" << basesStr(bases) << " lmin=" << ref::str(lmin)
         << " dropDetailsAbove=" << ref::str(cut) << " data=" << seed;
  labels(c, s, bases);
  c.nontrivial = s.total > 3;
  (void)anyInside;
  auto data = ref::genData<double>(s, seed, per);
  auto weight = [&](const std::vector<long>& v) {
    double w = 1;
    for (int d = 0; d < s.dim; ++d) {
      auto dd = static_cast<size_t>(d);
      double h = 1. / static_cast<double>(1l << s.level[dd]);
      if (s.bnd[dd] == 2 && (v[dd] == 0 || v[dd] == s.n[dd] - 1)) h *= 0.5;
      w *= h;
    }
    return w;
  };
  double before = 0;
  std::vector<long> v;
  for (long i = 0; i < s.total; ++i) {
    s.vec(i, v);
    before += weight(v) * data[static_cast<size_t>(i)];
  }
  MPI_Comm comm = makeCart(s.procs);
  if (comm != MPI_COMM_NULL) {
    auto od = makeDfg<double>(s, comm);
    ad::scatter(s, data, *od.dfg);
    BasisSet bs(bases);
    std::vector<bool> dims(static_cast<size_t>(s.dim), true);
    DistributedHierarchization::hierarchize<double>(*od.dfg, dims, bs.ptr, lmin);
    auto b = boxOf(s, *od.dfg, od.dfg->getRank());
    forBox(s, b, [&](long i, long gl) {
      s.vec(gl, v);
      bool drop = false;
      for (int d = 0; d < s.dim; ++d) {
        auto dd = static_cast<size_t>(d);
        drop |= ref::levelOf(s.level[dd], s.bnd[dd], v[dd]) > cut[dd];
      }
      if (drop) od.dfg->getData()[i] = 0;
    });
    DistributedHierarchization::dehierarchize<double>(*od.dfg, dims, bs.ptr, lmin);
    double local = 0, after = 0;
    forBox(s, b, [&](long i, long gl) {
      s.vec(gl, v);
      local += weight(v) * od.dfg->getData()[i];
    });
    MPI_Allreduce(&local, &after, 1, MPI_DOUBLE, MPI_SUM, comm);
    c.checkf(std::abs(after - before) <= 1e-11 * growth(s) * ref::absmax(data), [&](std::ostream& os) {
      os.precision(17);
      os << "integral changed from " << before << " to " << after
         << " although only detail coefficients were dropped";
    });
    od.dfg.reset();
  }
}

// (c) truncation keeps coarse functions: a function that is multilinear on a coarser level has
//     zero hat / biorthogonal coefficients above that level
void vanishingDetails(Gen& g, Ctx& c) {
  ref::GridOpts o;
  o.maxProcs = pbt::worldSize();
  o.allowNoBoundary = false;
  o.maxDim = 4;
  o.maxLevel = 8;
  auto s = genGrid(g, o);
  std::vector<Basis> bases;
  LevelVector coarse;
  for (int d = 0; d < s.dim; ++d) {
    auto dd = static_cast<size_t>(d);
    int k = g.irange(0, 3);
    Basis b = k == 0 ? ref::HAT : k == 1 ? ref::HATP : k == 2 ? ref::BIO : ref::BIOP;
    if (s.bnd[dd] == 1 && b == ref::BIO) b = ref::BIOP;
    bases.push_back(b);
    coarse.push_back(static_cast<LevelType>(g.range(0, s.level[dd])));
  }
  auto seed = g.dataSeed();
  c.desc << s.describe() << " bases=" << basesStr(bases) << " coarse=" << ref::str(coarse)
         << " data=" << seed << " vanishing details";
  labels(c, s, bases);
  c.nontrivial = s.total > 3;
  GridSpec cs = s;
  cs.level = coarse;
  cs.total = 1;
  for (int d = 0; d < s.dim; ++d) {
    auto dd = static_cast<size_t>(d);
    cs.n[dd] = ref::numPoints(coarse[dd], s.bnd[dd]);
    cs.total *= cs.n[dd];
  }
  std::vector<bool> per(static_cast<size_t>(s.dim), true);
  auto cdata = ref::genData<double>(cs, seed, per);
  const double scale = ref::absmax(cdata);
  std::vector<double> data(static_cast<size_t>(s.total));
  std::vector<long> v;
  for (long i = 0; i < s.total; ++i) {
    s.vec(i, v);
    std::vector<double> x;
    for (int d = 0; d < s.dim; ++d) x.push_back(s.coord(d, v[static_cast<size_t>(d)]));
    data[static_cast<size_t>(i)] = ref::interpolate(cs, cdata, x);
  }
  MPI_Comm comm = makeCart(s.procs);
  if (comm != MPI_COMM_NULL) {
    auto od = makeDfg<double>(s, comm);
    ad::scatter(s, data, *od.dfg);
    BasisSet bs(bases);
    std::vector<bool> dims(static_cast<size_t>(s.dim), true);
    DistributedHierarchization::hierarchize<double>(*od.dfg, dims, bs.ptr,
                                                    LevelVector(static_cast<size_t>(s.dim), 0));
    auto b = boxOf(s, *od.dfg, od.dfg->getRank());
    forBox(s, b, [&](long i, long gl) {
      s.vec(gl, v);
      for (int d = 0; d < s.dim; ++d) {
        auto dd = static_cast<size_t>(d);
        if (ref::levelOf(s.level[dd], s.bnd[dd], v[dd]) > coarse[dd]) {
          double x = od.dfg->getData()[i];
          c.checkf(std::abs(x) <= 1e-11 * growth(s) * scale, [&](std::ostream& os) {
            os << "detail coefficient at " << ref::str(v) << " is " << x
               << " for a function that is multilinear on the coarse grid";
          });
          break;
        }
      }
    });
    od.dfg.reset();
  }
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Driver d;
  std::string prop = argc > 1 ? argv[1] : "";
  if (prop == "C01") {
    d.add("roundtrip_double", 3, roundTrip<double>);
    d.add("roundtrip_float", 1, roundTrip<float>);
    d.add("roundtrip_complex", 1, roundTrip<std::complex<double>>);
  } else if (prop == "C02") {
    d.add("reference_double", 4, equalsReference<double>);
    d.add("reference_float", 1, equalsReference<float>);
    d.add("reference_complex", 1, equalsReference<std::complex<double>>);
    d.add("uniform_double", 3, equalsReferenceUniform<double>);
  } else if (prop == "C03") {
    d.add("hat_synthesis", 1, hatSynthesis);
    d.add("mass_conservation", 1, massConservation);
    d.add("vanishing_details", 1, vanishingDetails);
  } else {
    return 9;
  }
  return d.main(argc - 1, argv + 1);
}
