// C11: combining the solutions of all component grids, over groups, variants and rounds
#include "common/combi.hpp"

using namespace ad;
using pbt::Ctx;
using pbt::Gen;

namespace {
void labels(Ctx& c, const CombiSpec& s) {
  static const char* vn[] = {"sparseGridReduce", "subspaceReduce", "outgroup", "chunkedOutgroup"};
  c.label(std::string("variant_") + vn[static_cast<int>(s.variant)]);
  c.label(std::string("groups_") + std::to_string(s.ngroup));
  c.label("dim" + std::to_string(s.lmin.size()));
  if (s.f.nprocs > 1) c.label("decomposed");
  if (s.numGrids > 1) c.label("two_fields");
  if (!s.reduce.empty()) c.label("reduced_lmax");
  c.label(s.validScheme ? "scheme" : "arbitrary_grids");
  if (!s.setDecomposition) c.label("default_decomposition");
}
bool anyFailed(Ctx& c) {
  int f = c.failed ? 1 : 0;
  MPI_Allreduce(MPI_IN_PLACE, &f, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  return f;
}

template <typename T>
void combination(Gen& g, Ctx& c, bool large) {
  CombiOpts o;
  o.worldSize = pbt::worldSize();
  o.large = large;
  auto s = genCombi(g, o);
  const bool isFloat = ref::eps<T>() > 1e-10;
  int rounds = large ? 1 : g.irange(1, 3);
  std::vector<Action> acts;
  std::vector<int> how;
  std::vector<bool> minmax;
  bool chunked = s.variant == chunkedOutgroupSparseGridReduce;
  for (int r = 0; r < rounds; ++r) {
    Action a;
    a.round = r;
    a.kind = r == 0 ? 1 : g.irange(0, 2);
    if (isFloat || s.amplification() > 60) a.kind = 1;
    acts.push_back(a);
    how.push_back(chunked ? 0 : g.irange(0, 1));
    minmax.push_back(chunked && g.boolean());
  }
  int npts = s.numGrids == 1 && !large ? g.irange(0, 6) : 0;
  std::vector<std::vector<real>> xs;
  for (int k = 0; k < npts; ++k) {
    std::vector<real> x;
    for (size_t d = 0; d < s.lmin.size(); ++d) {
      int kind = g.irange(0, 3);
      x.push_back(kind == 0 ? 0. : kind == 1 ? static_cast<double>(g.irange(0, 16)) / 16. : static_cast<double>(g.draw(1u << 30)) / static_cast<double>(1u << 30));
    }
    xs.push_back(x);
  }
  if (npts && g.chance(4)) xs = manyPoints(xs, s.lmin.size(), g.irange(1, 1200), s.seed);
  bool plot = !chunked && (s.variant == sparseGridReduce || s.ngroup == 1) && g.chance(30);
  LV leval;
  for (size_t d = 0; d < s.lmin.size(); ++d) leval.push_back(g.irange(s.lmin[d], s.lmax[d]));
  if (!evaluable(s, leval)) leval = s.lmax;
  bool writeMM = g.chance(25) && !large;
  c.desc << s.describe() << " rounds=" << rounds;
  labels(c, s);
  if (large) c.label("large");
  c.nontrivial = s.levels.size() > 1 || s.f.nprocs > 1;

  bool in = layout(s.ngroup, s.f.nprocs);
  CombiModel<T> model(s);
  std::unique_ptr<ProcessGroupWorker<T>> worker;
  omp_set_num_threads(s.threads);
  std::set<LV> set;
  int myGroup = pbt::worldRank() / s.f.nprocs, myLocal = pbt::worldRank() % s.f.nprocs;
  if (in) {
    worker.reset(new ProcessGroupWorker<T>());
    worker->setCombiParameters(makeParameters(s));
    c.check(theMPISystem()->getLocalRank() == myLocal, "local rank");
    for (auto k : s.order)
      if (s.group[k] == myGroup) {
        std::unique_ptr<Task<T>> t(new CaseTask<T>(&s, k, s.f.bnd, s.coeffs[k]));
        t->setID(k);
        worker->initializeTask(std::move(t));
      }
    worker->initCombinedDSGVector();
    worker->zeroDsgsData();
    set = subspacesOf(*worker);
    if (s.validScheme && s.classical && s.reduce.empty())
      for (auto& l : subspacesNeeded(s))
        c.checkf(set.count(l) == 1, [&](std::ostream& os) { os << "subspace " << ref::str(l) << " of the scheme is not in the sparse grid"; });
    for (auto& l : set)
      for (size_t d = 0; d < l.size(); ++d) {
        int top = std::max(s.lmin[d], s.lmax[d] - (s.reduce.empty() ? 0 : s.reduce[d]));
        c.checkf(l[d] <= top && l[d] >= 1, [&](std::ostream& os) { os << "sparse grid contains subspace " << ref::str(l) << " beyond level " << top; });
      }
  }
  // every rank needs the set for the model: rank 0 is always part of the layout
  {
    std::vector<int> flat;
    for (auto& l : set) flat.insert(flat.end(), l.begin(), l.end());
    int n = static_cast<int>(flat.size());
    MPI_Bcast(&n, 1, MPI_INT, 0, MPI_COMM_WORLD);
    flat.resize(static_cast<size_t>(n));
    MPI_Bcast(flat.data(), n, MPI_INT, 0, MPI_COMM_WORLD);
    std::set<LV> all;
    for (size_t i = 0; i < flat.size(); i += s.lmin.size()) all.insert(LV(flat.begin() + static_cast<long>(i), flat.begin() + static_cast<long>(i + s.lmin.size())));
    if (in) c.check(set == all, "ranks disagree on the subspaces of the sparse grid");
    set = all;
  }
  std::map<LV, std::pair<double, double>> mm;
  bool mmValid = true;
  double mmTol = 0;
  for (int r = 0; r < rounds && !anyFailed(c); ++r) {
    auto rr = static_cast<size_t>(r);
    CaseTask<T>::action() = acts[rr];
    model.act(acts[rr]);
    model.combine(set);
    double tol = model.tol(acts[rr].kind == 1 ? 0 : r);
    if (in) {
      worker->runAllTasks();
      if (how[rr] == 0)
        worker->combineAtOnce(minmax[rr]);
      else {
        worker->combineSystemWide();
        worker->updateFullFromCombinedSparseGrids();
      }
      c.check(worker->getTasks().size() == static_cast<size_t>(std::count(s.group.begin(), s.group.end(), myGroup)), "number of tasks changed");
      for (auto& t : worker->getTasks()) {
        auto k = static_cast<CaseTask<T>*>(t.get())->grid();
        for (int f = 0; f < s.numGrids; ++f)
          compareLocal(c, s.specs[k], model.nodal[k][static_cast<size_t>(f)], static_cast<CaseTask<T>*>(t.get())->getDistributedFullGrid(static_cast<size_t>(f)), tol,
                       "after combination " + std::to_string(r) + ", field " + std::to_string(f) + " of grid " + ref::str(s.levels[k]));
      }
      if (npts > 0) {
        auto vals = worker->interpolateValues(xs);
        double sc = 0;
        for (auto x : s.coeffs) sc += std::abs(x);
        for (size_t i = 0; i < xs.size(); ++i) {
          T ex(0);
          for (size_t k = 0; k < s.levels.size(); ++k)
            ex += static_cast<T>(s.coeffs[k]) * ref::interpolate<T>(s.specs[k], model.nodal[k][0], xs[i]);
          double t2 = tol * (1 + sc) * 4 + 64 * ref::eps<T>() * (1 << s.lmin.size()) * 64 * (1 + sc) * model.maxAbs;
          c.checkf(std::abs(vals[i] - ex) <= t2, [&](std::ostream& os) {
            os.precision(17);
            os << "combined solution at " << ref::strd(xs[i]) << " is " << vals[i] << " expected " << ex << " (tolerance " << t2 << ")";
          });
        }
      }
      if (myGroup == 0 || true) {
        auto norms = worker->getLpNorms(0);
        size_t i = 0;
        for (auto& t : worker->getTasks()) {
          auto k = static_cast<CaseTask<T>*>(t.get())->grid();
          double ex = ref::absmax(model.nodal[k][0]);
          c.checkf(i < norms.size() && std::abs(norms[i] - ex) <= tol + 1e-6 * ex * (isFloat ? 1 : 0), [&](std::ostream& os) { os << "maximum norm of grid " << ref::str(s.levels[k]) << " is " << norms[i] << " expected " << ex; });
          ++i;
        }
      }
    }
    // extreme coefficients: accumulated over rounds in the chunked variant, else of the last one
    if (!chunked) mm.clear();
    if (!chunked || minmax[rr])
      for (auto& kv : model.minMax(0)) {
        auto it = mm.find(kv.first);
        if (it == mm.end())
          mm[kv.first] = kv.second;
        else
          it->second = {std::min(it->second.first, kv.second.first), std::max(it->second.second, kv.second.second)};
      }
    mmTol = std::max(mmTol, tol);
  }
  if (!anyFailed(c) && plot) {
    std::string base = "plot" + std::to_string(c.caseNo);
    if (in && myGroup == s.ngroup - 1) {
      worker->parallelEvalUniform(base + ".raw", toLib(leval));
      MPI_Barrier(theMPISystem()->getLocalComm());
      if (myLocal == 0) {
        auto sp = s.f.grid(leval);
        for (int f = 0; f < s.numGrids; ++f) {
          auto ex = model.evaluateOn(sp, f);
          std::string fn = base + "_" + std::to_string(f) + ".raw";
          std::ifstream inf(fn, std::ios::binary);
          std::string bytes((std::istreambuf_iterator<char>(inf)), std::istreambuf_iterator<char>());
          c.checkf(bytes.size() == ex.size() * sizeof(T), [&](std::ostream& os) { os << fn << " has " << bytes.size() << " bytes"; });
          double tol = model.tol(rounds - 1) * std::max(1., ref::absmax(ex) / model.maxAbs);
          for (size_t i = 0; i < ex.size() && bytes.size() == ex.size() * sizeof(T); ++i) {
            T x;
            std::memcpy(&x, bytes.data() + i * sizeof(T), sizeof(T));
            ++c.checks;
            if (!(std::abs(x - ex[i]) <= tol)) {
              std::ostringstream os;
              os.precision(17);
              os << "field " << f << " evaluated on level " << ref::str(leval) << ": value " << i << " is " << x << " expected " << ex[i];
              c.fail(os.str());
              break;
            }
          }
          unlink(fn.c_str());
          unlink((fn + "_header").c_str());
        }
        c.label("evaluated_on_level");
      }
    }
  }
  bool anyMM = !chunked || std::find(minmax.begin(), minmax.end(), true) != minmax.end();
  if (!anyFailed(c) && writeMM && anyMM && mmValid) {
    std::string base = "minmax" + std::to_string(c.caseNo);
    if (in) {
      worker->writeSparseGridMinMaxCoefficients(base);
      MPI_Barrier(theMPISystem()->getWorldComm());
      if (pbt::worldRank() == 0) {
        std::string fn = base + "_0.txt";
        std::ifstream f(fn);
        std::string line;
        size_t n = 0;
        while (std::getline(f, line)) {
          auto colon = line.find(':');
          if (colon == std::string::npos) continue;
          LV l;
          std::string left = line.substr(0, colon);
          for (auto& ch : left)
            if (!isdigit(ch)) ch = ' ';
          std::istringstream ls(left);
          int x;
          while (ls >> x) l.push_back(x);
          double lo = 0, hi = 0;
          char comma;
          std::istringstream rs(line.substr(colon + 1));
          rs >> lo >> comma >> hi;
          ++n;
          auto it = mm.find(l);
          c.checkf(it != mm.end(), [&](std::ostream& os) { os << "extreme coefficients reported for subspace " << line; });
          if (it != mm.end()) {
            double t = mmTol + 2e-5 * std::max(std::abs(it->second.first), std::abs(it->second.second));
            c.checkf(std::abs(lo - it->second.first) <= t && std::abs(hi - it->second.second) <= t, [&](std::ostream& os) {
              os << "extreme coefficients " << line << ", expected " << it->second.first << ", " << it->second.second;
            });
          }
        }
        c.checkf(n == mm.size(), [&](std::ostream& os) { os << "extreme coefficients of " << n << " subspaces written, expected " << mm.size(); });
        c.label("extreme_coefficients");
        unlink(fn.c_str());
        for (int f2 = 1; f2 < s.numGrids; ++f2) unlink((base + "_" + std::to_string(f2) + ".txt").c_str());
      }
    }
  }
  if (in) {
    worker->exit();
    worker.reset();
  }
  omp_set_num_threads(1);
}
template <typename T>
void small(Gen& g, Ctx& c) { combination<T>(g, c, false); }
template <typename T>
void large(Gen& g, Ctx& c) { combination<T>(g, c, true); }
}  // namespace

int main(int argc, char** argv) {
  pbt::Driver d;
  std::string prop = argc > 1 ? argv[1] : "";
  Stats::initialize();
  if (prop == "C11") {
    d.add("combine_double", 100, small<double>);
    d.add("combine_complexfloat", 35, small<std::complex<float>>);
    d.add("large_double", 2, large<double>);
    d.add("large_complexfloat", 1, large<std::complex<float>>);
  } else {
    return 9;
  }
  return d.main(argc - 1, argv + 1);
}
