// C20: a run driven by a process manager: distribution of tasks, combination, queries, rescheduling
#include <glpk.h>

#include "common/managed.hpp"
#include "common/recombination.hpp"

namespace {
/// moves some tasks to other groups
struct RandomMoves : TaskRescheduler {
  int ngroup;
  uint64_t seed;
  size_t calls = 0, moved = 0;
  RandomMoves(int n, uint64_t s) : ngroup(n), seed(s) {}
  std::vector<std::pair<LevelVector, int>> eval(const std::map<LevelVector, int>& where, const std::map<LevelVector, unsigned long>&, LoadModel*) override {
    std::vector<int> count(static_cast<size_t>(ngroup), 0);
    for (auto& kv : where) ++count[static_cast<size_t>(kv.second)];
    std::vector<std::pair<LevelVector, int>> r;
    auto rnd = ref::hash2(seed, ++calls);
    for (auto& kv : where) {
      rnd = ref::hash2(rnd, 7);
      auto from = static_cast<size_t>(kv.second), to = static_cast<size_t>(rnd / 16 % static_cast<uint64_t>(ngroup));
      if (rnd % 16 < 7 && from != to && count[from] > 1) {
        --count[from];
        ++count[to];
        r.emplace_back(kv.first, static_cast<int>(to));
      }
    }
    if (rnd % 2) std::reverse(r.begin(), r.end());
    moved += r.size();
    return r;
  }
};

bool managedLayout(int ngroup, int nprocs) {
  static int lastG = -1, lastP = -1;
  MPI_Comm c = firstRanks(ngroup * nprocs + 1);
  forgetCommunicator();
  if (ngroup != lastG || nprocs != lastP) {
    if (c != MPI_COMM_NULL) theMPISystem()->initWorldReusable(c, static_cast<size_t>(ngroup), static_cast<size_t>(nprocs), true, false);
    lastG = ngroup;
    lastP = nprocs;
  }
  return c != MPI_COMM_NULL;
}

/// sum of the magnitudes, weighted by the integrals of the nodal basis functions
template <typename T>
double sumNorm(const GridSpec& s, const std::vector<T>& data) {
  double sum = 0, vol = 1;
  std::vector<long> v;
  for (auto l : s.level) vol /= static_cast<double>(1l << l);
  for (long i = 0; i < s.total; ++i) {
    s.vec(i, v);
    double a = static_cast<double>(std::abs(data[static_cast<size_t>(i)]));
    for (size_t e = 0; e < v.size(); ++e)
      if (s.bnd[e] == 2 && (v[e] == 0 || v[e] == s.n[e] - 1)) a *= 0.5;
    sum += a * vol;
  }
  return sum;
}

/// whatever is left over must not reach the next case
void drain() {
  while (true) {
    int flag = 0;
    MPI_Status st;
    MPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, theMPISystem()->getGlobalComm(), &flag, &st);
    if (!flag) break;
    int n = 0;
    MPI_Get_count(&st, MPI_BYTE, &n);
    std::vector<char> buf(static_cast<size_t>(n) + 1);
    MPI_Recv(buf.data(), n, MPI_BYTE, st.MPI_SOURCE, st.MPI_TAG, theMPISystem()->getGlobalComm(), MPI_STATUS_IGNORE);
  }
}

enum OpKind { INTERPOLATE, MAXNORMS, MAXNORM, EVAL, MINMAX, DIAGNOSE, MOVE, WRITE, SUMNORMS, SUMNORM, SAVE, RENEW, NOPS };
struct Op {
  OpKind kind;
  std::vector<std::vector<real>> xs;
  LV leval;
  size_t group = 0, grid = 0;
  int mode = 0;
};

template <typename T>
void managed(Gen& g, Ctx& c) {
  CombiOpts o;
  o.worldSize = pbt::worldSize();
  o.minRanksReserved = 1;
  o.maxPoints = 3000;
  bool forMoves = g.chance(45);
  o.classicalOnly = forMoves;
  if (forMoves) o.allVariants = false;
  auto s = genCombi(g, o);
  if (forMoves) s.reduce.clear();
  // one task per level
  {
    std::set<LV> seen;
    std::vector<size_t> keep;
    for (size_t k = 0; k < s.levels.size(); ++k)
      if (seen.insert(s.levels[k]).second) keep.push_back(k);
    auto t = s;
    s.levels.clear(), s.coeffs.clear(), s.specs.clear(), s.order.clear();
    for (auto k : keep) {
      s.order.push_back(s.levels.size());
      s.levels.push_back(t.levels[k]), s.coeffs.push_back(t.coeffs[k]), s.specs.push_back(t.specs[k]);
    }
    s.ngroup = std::min(s.ngroup, static_cast<int>(s.levels.size()));
    s.group.assign(s.levels.size(), -1);
    g.shuffle(s.order);
  }
  const bool isFloat = ref::eps<T>() > 1e-10;
  const bool chunked = s.variant == chunkedOutgroupSparseGridReduce;
  const bool whole = s.variant == sparseGridReduce || s.ngroup == 1;  // every group has all of the solution
  const bool canMove = s.variant == sparseGridReduce && s.classical && s.reduce.empty() && s.ngroup > 1 && static_cast<int>(s.levels.size()) > s.ngroup;
  std::vector<size_t> ids(s.levels.size());
  {
    size_t base = static_cast<size_t>(g.irange(0, 3)) * 1000;
    bool odd = g.boolean();
    for (size_t k = 0; k < ids.size(); ++k) ids[k] = base + (odd ? 3 * (ids.size() - k) + 1 : k);
  }
  thePauses = g.irange(0, 2);
  int rounds = g.irange(1, 3);
  std::vector<Action> acts;
  std::vector<std::vector<Op>> ops(static_cast<size_t>(rounds));
  bool moves = false, queries = false;
  // combinations that pass the data through the manager, without a remote system
  const bool throughManager = s.variant == sparseGridReduce && s.numGrids == 1 && g.chance(40);
  const size_t managedGroup = static_cast<size_t>(g.irange(0, s.ngroup - 1));
  std::vector<bool> pretend;
  bool renewed = false;  // some tasks start over
  for (int r = 0; r < rounds; ++r) {
    Action a;
    a.round = r;
    a.kind = r == 0 ? 1 : g.irange(0, 2);
    if (isFloat || s.amplification() > 60 || renewed) a.kind = 1;
    renewed = false;
    acts.push_back(a);
    pretend.push_back(throughManager && g.chance(60));
    int n = g.irange(0, 4);
    for (int i = 0; i < n; ++i) {
      Op op;
      op.kind = static_cast<OpKind>(g.irange(0, NOPS - 1));
      op.group = static_cast<size_t>(g.irange(0, s.ngroup - 1));
      op.grid = static_cast<size_t>(g.irange(0, static_cast<int>(s.levels.size()) - 1));
      if (canMove && g.chance(35)) op.kind = MOVE;
      if (op.kind == SAVE && (!whole || chunked || !evaluable(s, s.lmax))) op.kind = SUMNORM;
      if (canMove && g.chance(8)) op.kind = RENEW;
      if (op.kind == RENEW && !canMove) op.kind = SUMNORMS;
      if (op.kind == RENEW) op.mode = g.irange(0, 2);
      if (op.kind == WRITE && (s.ngroup > 1 || chunked)) op.kind = INTERPOLATE;
      if (op.kind == INTERPOLATE && s.numGrids > 1) op.kind = MAXNORMS;
      if (op.kind == EVAL && (!whole || chunked)) op.kind = MAXNORM;
      if (op.kind == MINMAX && (!whole || chunked)) op.kind = DIAGNOSE;
      if (op.kind == MOVE && !canMove) op.kind = MAXNORMS;
      if (op.kind == MOVE) moves = true;
      if (op.kind == INTERPOLATE) {
        int npts = g.irange(1, 5);
        for (int k = 0; k < npts; ++k) {
          std::vector<real> x;
          for (size_t d = 0; d < s.lmin.size(); ++d) {
            int kind = g.irange(0, 3);
            x.push_back(kind == 0 ? 0. : kind == 1 ? static_cast<double>(g.irange(0, 16)) / 16. : static_cast<double>(g.draw(1u << 30)) / static_cast<double>(1u << 30));
          }
          op.xs.push_back(x);
        }
        if (g.chance(4)) op.xs = manyPoints(op.xs, s.lmin.size(), g.irange(1, 1200), s.seed);
      }
      if (op.kind == EVAL)
        for (size_t d = 0; d < s.lmin.size(); ++d) op.leval.push_back(g.irange(s.lmin[d], s.lmax[d]));
      if (op.kind == EVAL && !evaluable(s, op.leval)) op.leval = s.lmax;
      queries = true;
      ops[static_cast<size_t>(r)].push_back(op);
      if (op.kind == RENEW) {
        renewed = true;
        break;
      }
    }
  }
  static const char* on[] = {"interpolate", "max_norms", "max_norm", "evaluate", "extremes", "diagnose", "move", "write", "sum_norms", "sum_norm", "save_and_load", "renew"};
  c.desc << s.describe() << " pauses=" << thePauses << " rounds:";
  for (int r = 0; r < rounds; ++r) {
    c.desc << " run" << acts[static_cast<size_t>(r)].kind << (pretend[static_cast<size_t>(r)] ? " combineThroughManager" : " combine");
    for (auto& op : ops[static_cast<size_t>(r)]) {
      c.desc << " " << on[op.kind];
      c.label(on[op.kind]);
    }
  }
  c.label("groups_" + std::to_string(s.ngroup));
  c.label("rounds_" + std::to_string(rounds));
  if (moves) c.label("with_moves");
  if (throughManager) c.label("through_manager");
  if (s.f.nprocs > 1) c.label("decomposed");
  c.nontrivial = (s.levels.size() > 1 && s.ngroup > 1) || (s.f.nprocs > 1 && queries);

  theSpec = &s;
  theRuns.clear();
  theDiagnostics.clear();
  const int me = pbt::worldRank(), nworkers = s.ngroup * s.f.nprocs;
  const bool in = managedLayout(s.ngroup, s.f.nprocs), isManager = me == nworkers, isWorker = me < nworkers;
  omp_set_num_threads(1);
  CombiModel<T> model(s);
  std::set<LV> set;
  std::vector<std::vector<std::vector<std::vector<T>>>> afterRun, afterCombine;
  std::vector<double> tols;
  std::vector<CombiModel<T>> states;
  // to be called by all ranks once the sparse grid exists
  auto prepare = [&](const std::set<LV>& mine) {
    std::vector<int> flat;
    for (auto& l : mine) flat.insert(flat.end(), l.begin(), l.end());
    int n = static_cast<int>(flat.size());
    MPI_Bcast(&n, 1, MPI_INT, 0, MPI_COMM_WORLD);
    flat.resize(static_cast<size_t>(n));
    MPI_Bcast(flat.data(), n, MPI_INT, 0, MPI_COMM_WORLD);
    for (size_t i = 0; i < flat.size(); i += s.lmin.size()) set.insert(LV(flat.begin() + static_cast<long>(i), flat.begin() + static_cast<long>(i + s.lmin.size())));
    if (isWorker) c.check(mine == set, "ranks disagree on the subspaces of the sparse grid");
    for (int r = 0; r < rounds; ++r) {
      model.act(acts[static_cast<size_t>(r)]);
      afterRun.push_back(model.nodal);
      model.combine(set);
      afterCombine.push_back(model.nodal);
      tols.push_back(model.tol(acts[static_cast<size_t>(r)].kind == 1 ? 0 : r));
      if (isManager) states.push_back(model);
    }
  };
  std::vector<size_t> myGrids;
  std::vector<std::vector<size_t>> managerGrids(static_cast<size_t>(s.ngroup));
  std::map<size_t, int> diagnosed, recomputed;
  int saved = -1;

  if (isWorker) {
    ProcessGroupWorker<T> worker;
    int round = -1;
    size_t firsts = 0;
    Action a = acts[0];
    ManagedTask<T>::action() = a;
    auto check = [&](Task<T>* t, const std::vector<std::vector<std::vector<T>>>& st, double tol, const std::string& when) {
      auto* mt = static_cast<ManagedTask<T>*>(t);
      auto k = mt->grid();
      for (int f = 0; f < s.numGrids; ++f)
        compareLocal(c, s.specs[k], st[k][static_cast<size_t>(f)], mt->getDistributedFullGrid(static_cast<size_t>(f)), tol,
                     when + ", field " + std::to_string(f) + " of grid " + ref::str(s.levels[k]));
      c.check(t->getID() == ids[k], "identifier of a task changed");
      c.check(t->getCoefficient() == s.coeffs[k], "coefficient of a task changed");
    };
    while (true) {
      SignalType sig = worker.wait();
      if (sig == EXIT) break;
      if (sig == RUN_FIRST) {
        ++firsts;
        c.check(worker.getTasks().size() == firsts, "a task given to a group is not there");
        c.check(worker.getCombiParameters().getLevel(ids[static_cast<ManagedTask<T>*>(worker.getTasks().back().get())->grid()]) ==
                    worker.getTasks().back()->getLevelVector(), "level of a task");
      } else if (sig == INIT_DSGUS) {
        prepare(subspacesOf(worker));
        for (auto& t : worker.getTasks()) check(t.get(), afterRun[0], 0., "after the first run");
        round = 0;
      } else if (sig == RUN_NEXT) {
        for (auto& t : worker.getTasks()) check(t.get(), afterRun[static_cast<size_t>(round)], tols[static_cast<size_t>(round)], "after run " + std::to_string(round));
      } else if (sig == COMBINE || sig == COMBINE_THIRD_LEVEL || sig == WAIT_FOR_TL_COMBI_RESULT) {
        for (auto& t : worker.getTasks()) check(t.get(), afterCombine[static_cast<size_t>(round)], tols[static_cast<size_t>(round)], "after combination " + std::to_string(round));
        ++round;
        if (round < rounds) ManagedTask<T>::action() = acts[static_cast<size_t>(round)];
      } else if (sig == RESET_TASKS) {
        c.check(worker.getTasks().empty(), "tasks left after a reset");
      } else if (sig == ADD_TASK) {
        std::vector<std::vector<std::vector<T>>> z;
        for (size_t k = 0; k < s.levels.size(); ++k) z.emplace_back(static_cast<size_t>(s.numGrids), std::vector<T>(static_cast<size_t>(s.specs[k].total), T(0)));
        check(worker.getTasks().back().get(), z, 0., "added after a loss");
      } else if (sig == RECOMPUTE) {
        auto* mt = static_cast<ManagedTask<T>*>(worker.getTasks().back().get());
        auto k = mt->grid();
        auto ex = afterCombine[static_cast<size_t>(round - 1)];
        const auto a2 = ManagedTask<T>::action();
        std::vector<long> v;
        for (int f = 0; f < s.numGrids && a2.kind; ++f)
          for (long i = 0; i < s.specs[k].total; ++i) {
            s.specs[k].vec(i, v);
            auto x = valueAt<T>(s, k, f, a2, v);
            auto& y = ex[k][static_cast<size_t>(f)][static_cast<size_t>(i)];
            y = a2.kind == 1 ? x : y + x;
          }
        check(mt, ex, tols[static_cast<size_t>(round - 1)], "recomputed after combination " + std::to_string(round - 1));
      } else if (sig == RESCHEDULE_ADD_TASK) {
        check(worker.getTasks().back().get(), afterCombine[static_cast<size_t>(round - 1)], tols[static_cast<size_t>(round - 1)], "moved to another group after combination " + std::to_string(round - 1));
      }
      myGrids.clear();
      for (auto& t : worker.getTasks()) myGrids.push_back(static_cast<ManagedTask<T>*>(t.get())->grid());
    }
  } else if (isManager) {
    std::unique_ptr<LoadModel> lm(new LinearLoadModel());
    ProcessGroupManagerContainer<T> pgroups;
    for (int i = 0; i < s.ngroup; ++i) pgroups.emplace_back(std::make_shared<ProcessGroupManager<T>>(i));
    TaskContainer<T> tasks;
    std::vector<LevelVector> levels;
    std::vector<real> coeffs;
    std::vector<size_t> tids;
    for (auto k : s.order) {
      auto* t = new ManagedTask<T>(k, lm.get());
      t->setID(ids[k]);
      tasks.push_back(t);
      levels.push_back(toLib(s.levels[k]));
      coeffs.push_back(s.coeffs[k]);
      tids.push_back(ids[k]);
    }
    CombiParameters params(static_cast<DimType>(s.lmin.size()), toLib(s.lmin), toLib(s.lmax), s.f.bnd, levels, coeffs, tids,
                           static_cast<size_t>(rounds), static_cast<IndexType>(s.numGrids), s.variant, s.f.procs, LevelVector(0), toLib(s.reduce),
                           s.chunkMiB, s.forward, "", 0, managedGroup);
    std::vector<BasisFunctionBasis*> b;
    for (auto x : s.bases) b.push_back(makeBasis(x).release());
    params.setHierarchicalBases(b);
    if (s.setDecomposition) params.setDecomposition(s.f.refDec);
    auto* mover = new RandomMoves(s.ngroup, s.seed);
    auto gridOf = [&](size_t id) { return static_cast<size_t>(std::find(ids.begin(), ids.end(), id) - ids.begin()); };
    {
      ProcessManager<T> manager(pgroups, tasks, params, std::move(lm), std::unique_ptr<TaskRescheduler>(mover));
      for (int r = 0; r < rounds; ++r) {
        auto rr = static_cast<size_t>(r);
        if (r == 0) {
          c.check(manager.runfirst(), "the first run reports a failed group");
          prepare({});
          size_t n = 0;
          for (auto& p : pgroups) {
            c.check(!p->getTaskContainer().empty(), "a group got no task");
            n += p->getTaskContainer().size();
          }
          c.check(n == s.levels.size(), "tasks of the groups do not add up");
        } else
          c.check(manager.runnext(), "a later run reports a failed group");
        if (r == 0 && throughManager) manager.pretendUnifySubspaceSizesThirdLevel();
        if (pretend[rr])
          manager.pretendCombineThirdLevelForWorkers();
        else
          manager.combine();
        const auto& st = states[rr];
        const auto& nodal = afterCombine[rr];
        double tol = tols[rr], sc = 0;
        for (auto x : s.coeffs) sc += std::abs(x);
        size_t nop = 0;
        auto evaluate = [&](const LV& leval, size_t group, const CombiModel<T>& of, double t, const std::string& what) {
        std::string base = "managed" + std::to_string(c.caseNo) + "_" + std::to_string(r) + "_" + std::to_string(nop);
        std::string name = base + ".raw";
        for (int f = 0; f < s.numGrids; ++f) unlink((base + "_" + std::to_string(f) + ".raw").c_str());
        manager.parallelEval(toLib(leval), name, group);
        auto sp = s.f.grid(leval);
        for (int f = 0; f < s.numGrids; ++f) {
          auto ex = of.evaluateOn(sp, f);
          std::string fn = base + "_" + std::to_string(f) + ".raw";
          std::ifstream inf(fn, std::ios::binary);
          std::string bytes((std::istreambuf_iterator<char>(inf)), std::istreambuf_iterator<char>());
          c.checkf(bytes.size() == ex.size() * sizeof(T), [&](std::ostream& os) { os << fn << " has " << bytes.size() << " bytes when the evaluation is finished, expected " << ex.size() * sizeof(T); });
          double tl = t * 100 * std::max(1., ref::absmax(ex) / of.maxAbs);
          for (size_t i = 0; i < ex.size() && bytes.size() == ex.size() * sizeof(T); ++i) {
            T x;
            std::memcpy(&x, bytes.data() + i * sizeof(T), sizeof(T));
            ++c.checks;
            if (!(std::abs(x - ex[i]) <= tl)) {
              std::ostringstream os;
              os.precision(17);
              os << what << "field " << f << " evaluated on level " << ref::str(leval) << " by group " << group << ": value " << i << " is " << x << " expected " << ex[i];
              c.fail(os.str());
              break;
            }
          }
          unlink(fn.c_str());
          unlink((fn + "_header").c_str());
        }
        };
        for (auto& op : ops[rr]) {
          ++nop;
          if (op.kind == INTERPOLATE) {
            auto vals = manager.interpolateValues(op.xs);
            c.check(vals.size() == op.xs.size(), "number of interpolated values");
            double t2 = tol * (1 + sc) * 4 + 64 * ref::eps<T>() * (1 << s.lmin.size()) * 64 * (1 + sc) * st.maxAbs;
            for (size_t i = 0; i < op.xs.size(); ++i) {
              T ex(0);
              for (size_t k = 0; k < s.levels.size(); ++k) ex += static_cast<T>(s.coeffs[k]) * ref::interpolate<T>(s.specs[k], nodal[k][0], op.xs[i]);
              c.checkf(std::abs(vals[i] - ex) <= t2, [&](std::ostream& os) {
                os.precision(17);
                os << "combined solution at " << ref::strd(op.xs[i]) << " is " << vals[i] << " expected " << ex << " (tolerance " << t2 << ")";
              });
            }
            manager.waitForAllGroupsToWait();
          } else if (op.kind == MAXNORMS || op.kind == MAXNORM) {
            double sum = 0;
            for (size_t k = 0; k < s.levels.size(); ++k) sum += s.coeffs[k] * ref::absmax(nodal[k][0]);
            if (op.kind == MAXNORM) {
              double v = manager.getLpNorm(0), t = (1 + sc) * (tol + 1e-6 * st.maxAbs * (isFloat ? 1 : 0));
              c.checkf(std::abs(v - sum) <= t, [&](std::ostream& os) { os << "combined maximum norm " << v << " expected " << sum; });
            } else {
              auto norms = manager.getLpNorms(0);
              c.check(norms.size() == s.levels.size(), "number of norms");
              for (auto& kv : norms) {
                auto k = gridOf(kv.first);
                c.check(k < ids.size(), "norm of an unknown task");
                if (k >= ids.size()) continue;
                double ex = ref::absmax(nodal[k][0]);
                c.checkf(std::abs(kv.second - ex) <= tol + 1e-6 * ex * (isFloat ? 1 : 0), [&](std::ostream& os) { os << "maximum norm of grid " << ref::str(s.levels[k]) << " is " << kv.second << " expected " << ex; });
              }
            }
          } else if (op.kind == SUMNORMS || op.kind == SUMNORM) {
            std::vector<double> ex;
            double sum = 0;
            for (size_t k = 0; k < s.levels.size(); ++k) {
              ex.push_back(sumNorm(s.specs[k], nodal[k][0]));
              sum += s.coeffs[k] * ex.back();
            }
            double t = 2 * tol + (1e-12 + 100 * ref::eps<T>()) * st.maxAbs;
            if (op.kind == SUMNORM) {
              double v = manager.getLpNorm(1);
              c.checkf(std::abs(v - sum) <= t * (1 + sc), [&](std::ostream& os) { os << "combined 1-norm " << v << " expected " << sum; });
            } else {
              auto norms = manager.getLpNorms(1);
              c.check(norms.size() == s.levels.size(), "number of norms");
              for (auto& kv : norms) {
                auto k = gridOf(kv.first);
                c.check(k < ids.size(), "norm of an unknown task");
                if (k < ids.size())
                  c.checkf(std::abs(kv.second - ex[k]) <= t, [&](std::ostream& os) { os << "1-norm of grid " << ref::str(s.levels[k]) << " is " << kv.second << " expected " << ex[k]; });
              }
            }
          } else if (op.kind == EVAL) {
            evaluate(op.leval, op.group, st, tol, "");
          } else if (op.kind == SAVE) {
            // what was saved by an earlier combination can be loaded, and so can what it replaces
            std::string base = "dsg" + std::to_string(c.caseNo) + "_";
            manager.waitForAllGroupsToWait();
            manager.writeDSGsToDisk(base + std::to_string(r));
            if (saved >= 0) {
              manager.readDSGsFromDisk(base + std::to_string(saved));
              evaluate(s.lmax, managedGroup, states[static_cast<size_t>(saved)], tols[static_cast<size_t>(saved)], "loaded: ");
              manager.readDSGsFromDisk(base + std::to_string(r));
              evaluate(s.lmax, managedGroup, st, tol, "loaded again: ");
            }
            saved = r;
          } else if (op.kind == RENEW) {
            manager.waitForAllGroupsToWait();
            std::vector<ProcessGroupManagerID<T>> lost;
            std::vector<size_t> again;
            for (size_t i = 0; i < pgroups.size(); ++i) {
              auto h = ref::hash2(s.seed + 11, static_cast<uint64_t>(r) * 64 + i);
              if (i == op.group || (h % 3 == 0 && lost.size() + 2 < pgroups.size() && i != (op.group + 1) % pgroups.size())) {
                lost.push_back(pgroups[i]);
                auto& tc = pgroups[i]->getTaskContainer();
                for (size_t j = 0; j + 1 < tc.size(); ++j)
                  if (ref::hash2(h, tc[j]->getID()) % 3 == 0) again.push_back(tc[j]->getID());
              }
            }
            manager.reInitializeGroup(lost, again);
            if (op.mode == 2)
              manager.redistribute(again);
            else {
              manager.recompute(again, op.mode == 1, lost);
              for (auto id : again) ++recomputed[gridOf(id)];
            }
          } else if (op.kind == MINMAX) {
            std::string base = "mm" + std::to_string(c.caseNo) + "_" + std::to_string(r) + "_" + std::to_string(nop);
            unlink((base + "_0.txt").c_str());
            manager.waitForAllGroupsToWait();
            manager.writeSparseGridMinMaxCoefficients(base);
            manager.waitForAllGroupsToWait();
            auto mm = st.minMax(0);
            std::ifstream f(base + "_0.txt");
            std::string line;
            size_t n = 0;
            while (std::getline(f, line)) {
              auto colon = line.find(':');
              if (colon == std::string::npos) continue;
              LV l;
              std::string left = line.substr(0, colon);
              for (auto& ch : left)
                if (!isdigit(ch)) ch = ' ';
              std::istringstream ls(left);
              int x;
              while (ls >> x) l.push_back(x);
              double lo = 0, hi = 0;
              char comma;
              std::istringstream rs(line.substr(colon + 1));
              rs >> lo >> comma >> hi;
              ++n;
              auto it = mm.find(l);
              double t = it == mm.end() ? -1 : tol + 2e-5 * std::max(std::abs(it->second.first), std::abs(it->second.second));
              c.checkf(t >= 0 && std::abs(lo - it->second.first) <= t && std::abs(hi - it->second.second) <= t, [&](std::ostream& os) { os << "extreme coefficients reported: " << line; });
            }
            c.checkf(n == mm.size(), [&](std::ostream& os) { os << "extreme coefficients of " << n << " subspaces written, expected " << mm.size(); });
            for (int f2 = 0; f2 < s.numGrids; ++f2) unlink((base + "_" + std::to_string(f2) + ".txt").c_str());
          } else if (op.kind == DIAGNOSE) {
            manager.doDiagnostics(ids[op.grid]);
            ++diagnosed[op.grid];
          } else if (op.kind == WRITE) {
            std::string base = "sg" + std::to_string(c.caseNo) + "_" + std::to_string(r) + "_" + std::to_string(nop), token = base + "_token";
            manager.waitForAllGroupsToWait();
            c.check(pgroups[0]->combineThirdLevelFileBasedWrite(base, token), "writing the sparse grid failed");
            c.checkf(access(token.c_str(), F_OK) == 0 || access((token + ".part0").c_str(), F_OK) == 0, [&](std::ostream& os) { os << "token file " << token << " is missing"; });
            for (int f = 0; f < s.numGrids; ++f) {
              std::string fn = base + "_" + std::to_string(f);
              std::ifstream inf(fn, std::ios::binary | std::ios::ate);
              c.checkf(inf.good() && inf.tellg() > 0, [&](std::ostream& os) { os << "sparse grid file " << fn << " is missing or empty"; });
              unlink(fn.c_str());
            }
            unlink(token.c_str());
            unlink((token + ".part0").c_str());
          } else if (op.kind == MOVE) {
            manager.reschedule();
          }
        }
      }
      for (int r = 0; r < rounds; ++r)
        for (int f = 0; f < s.numGrids; ++f) unlink(("dsg" + std::to_string(c.caseNo) + "_" + std::to_string(r) + "_" + std::to_string(f)).c_str());
      c.check(tasks.size() == s.levels.size(), "the manager's list of tasks");
      manager.exit();
      manager.waitForAllGroupsToWait();
    }
    for (size_t i = 0; i < pgroups.size(); ++i)
      for (auto* t : pgroups[i]->getTaskContainer()) {
        auto k = static_cast<ManagedTask<T>*>(t)->grid();
        managerGrids[i].push_back(k);
        c.check(t->getID() == ids[k] && t->getCoefficient() == s.coeffs[k] && t->getLevelVector() == toLib(s.levels[k]), "a task on the manager differs from what it was");
      }
    for (auto* t : tasks) delete t;
  } else
    prepare({});
  // where everything ended up
  std::vector<int> mine(s.levels.size() * 3, 0);
  for (auto k : myGrids) mine[k] += 1;
  for (auto& kv : theRuns) mine[s.levels.size() + kv.first] += kv.second;
  for (auto& kv : theDiagnostics) mine[2 * s.levels.size() + kv.first] += kv.second;
  std::vector<int> all(mine.size() * static_cast<size_t>(pbt::worldSize()));
  MPI_Allgather(mine.data(), static_cast<int>(mine.size()), MPI_INT, all.data(), static_cast<int>(mine.size()), MPI_INT, MPI_COMM_WORLD);
  if (isManager) {
    drain();
    for (size_t k = 0; k < s.levels.size(); ++k) {
      int owners = 0, runs = 0, diags = 0;
      for (int r = 0; r < nworkers; ++r) {
        auto at = [&](size_t i) { return all[static_cast<size_t>(r) * mine.size() + i * s.levels.size() + k]; };
        owners += at(0), runs += at(1), diags += at(2);
        auto& mg = managerGrids[static_cast<size_t>(r / s.f.nprocs)];
        c.checkf(at(0) == std::count(mg.begin(), mg.end(), k), [&](std::ostream& os) { os << "rank " << r << " has grid " << ref::str(s.levels[k]) << " " << at(0) << " times, the manager thinks " << std::count(mg.begin(), mg.end(), k); });
      }
      c.checkf(owners == s.f.nprocs, [&](std::ostream& os) { os << "grid " << ref::str(s.levels[k]) << " is on " << owners << " processes, expected " << s.f.nprocs; });
      c.checkf(runs == s.f.nprocs * (rounds + recomputed[k]), [&](std::ostream& os) { os << "grid " << ref::str(s.levels[k]) << " ran " << runs << " times, expected " << s.f.nprocs * (rounds + recomputed[k]); });
      c.checkf(diags == s.f.nprocs * diagnosed[k], [&](std::ostream& os) { os << "diagnostics of grid " << ref::str(s.levels[k]) << " done " << diags << " times, expected " << s.f.nprocs * diagnosed[k]; });
    }
  }
  theSpec = nullptr;
  (void)in;
}
/// whole groups lose their tasks and are started again, as after the replacement of failed processes
void recovery(Gen& g, Ctx& c) {
  using T = double;
  using ft::Levels;
  CombiOpts o;
  o.worldSize = pbt::worldSize();
  o.minRanksReserved = 1;
  o.allVariants = false;
  o.severalFields = false;
  o.faultTolerant = true;
  o.minGroups = 2;
  auto s = genCombi(g, o);
  s.reduce.clear();
  s.variant = sparseGridReduce;
  s.numGrids = 1;
  const size_t n = s.levels.size();
  s.order.resize(n);
  std::iota(s.order.begin(), s.order.end(), 0);
  g.shuffle(s.order);
  thePauses = g.irange(0, 1);
  std::vector<bool> lostGroup(static_cast<size_t>(s.ngroup), false);
  const int nLost = s.ngroup < 2 ? 0 : g.irange(1, s.ngroup - 1);
  {
    std::vector<size_t> p(static_cast<size_t>(s.ngroup));
    std::iota(p.begin(), p.end(), 0);
    g.shuffle(p);
    for (int i = 0; i < nLost; ++i) lostGroup[p[static_cast<size_t>(i)]] = true;
  }
  const bool spread = g.boolean();  // report only some of the tasks of the group as lost
  c.desc << s.describe() << " lost groups:";
  for (size_t i = 0; i < lostGroup.size(); ++i)
    if (lostGroup[i]) c.desc << " " << i;
  if (spread) c.desc << " (partly)";
  c.nontrivial = nLost > 0 && n > 2;
  c.label("groups_" + std::to_string(s.ngroup));
  c.label("lost_" + std::to_string(nLost));

  theSpec = &s;
  theRuns.clear();
  theDiagnostics.clear();
  const int me = pbt::worldRank(), nworkers = s.ngroup * s.f.nprocs;
  const bool isManager = me == nworkers, isWorker = me < nworkers;
  managedLayout(s.ngroup, s.f.nprocs);
  omp_set_num_threads(1);
  // only the first and the last combination are compared: everything is overwritten before each
  std::vector<Action> acts(3);
  for (int r = 0; r < 3; ++r) acts[static_cast<size_t>(r)].round = r;
  std::vector<std::vector<std::vector<std::vector<T>>>> afterRun, afterCombine;
  std::vector<double> tols;
  auto prepare = [&](const std::set<LV>& mine) {
    std::set<LV> set;
    std::vector<int> flat;
    for (auto& l : mine) flat.insert(flat.end(), l.begin(), l.end());
    int m = static_cast<int>(flat.size());
    MPI_Bcast(&m, 1, MPI_INT, 0, MPI_COMM_WORLD);
    flat.resize(static_cast<size_t>(m));
    MPI_Bcast(flat.data(), m, MPI_INT, 0, MPI_COMM_WORLD);
    for (size_t i = 0; i < flat.size(); i += s.lmin.size()) set.insert(LV(flat.begin() + static_cast<long>(i), flat.begin() + static_cast<long>(i + s.lmin.size())));
    CombiModel<T> model(s);
    for (auto& a : acts) {
      model.act(a);
      afterRun.push_back(model.nodal);
      model.combine(set);
      afterCombine.push_back(model.nodal);
      tols.push_back(model.tol(0));
    }
  };
  std::vector<std::vector<double>> updates;  // coefficients received
  std::vector<size_t> myGrids;
  std::vector<int> lost(n, 0), again(n, 0), spare(n, 0);
  std::vector<std::vector<size_t>> managerGrids(static_cast<size_t>(s.ngroup));
  if (isWorker) {
    ProcessGroupWorker<T> worker;
    int combinations = 0;
    ManagedTask<T>::action() = acts[0];
    auto check = [&](Task<T>* t, const std::vector<T>& ex, double tol, const std::string& when) {
      auto* mt = static_cast<ManagedTask<T>*>(t);
      compareLocal(c, s.specs[mt->grid()], ex, mt->getDistributedFullGrid(0), tol, when + ", grid " + ref::str(s.levels[mt->grid()]));
    };
    while (true) {
      SignalType sig = worker.wait();
      if (sig == EXIT) break;
      if (sig == UPDATE_COMBI_PARAMETERS) {
        updates.emplace_back();
        for (size_t k = 0; k < n; ++k) {
          updates.back().push_back(worker.getCombiParameters().getCoeff(k));
          c.check(worker.getCombiParameters().getLevel(k) == toLib(s.levels[k]), "level of a task in the parameters");
        }
      } else if (sig == INIT_DSGUS) {
        prepare(subspacesOf(worker));
      } else if (sig == COMBINE) {
        if (combinations != 1)
          for (auto& t : worker.getTasks()) {
            auto k = static_cast<ManagedTask<T>*>(t.get())->grid();
            check(t.get(), afterCombine[static_cast<size_t>(combinations)][k][0], tols[static_cast<size_t>(combinations)], "after combination " + std::to_string(combinations));
          }
        ++combinations;
        if (combinations < 3) ManagedTask<T>::action() = acts[static_cast<size_t>(combinations)];
      } else if (sig == RESET_TASKS) {
        c.check(worker.getTasks().empty(), "tasks left after a reset");
      } else if (sig == ADD_TASK) {
        auto* t = static_cast<ManagedTask<T>*>(worker.getTasks().back().get());
        check(t, std::vector<T>(static_cast<size_t>(s.specs[t->grid()].total), 0.), 0., "added after a loss");
      } else if (sig == RECOMPUTE) {
        auto* t = static_cast<ManagedTask<T>*>(worker.getTasks().back().get());
        check(t, afterRun[1][t->grid()][0], tols[0], "recomputed after a loss");
      }
      myGrids.clear();
      for (auto& t : worker.getTasks()) myGrids.push_back(static_cast<ManagedTask<T>*>(t.get())->grid());
    }
  } else if (isManager) {
    std::unique_ptr<LoadModel> lm(new LinearLoadModel());
    ProcessGroupManagerContainer<T> pgroups;
    for (int i = 0; i < s.ngroup; ++i) pgroups.emplace_back(std::make_shared<ProcessGroupManager<T>>(i));
    TaskContainer<T> tasks;
    std::vector<LevelVector> levels;
    std::vector<size_t> ids;
    for (size_t k = 0; k < n; ++k) {
      levels.push_back(toLib(s.levels[k]));
      ids.push_back(k);
    }
    for (auto k : s.order) {
      tasks.push_back(new ManagedTask<T>(k, lm.get()));
      tasks.back()->setID(k);
    }
    CombiParameters params(static_cast<DimType>(s.lmin.size()), toLib(s.lmin), toLib(s.lmax), s.f.bnd, levels, s.coeffs, ids, 3, 1, s.variant,
                           s.f.procs, LevelVector(0), LevelVector(0), s.chunkMiB, s.forward);
    std::vector<BasisFunctionBasis*> b;
    for (auto x : s.bases) b.push_back(makeBasis(x).release());
    params.setHierarchicalBases(b);
    if (s.setDecomposition) params.setDecomposition(s.f.refDec);
    {
      ProcessManager<T> manager(pgroups, tasks, params, std::move(lm));
      c.check(manager.runfirst(), "the first run reports a failed group");
      prepare({});
      manager.combine();
      c.check(manager.runnext(), "a later run reports a failed group");
      manager.waitForAllGroupsToWait();
      std::vector<ProcessGroupManagerID<T>> failed;
      std::vector<size_t> faults, toSpread, toRecompute;
      for (size_t i = 0; i < pgroups.size(); ++i)
        if (lostGroup[i]) {
          failed.push_back(pgroups[i]);
          for (auto* t : pgroups[i]->getTaskContainer())
            if (!spread || ref::hash2(s.seed, t->getID()) % 3) {
              faults.push_back(t->getID());
              lost[t->getID()] = 1;
            }
        }
      manager.recomputeOptimumCoefficients("lost grids", faults, toSpread, toRecompute);
      for (auto k : toRecompute) ++again.at(k);
      for (auto k : toSpread) ++spare.at(k);
      manager.reInitializeGroup(failed, toRecompute);
      manager.recompute(toRecompute, false, failed);
      manager.updateCombiParameters();
      manager.waitForAllGroupsToWait();
      manager.combine();
      manager.restoreCombischeme();
      manager.waitForAllGroupsToWait();
      c.check(manager.runnext(), "a run after the recovery reports a failed group");
      manager.combine();
      manager.waitForAllGroupsToWait();
      manager.exit();
      manager.waitForAllGroupsToWait();
    }
    for (size_t i = 0; i < pgroups.size(); ++i)
      for (auto* t : pgroups[i]->getTaskContainer()) managerGrids[i].push_back(static_cast<ManagedTask<T>*>(t)->grid());
    for (auto* t : tasks) delete t;
  } else
    prepare({});
  // the coefficients that reached the workers
  int counts[2] = {isWorker ? static_cast<int>(updates.size()) : 1000, isWorker ? -static_cast<int>(updates.size()) : 1000};
  MPI_Allreduce(MPI_IN_PLACE, counts, 2, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
  c.checkf(counts[0] == 3 && counts[1] == -3, [&](std::ostream& os) { os << "parameters were received " << counts[0] << " to " << -counts[1] << " times, sent 3 times"; });
  if (counts[0] == 3 && counts[1] == -3) {
    for (auto* v : {&lost, &again, &spare}) MPI_Bcast(v->data(), static_cast<int>(n), MPI_INT, nworkers, MPI_COMM_WORLD);
    if (isWorker) {
      std::map<Levels, double> given, result;
      std::vector<Levels> relevant, lower, rec;
      Levels mn(s.lmin.begin(), s.lmin.end());
      const int diff = s.lmax[0] - s.lmin[0], top = ft::sum(mn) + diff;
      for (size_t k = 0; k < n; ++k) {
        Levels l(s.levels[k].begin(), s.levels[k].end());
        given[l] = s.coeffs[k];
        result[l] = updates[1][k];
        if (lost[k]) (ft::sum(l) >= top - 1 ? relevant : lower).push_back(l);
        if (again[k]) rec.push_back(l);
        c.check(updates[0][k] == s.coeffs[k], "coefficients sent at first");
        c.checkf(std::abs(updates[2][k] - s.coeffs[k]) < 1e-9, [&](std::ostream& os) { os << "coefficient of " << ft::str(l) << " is " << updates[2][k] << " after restoring the scheme, was " << s.coeffs[k]; });
        c.checkf(again[k] + spare[k] == lost[k], [&](std::ostream& os) { os << "grid " << ft::str(l) << ": lost " << lost[k] << ", to be recomputed " << again[k] << ", to be redistributed " << spare[k]; });
      }
      if (relevant.empty()) {
        c.check(result == given, "coefficients changed although no grid of the two finest diagonals is lost");
        for (auto& l : lower) c.checkf((std::abs(given[l]) > 1e-6) == (std::count(rec.begin(), rec.end(), l) == 1), [&](std::ostream& os) { os << "lost grid " << ft::str(l) << " with coefficient " << given[l] << " is to be recomputed " << std::count(rec.begin(), rec.end(), l) << " times"; });
      } else
        ft::checkRecombination(c, mn, diff, std::vector<char>(mn.size(), 1), given, relevant, lower, result, rec);
    }
  }
  // every task is somewhere
  std::vector<int> mine(n * 2, 0);
  for (auto k : myGrids) mine[k] += 1;
  for (auto& kv : theRuns) mine[n + kv.first] += kv.second;
  std::vector<int> all(mine.size() * static_cast<size_t>(pbt::worldSize()));
  MPI_Allgather(mine.data(), static_cast<int>(mine.size()), MPI_INT, all.data(), static_cast<int>(mine.size()), MPI_INT, MPI_COMM_WORLD);
  if (isManager) {
    drain();
    for (size_t k = 0; k < n; ++k) {
      int owners = 0, runs = 0;
      for (int r = 0; r < nworkers; ++r) {
        owners += all[static_cast<size_t>(r) * mine.size() + k];
        runs += all[static_cast<size_t>(r) * mine.size() + n + k];
        auto& mg = managerGrids[static_cast<size_t>(r / s.f.nprocs)];
        c.check(all[static_cast<size_t>(r) * mine.size() + k] == std::count(mg.begin(), mg.end(), k), "manager and group disagree on the tasks of the group");
      }
      c.checkf(owners == s.f.nprocs, [&](std::ostream& os) { os << "grid " << ref::str(s.levels[k]) << " is on " << owners << " processes after the recovery, expected " << s.f.nprocs; });
      c.checkf(runs == s.f.nprocs * (3 + again[k]), [&](std::ostream& os) { os << "grid " << ref::str(s.levels[k]) << " ran " << runs << " times, expected " << s.f.nprocs * (3 + again[k]); });
    }
  }
  theSpec = nullptr;
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Driver d;
  std::string prop = argc > 1 ? argv[1] : "";
  Stats::initialize();
  if (prop == "C20") {
    d.add("run_double", 3, managed<double>);
    d.add("run_complexfloat", 1, managed<std::complex<float>>);
  } else if (prop == "C14") {
    glp_term_out(GLP_OFF);
    d.add("recovery", 1, recovery);
  } else {
    return 9;
  }
  return d.main(argc - 1, argv + 1);
}
