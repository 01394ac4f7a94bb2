// C17: two systems with a process manager each, exchanging sparse grids through the third level
// manager over TCP.  The last rank runs the third level manager in a thread.
#include <dlfcn.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <time.h>

#include <atomic>

#include "common/managed.hpp"
#include "tlm_glue.hpp"

static std::atomic<int>* listenPort = nullptr;
extern "C" {
int listen(int fd, int backlog) {
  static auto real = reinterpret_cast<int (*)(int, int)>(dlsym(RTLD_NEXT, "listen"));
  int r = real(fd, backlog);
  if (r == 0 && listenPort) {
    struct sockaddr_in a;
    socklen_t l = sizeof(a);
    if (getsockname(fd, reinterpret_cast<struct sockaddr*>(&a), &l) == 0) *listenPort = ntohs(a.sin_port);
  }
  return r;
}
// small messages are sent at once
int socket(int domain, int type, int protocol) {
  static auto real = reinterpret_cast<int (*)(int, int, int)>(dlsym(RTLD_NEXT, "socket"));
  int fd = real(domain, type, protocol), one = 1;
  if (fd >= 0 && domain == AF_INET) setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
  return fd;
}
// waiting for another attempt to connect, or for the next message: the same schedule, but faster
int select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv) {
  static auto real =
      reinterpret_cast<int (*)(int, fd_set*, fd_set*, fd_set*, struct timeval*)>(dlsym(RTLD_NEXT, "select"));
  struct timeval quick {0, 200};
  if (tv && (tv->tv_sec > 0 || tv->tv_usec > 200)) tv = &quick;
  return real(n, r, w, e, tv);
}
unsigned sleep(unsigned) { return 0; }
}

namespace {
struct SilenceOut {
  std::ostringstream sink;
  std::streambuf* old;
  SilenceOut() : old(std::cout.rdbuf(sink.rdbuf())) {}
  ~SilenceOut() { std::cout.rdbuf(old); }
};

template <typename T>
void exchange(Gen& g, Ctx& c) {
  CombiOpts o;
  o.worldSize = pbt::worldSize();
  o.minRanksReserved = 3;
  o.maxPoints = 3000;
  o.severalFields = false;
  o.allVariants = false;
  o.minGroups = 2;
  auto s = genCombi(g, o);
  s.variant = sparseGridReduce;
  {
    std::set<LV> seen;
    std::vector<size_t> keep;
    for (size_t k = 0; k < s.levels.size(); ++k)
      if (seen.insert(s.levels[k]).second) keep.push_back(k);
    auto t = s;
    s.levels.clear(), s.coeffs.clear(), s.specs.clear(), s.order.clear();
    for (auto k : keep) {
      s.order.push_back(s.levels.size());
      s.levels.push_back(t.levels[k]), s.coeffs.push_back(t.coeffs[k]), s.specs.push_back(t.specs[k]);
    }
    s.group.assign(s.levels.size(), -1);
    g.shuffle(s.order);
  }
  const int maxGroups = std::min(static_cast<int>(s.levels.size()), (o.worldSize - 3) / s.f.nprocs);
  if (s.ngroup < 2) s.ngroup = 2;
  s.ngroup = std::min(s.ngroup, maxGroups);
  if (s.ngroup < 2) {
    c.desc << "(a single grid, or no room for a second system)";
    return;
  }
  const int n = static_cast<int>(s.levels.size());
  int groups[2], firstRank[3], pg[2];
  groups[0] = g.irange(1, s.ngroup - 1);
  groups[1] = s.ngroup - groups[0];
  // the grids of the systems; every group has at least one
  std::vector<int> sysOf(s.levels.size());
  const int n0 = g.irange(groups[0], n - groups[1]);
  for (int i = 0; i < n; ++i) sysOf[s.order[static_cast<size_t>(i)]] = i < n0 ? 0 : 1;
  firstRank[0] = 0;
  for (int i = 0; i < 2; ++i) {
    firstRank[i + 1] = firstRank[i] + groups[i] * s.f.nprocs + 1;
    pg[i] = g.irange(0, groups[i] - 1);
  }
  std::vector<size_t> ids(s.levels.size());
  {
    size_t base = static_cast<size_t>(g.irange(0, 3)) * 1000;
    for (size_t k = 0; k < ids.size(); ++k) ids[k] = base + k;
  }
  thePauses = g.irange(0, 2);
  const bool isFloat = ref::eps<T>() > 1e-10;
  const int rounds = g.irange(1, 3);
  std::vector<Action> acts;
  std::vector<int> points;
  for (int r = 0; r < rounds; ++r) {
    Action a;
    a.round = r;
    a.kind = r == 0 ? 1 : g.irange(0, 2);
    if (isFloat || s.amplification() > 60) a.kind = 1;
    acts.push_back(a);
    points.push_back(g.boolean() ? g.irange(1, 6) : 0);
  }
  static const size_t chunks[] = {131072, 1, 7, 64, 1000, 4096};
  const size_t chunk = chunks[g.draw(6)];
  const int lag = g.irange(0, 2);  // the system that starts later
  c.desc << "systems of " << groups[0] << " and " << groups[1] << " groups with " << n0 << " and " << n - n0 << " grids, exchanging groups " << pg[0] << " and " << pg[1]
         << ", broker chunks of " << chunk << ", rounds=" << rounds << " " << s.describe();
  c.label("rounds_" + std::to_string(rounds));
  if (groups[0] > 1 || groups[1] > 1) c.label("several_groups");
  if (s.f.nprocs > 1) c.label("decomposed");
  if (!s.reduce.empty()) c.label("reduced_lmax");
  c.label(s.validScheme ? "scheme" : "arbitrary_grids");
  for (auto p : points)
    if (p) c.label("monte_carlo");
  c.nontrivial = true;

  theSpec = &s;
  theRuns.clear();
  theDiagnostics.clear();
  omp_set_num_threads(1);
  const int me = pbt::worldRank(), broker = pbt::worldSize() - 1;
  int sys = me < firstRank[1] ? 0 : me < firstRank[2] ? 1 : -1;
  const bool isManager = sys >= 0 && me == firstRank[sys + 1] - 1, isWorker = sys >= 0 && !isManager;
  MPI_Comm comm;
  MPI_Comm_split(MPI_COMM_WORLD, sys >= 0 ? sys : MPI_UNDEFINED, me, &comm);
  forgetCommunicator();
  if (sys >= 0) theMPISystem()->initWorldReusable(comm, static_cast<size_t>(groups[sys]), static_cast<size_t>(s.f.nprocs), true, false);
  CombiModel<T> model(s);
  std::set<LV> set;
  std::vector<std::vector<std::vector<std::vector<T>>>> afterRun, afterCombine;
  std::vector<double> tols, maxAbs;
  auto prepare = [&](const std::set<LV>& mine) {
    std::vector<int> flat;
    for (auto& l : mine) flat.insert(flat.end(), l.begin(), l.end());
    int len = static_cast<int>(flat.size());
    MPI_Bcast(&len, 1, MPI_INT, 0, MPI_COMM_WORLD);
    flat.resize(static_cast<size_t>(len));
    MPI_Bcast(flat.data(), len, MPI_INT, 0, MPI_COMM_WORLD);
    for (size_t i = 0; i < flat.size(); i += s.lmin.size()) set.insert(LV(flat.begin() + static_cast<long>(i), flat.begin() + static_cast<long>(i + s.lmin.size())));
    if (isWorker) c.check(mine == set, "processes disagree on the subspaces of the sparse grid");
    for (int r = 0; r < rounds; ++r) {
      model.act(acts[static_cast<size_t>(r)]);
      afterRun.push_back(model.nodal);
      model.combine(set);
      afterCombine.push_back(model.nodal);
      maxAbs.push_back(model.maxAbs);
      tols.push_back(model.tol(acts[static_cast<size_t>(r)].kind == 1 ? 0 : r));
    }
  };
  // the third level manager
  std::atomic<int> port{0};
  std::thread tlm;
  std::string tlmError;
  const std::string stats = c.scratch + "/tlm_" + std::to_string(c.caseNo) + ".json";
  std::unique_ptr<SilenceOut> quiet;
  if (me == broker) {
    quiet.reset(new SilenceOut);
    listenPort = &port;
    tlm = std::thread([&] { tlmError = runThirdLevelManager(false, "", chunk, stats); });
    while (port == 0) std::this_thread::sleep_for(std::chrono::microseconds(50));
  }
  int portNumber = port;
  MPI_Bcast(&portNumber, 1, MPI_INT, broker, MPI_COMM_WORLD);

  size_t myRuns = 0;
  if (isWorker) {
    ProcessGroupWorker<T> worker;
    int round = -1;
    ManagedTask<T>::action() = acts[0];
    auto check = [&](const std::vector<std::vector<std::vector<T>>>& st, double tol, const std::string& when) {
      for (auto& t : worker.getTasks()) {
        auto* mt = static_cast<ManagedTask<T>*>(t.get());
        auto k = mt->grid();
        c.check(sysOf[k] == sys, "a grid of the other system");
        compareLocal(c, s.specs[k], st[k][0], mt->getDistributedFullGrid(0), tol, when + ", grid " + ref::str(s.levels[k]) + " of system " + std::to_string(sys));
      }
    };
    while (true) {
      SignalType sig = worker.wait();
      if (sig == EXIT) break;
      if (sig == INIT_DSGUS) {
        prepare(subspacesOf(worker));
        check(afterRun[0], 0., "after the first run");
        round = 0;
      } else if (sig == RUN_NEXT) {
        check(afterRun[static_cast<size_t>(round)], tols[static_cast<size_t>(round)], "after run " + std::to_string(round));
      } else if (sig == COMBINE_THIRD_LEVEL || sig == WAIT_FOR_TL_COMBI_RESULT) {
        check(afterCombine[static_cast<size_t>(round)], tols[static_cast<size_t>(round)], "after exchange " + std::to_string(round));
        ++round;
        if (round < rounds) ManagedTask<T>::action() = acts[static_cast<size_t>(round)];
      }
    }
    c.checkf(round == rounds, [&](std::ostream& os) { os << "a worker took part in " << round << " of " << rounds << " exchanges"; });
    c.check(worker.getTasks().empty() || worker.getCurrentNumberOfCombinations() == rounds, "number of combinations");
    for (auto& kv : theRuns) myRuns += static_cast<size_t>(kv.second);
  } else if (isManager) {
    if (lag == sys + 1) std::this_thread::sleep_for(std::chrono::milliseconds(2));
    std::unique_ptr<LoadModel> lm(new LinearLoadModel());
    ProcessGroupManagerContainer<T> pgroups;
    for (int i = 0; i < groups[sys]; ++i) pgroups.emplace_back(std::make_shared<ProcessGroupManager<T>>(i));
    TaskContainer<T> tasks;
    std::vector<LevelVector> levels;
    std::vector<real> coeffs;
    std::vector<size_t> tids;
    for (auto k : s.order)
      if (sysOf[k] == sys) {
        auto* t = new ManagedTask<T>(k, lm.get());
        t->setID(ids[k]);
        tasks.push_back(t);
        levels.push_back(toLib(s.levels[k]));
        coeffs.push_back(s.coeffs[k]);
        tids.push_back(ids[k]);
      }
    CombiParameters params(static_cast<DimType>(s.lmin.size()), toLib(s.lmin), toLib(s.lmax), s.f.bnd, levels, coeffs, tids,
                           static_cast<size_t>(rounds), 1, s.variant, s.f.procs, LevelVector(0), toLib(s.reduce),
                           s.chunkMiB, s.forward, "127.0.0.1", static_cast<unsigned short>(portNumber), static_cast<size_t>(pg[sys]));
    std::vector<BasisFunctionBasis*> b;
    for (auto x : s.bases) b.push_back(makeBasis(x).release());
    params.setHierarchicalBases(b);
    if (s.setDecomposition) params.setDecomposition(s.f.refDec);
    double sc = 0;
    for (auto x : s.coeffs) sc += std::abs(x);
    SilenceOut q;
    {
      ProcessManager<T> manager(pgroups, tasks, params, std::move(lm));
      for (int r = 0; r < rounds; ++r) {
        auto rr = static_cast<size_t>(r);
        if (r == 0) {
          c.check(manager.runfirst(), "the first run reports a failed group");
          prepare({});
          auto size = manager.unifySubspaceSizesThirdLevel(false);
          // all points of all grids of both systems whose subspaces are combined
          const long expected = std::count(model.covered.begin(), model.covered.end(), 1);
          c.checkf(static_cast<long>(size) == expected, [&](std::ostream& os) { os << "the exchanged sparse grid has " << size << " values, expected " << expected; });
        } else
          c.check(manager.runnext(), "a later run reports a failed group");
        manager.combineThirdLevel();
        if (points[rr]) {
          std::vector<std::vector<real>> xs;
          std::vector<T> vals(static_cast<size_t>(points[rr]));
          manager.monteCarloThirdLevel(static_cast<size_t>(points[rr]), xs, vals);
          c.check(static_cast<int>(xs.size()) == points[rr] && vals.size() == xs.size(), "number of interpolated values");
          double t2 = tols[rr] * (1 + sc) * 4 + 64 * ref::eps<T>() * (1 << s.lmin.size()) * 64 * (1 + sc) * maxAbs[rr];
          for (size_t i = 0; i < xs.size(); ++i) {
            T ex(0);
            for (size_t k = 0; k < s.levels.size(); ++k) ex += static_cast<T>(s.coeffs[k]) * ref::interpolate<T>(s.specs[k], afterCombine[rr][k][0], xs[i]);
            c.checkf(std::abs(vals[i] - ex) <= t2, [&](std::ostream& os) {
              os.precision(17);
              os << "solution of both systems at " << ref::strd(xs[i]) << " is " << vals[i] << " expected " << ex << " (tolerance " << t2 << ")";
            });
          }
          manager.waitForAllGroupsToWait();
        }
      }
      manager.exit();
      manager.waitForAllGroupsToWait();
    }
    for (auto* t : tasks) delete t;
  } else {
    prepare({});
  }
  if (me == broker) {
    tlm.join();
    listenPort = nullptr;
    c.checkf(tlmError.empty(), [&](std::ostream& os) { os << "the third level manager: " << tlmError; });
    unlink(stats.c_str());
  }
  quiet.reset();
  long total = static_cast<long>(myRuns);
  MPI_Allreduce(MPI_IN_PLACE, &total, 1, MPI_LONG, MPI_SUM, MPI_COMM_WORLD);
  c.checkf(total == static_cast<long>(n) * rounds * s.f.nprocs, [&](std::ostream& os) { os << "grids ran " << total << " times, expected " << n * rounds * s.f.nprocs; });
  if (isManager) {
    while (true) {
      int flag = 0;
      MPI_Status st;
      MPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, theMPISystem()->getGlobalComm(), &flag, &st);
      if (!flag) break;
      int len = 0;
      MPI_Get_count(&st, MPI_BYTE, &len);
      std::vector<char> buf(static_cast<size_t>(len) + 1);
      MPI_Recv(buf.data(), len, MPI_BYTE, st.MPI_SOURCE, st.MPI_TAG, theMPISystem()->getGlobalComm(), MPI_STATUS_IGNORE);
    }
  }
  if (comm != MPI_COMM_NULL) forgetCommunicator();
  theSpec = nullptr;
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Driver d;
  std::string prop = argc > 1 ? argv[1] : "";
  Stats::initialize();
  if (prop == "C17") {
    d.add("tcp_double", 3, exchange<double>);
    d.add("tcp_complexfloat", 1, exchange<std::complex<float>>);
  } else {
    return 9;
  }
  return d.main(argc - 1, argv + 1);
}
