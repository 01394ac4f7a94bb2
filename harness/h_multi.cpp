// C17: several systems, each with its own groups and part of the grids, exchanging sparse grids by
// files.  Every system works in a directory of its own; one process that belongs to no system plays
// the file transfer between the directories, in a generated order and while the systems wait.
#include <time.h>

#include <filesystem>

#include "common/combi.hpp"

using namespace ad;
using pbt::Ctx;
using pbt::Gen;
namespace fs = std::filesystem;

// the library polls for files with long sleeps: the same schedule, hundred times faster
extern "C" int nanosleep(const struct timespec* req, struct timespec* rem) {
  struct timespec t = *req;
  long long ns = (static_cast<long long>(t.tv_sec) * 1000000000ll + t.tv_nsec) / 100;
  t.tv_sec = static_cast<time_t>(ns / 1000000000ll);
  t.tv_nsec = static_cast<long>(ns % 1000000000ll);
  return clock_nanosleep(CLOCK_MONOTONIC, 0, &t, rem);
}

namespace {
bool anyFailed(Ctx& c) {
  int f = c.failed ? 1 : 0;
  MPI_Allreduce(MPI_IN_PLACE, &f, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  return f;
}

struct Move {
  int from, to;
  bool late;
};

/// copy everything of prefix from one system's directory to another's: data first, then tokens
void transfer(const std::string& base, const Move& m, const std::string& prefix) {
  const std::string a = base + std::to_string(m.from), b = base + std::to_string(m.to);
  std::vector<fs::path> tokens, data;
  for (auto& e : fs::directory_iterator(a)) {
    auto n = e.path().filename().string();
    if (n.rfind(prefix, 0) != 0) continue;
    (n.find("token") != std::string::npos ? tokens : data).push_back(e.path());
  }
  for (auto& p : data) fs::copy_file(p, fs::path(b) / p.filename(), fs::copy_options::overwrite_existing);
  for (auto& p : tokens) fs::copy_file(p, fs::path(b) / p.filename(), fs::copy_options::overwrite_existing);
}

template <typename T>
void systems(Gen& g, Ctx& c, bool large) {
  CombiOpts o;
  o.worldSize = pbt::worldSize();
  o.minRanksReserved = 1;
  o.large = large;
  o.severalFields = false;
  auto s = genCombi(g, o);
  // at least two groups with grids: two systems
  if (s.ngroup == 1 && s.levels.size() > 1 && s.f.nprocs * 2 <= o.worldSize - 1) {
    s.ngroup = 2;
    for (size_t k = 0; k < s.group.size(); ++k) s.group[k] = g.irange(0, 1);
    s.group[0] = 0;
    s.group[1] = 1;
  }
  static const std::vector<CombinationVariant> variants = {sparseGridReduce, outgroupSparseGridReduce, chunkedOutgroupSparseGridReduce};
  s.variant = variants[g.draw(3)];
  int nsys = std::min(s.ngroup, g.chance(35) ? 3 : 2);
  if (s.ngroup == 1) {
    c.desc << "(a single grid or group)";
    return;
  }
  // groups of the systems: consecutive
  std::vector<int> first = {0};
  {
    std::set<int> cuts;
    while (static_cast<int>(cuts.size()) < nsys - 1) {
      int x = g.irange(1, s.ngroup - 1);
      while (cuts.count(x)) x = x % (s.ngroup - 1) + 1;
      cuts.insert(x);
    }
    first.insert(first.end(), cuts.begin(), cuts.end());
    first.push_back(s.ngroup);
  }
  std::vector<int> divisors;
  for (int p = 1; p <= s.f.nprocs; ++p)
    if (s.f.nprocs % p == 0) divisors.push_back(p);
  const int parts = divisors[g.draw(divisors.size())];
  const int rounds = large ? 1 : g.irange(1, 3);
  const bool isFloat = ref::eps<T>() > 1e-10;
  std::vector<Action> acts;
  std::vector<std::vector<Move>> moves;
  auto genMoves = [&] {
    std::vector<Move> m;
    for (int i = 0; i < nsys; ++i)
      for (int j = 0; j < nsys; ++j)
        if (i != j) m.push_back({i, j, g.boolean()});
    g.shuffle(m);
    return m;
  };
  auto sizeMoves = genMoves();
  for (int r = 0; r < rounds; ++r) {
    Action a;
    a.round = r;
    a.kind = r == 0 ? 1 : g.irange(0, 2);
    if (isFloat || s.amplification() > 60) a.kind = 1;
    acts.push_back(a);
    moves.push_back(genMoves());
  }
  const bool keep = g.boolean();
  c.desc << nsys << " systems of";
  for (int i = 0; i < nsys; ++i) c.desc << " " << first[static_cast<size_t>(i) + 1] - first[static_cast<size_t>(i)];
  c.desc << " groups, " << parts << " file parts, rounds=" << rounds << " " << s.describe();
  static const char* vn[] = {"sparseGridReduce", "subspaceReduce", "outgroup", "chunkedOutgroup"};
  c.label(std::string("variant_") + vn[static_cast<int>(s.variant)]);
  c.label("systems_" + std::to_string(nsys));
  if (parts > 1) c.label("file_parts");
  if (s.f.nprocs > 1) c.label("decomposed");
  if (!s.reduce.empty()) c.label("reduced_lmax");
  c.label(s.validScheme ? "scheme" : "arbitrary_grids");
  if (large) c.label("large");
  c.nontrivial = true;

  // which system am I in
  const int me = pbt::worldRank(), transporter = pbt::worldSize() - 1;
  const int myGlobalGroup = me / s.f.nprocs;
  int sys = -1;
  for (int i = 0; i < nsys; ++i)
    if (myGlobalGroup >= first[static_cast<size_t>(i)] && myGlobalGroup < first[static_cast<size_t>(i) + 1]) sys = i;
  if (me >= s.ranks()) sys = -1;
  const bool in = sys >= 0;
  const std::string base = c.scratch + "/m" + std::to_string(c.caseNo) + "_";
  if (me == transporter)
    for (int i = 0; i < nsys; ++i) {
      fs::remove_all(base + std::to_string(i));
      fs::create_directories(base + std::to_string(i));
    }
  MPI_Comm comm;
  MPI_Comm_split(MPI_COMM_WORLD, in ? sys : MPI_UNDEFINED, me, &comm);
  MPI_Barrier(MPI_COMM_WORLD);
  forgetCommunicator();
  CombiModel<T> model(s);
  std::unique_ptr<ProcessGroupWorker<T>> worker;
  omp_set_num_threads(s.threads);
  std::set<LV> set;
  int myGroup = -1, myLocal = -1;
  std::vector<int> others;
  auto name = [&](const std::string& what, int sy, int r) { return what + std::to_string(sy) + "_" + std::to_string(r); };
  auto ferry = [&](const std::vector<Move>& mv, const std::string& what, int r) {
    // both kinds of transfer: before the systems start to read, and while they wait
    MPI_Barrier(MPI_COMM_WORLD);
    if (me == transporter)
      for (auto& m : mv)
        if (!m.late) transfer(base, m, name(what, m.from, r));
    MPI_Barrier(MPI_COMM_WORLD);
    if (me == transporter)
      for (auto& m : mv)
        if (m.late) transfer(base, m, name(what, m.from, r));
  };
  if (in) {
    if (chdir((base + std::to_string(sys)).c_str()) != 0) c.fail("harness: chdir");
    theMPISystem()->initWorldReusable(comm, static_cast<size_t>(first[static_cast<size_t>(sys) + 1] - first[static_cast<size_t>(sys)]),
                                      static_cast<size_t>(s.f.nprocs), false, false);
    if (parts > 1) theMPISystem()->initOutputGroupComm(static_cast<uint16_t>(parts));
    myGroup = myGlobalGroup;
    myLocal = me % s.f.nprocs;
    c.check(theMPISystem()->getLocalRank() == myLocal, "local rank");
    for (int i = 0; i < nsys; ++i)
      if (i != sys) others.push_back(i);
    worker.reset(new ProcessGroupWorker<T>());
    worker->setCombiParameters(makeParameters(s));
    for (auto k : s.order)
      if (s.group[k] == myGroup) {
        std::unique_ptr<Task<T>> t(new CaseTask<T>(&s, k, s.f.bnd, s.coeffs[k]));
        t->setID(k);
        worker->initializeTask(std::move(t));
      }
    worker->initCombinedDSGVector();
    set = subspacesOf(*worker);
  }
  {
    std::vector<int> flat;
    for (auto& l : set) flat.insert(flat.end(), l.begin(), l.end());
    int n = static_cast<int>(flat.size());
    MPI_Bcast(&n, 1, MPI_INT, 0, MPI_COMM_WORLD);
    flat.resize(static_cast<size_t>(n));
    MPI_Bcast(flat.data(), n, MPI_INT, 0, MPI_COMM_WORLD);
    std::set<LV> all;
    for (size_t i = 0; i < flat.size(); i += s.lmin.size())
      all.insert(LV(flat.begin() + static_cast<long>(i), flat.begin() + static_cast<long>(i + s.lmin.size())));
    if (in) c.check(set == all, "systems disagree on the subspaces of the sparse grid");
    set = all;
  }
  // sizes: the library writes and waits in one call, so all transfers of sizes are late ones
  {
    std::vector<std::string> files, tokens;
    for (int i : others) {
      files.push_back(name("sizes", i, 0));
      tokens.push_back(name("token_sizes", i, 0));
    }
    if (in) {
      const int n = worker->reduceExtraSubspaceSizesFileBased(name("sizes", sys, 0), name("token_sizes", sys, 0), files, tokens);
      OUTPUT_GROUP_EXCLUSIVE_SECTION {
        c.checkf(n > 0, [&](std::ostream& os) { os << n << " subspace sizes reduced"; });
      }
    } else if (me == transporter) {
      // wait for each system's token, then deliver
      auto todo = sizeMoves;
      while (!todo.empty()) {
        for (size_t i = 0; i < todo.size(); ++i) {
          auto from = base + std::to_string(todo[i].from) + "/", to = base + std::to_string(todo[i].to) + "/";
          auto tok = name("token_sizes", todo[i].from, 0), dat = name("sizes", todo[i].from, 0);
          if (!fs::exists(from + tok)) continue;
          fs::copy_file(from + dat, to + dat, fs::copy_options::overwrite_existing);
          fs::copy_file(from + tok, to + tok, fs::copy_options::overwrite_existing);
          todo.erase(todo.begin() + static_cast<long>(i));
          break;
        }
        usleep(500);
      }
    }
    if (in) worker->zeroDsgsData();
  }
  for (int r = 0; r < rounds && !anyFailed(c); ++r) {
    auto rr = static_cast<size_t>(r);
    CaseTask<T>::action() = acts[rr];
    model.act(acts[rr]);
    model.combine(set);
    const double tol = model.tol(acts[rr].kind == 1 ? 0 : r);
    if (in) {
      worker->runAllTasks();
      worker->combineSystemWideAndWrite(name("sg", sys, r), name("sg", sys, r) + "_token");
    }
    ferry(moves[rr], "sg", r);
    if (in) {
      std::vector<std::string> files, tokens;
      for (int i : others) {
        files.push_back(name("sg", i, r));
        tokens.push_back(name("sg", i, r) + "_token");
      }
      worker->combineReadDistributeSystemWide(files, tokens, false, keep);
      for (auto& t : worker->getTasks()) {
        auto k = static_cast<CaseTask<T>*>(t.get())->grid();
        compareLocal(c, s.specs[k], model.nodal[k][0], static_cast<CaseTask<T>*>(t.get())->getDistributedFullGrid(0), tol,
                     "after exchange " + std::to_string(r) + ", grid " + ref::str(s.levels[k]) + " of system " + std::to_string(sys));
      }
      MPI_Barrier(comm);
      if (theMPISystem()->getWorldRank() == 0)
        for (auto& e : fs::directory_iterator(".")) {
          auto n = e.path().filename().string();
          for (int i : others)
            c.checkf(n.rfind(name("sg", i, r), 0) != 0 || (keep && n.find("token") == std::string::npos),
                     [&](std::ostream& os) { os << "file " << n << " was read but not removed"; });
        }
    }
  }
  if (in) {
    worker->exit();
    worker.reset();
    if (chdir(c.scratch.c_str()) != 0) c.fail("harness: chdir back");
  }
  MPI_Barrier(MPI_COMM_WORLD);
  if (comm != MPI_COMM_NULL) forgetCommunicator();
  if (me == transporter)
    for (int i = 0; i < nsys; ++i) fs::remove_all(base + std::to_string(i));
  omp_set_num_threads(1);
}
template <typename T>
void small(Gen& g, Ctx& c) { systems<T>(g, c, false); }
template <typename T>
void large(Gen& g, Ctx& c) { systems<T>(g, c, true); }
}  // namespace

int main(int argc, char** argv) {
  pbt::Driver d;
  std::string prop = argc > 1 ? argv[1] : "";
  Stats::initialize();
  if (prop == "C17") {
    d.add("systems_double", 12, small<double>);
    d.add("systems_complex_float", 4, small<std::complex<float>>);
    d.add("systems_large", 1, large<double>);
  } else {
    return 9;
  }
  return d.main(argc - 1, argv + 1);
}
