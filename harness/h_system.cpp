// C16: communicators and roles for every layout, histories of re-initialisations.
#include <mpi.h>

#include <algorithm>
#include <numeric>
#include <sstream>

#include "mpi/MPISystem.hpp"
#include "common/pbt.hpp"
#include "utils/Stats.hpp"

using namespace combigrid;
using pbt::Ctx;
using pbt::Gen;

namespace {
struct Round {
  int ngroup, nprocs;
  bool manager;
  std::vector<int> world;  // MPI_COMM_WORLD ranks in order of the world communicator of this round
  std::vector<int> parts;  // subsequent calls of initOutputGroupComm
  bool wrong;              // first try with a wrong number of processes
};

std::vector<int> members(MPI_Comm comm) {
  std::vector<int> r;
  if (comm == MPI_COMM_NULL) return r;
  MPI_Group g, w;
  MPI_Comm_group(comm, &g);
  MPI_Comm_group(MPI_COMM_WORLD, &w);
  int n;
  MPI_Group_size(g, &n);
  std::vector<int> a(n);
  r.resize(n);
  std::iota(a.begin(), a.end(), 0);
  MPI_Group_translate_ranks(g, n, a.data(), w, r.data());
  MPI_Group_free(&g);
  MPI_Group_free(&w);
  return r;
}
std::string str(const std::vector<int>& v) {
  std::string s = "(";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
  return s + ")";
}

void checkRound(Ctx& c, const Round& r, int round) {
  auto sys = theMPISystem();
  const int n = r.ngroup * r.nprocs;
  const int me = pbt::worldRank();
  const int wr = static_cast<int>(std::find(r.world.begin(), r.world.end(), me) - r.world.begin());
  const bool mgr = r.manager && wr == n;
  const int grp = mgr ? -1 : wr / r.nprocs, loc = mgr ? -1 : wr % r.nprocs;
  auto at = [&](const std::vector<int>& worldRanks) {
    std::vector<int> v;
    for (int x : worldRanks) v.push_back(r.world[x]);
    return v;
  };
  auto expect = [&](MPI_Comm comm, const std::vector<int>& worldRanks, const char* what) {
    auto got = members(comm), want = at(worldRanks);
    c.checkf(got == want, [&](std::ostream& o) {
      o << "round " << round << ", world rank " << wr << ": members of " << what << " are " << str(got) << ", expected "
        << str(want);
    });
  };
  auto equal = [&](long got, long want, const char* what) {
    c.checkf(got == want, [&](std::ostream& o) {
      o << "round " << round << ", world rank " << wr << ": " << what << " is " << got << ", expected " << want;
    });
  };
  // world
  std::vector<int> all(r.world.size());
  std::iota(all.begin(), all.end(), 0);
  expect(sys->getWorldComm(), all, "the world communicator");
  equal(sys->getWorldRank(), wr, "world rank");
  equal(sys->getWorldSize(), static_cast<long>(r.world.size()), "world size");
  equal(static_cast<long>(sys->getNumGroups()), r.ngroup, "number of groups");
  equal(static_cast<long>(sys->getNumProcs()), r.nprocs, "number of processes per group");
  equal(sys->isWorldManager(), mgr, "being the manager");
  if (r.manager) equal(sys->getManagerRankWorld(), n, "manager's world rank");
  equal(sys->getProcessGroupNumber(), grp, "group number");
  // group
  std::vector<int> group, reduce, masters, third;
  if (!mgr)
    for (int p = 0; p < r.nprocs; ++p) group.push_back(grp * r.nprocs + p);
  expect(sys->getLocalComm(), group, "the group's communicator");
  if (!mgr) {
    equal(sys->getLocalRank(), loc, "rank in the group");
    equal(sys->getMasterRank(), 0, "master's rank");
  }
  equal(sys->isProcessGroupMaster(), !mgr && loc == 0, "being group master");
  // global: masters and manager
  for (int g = 0; g < r.ngroup; ++g) masters.push_back(g * r.nprocs);
  if (r.manager) masters.push_back(n);
  const bool inGlobal = mgr || loc == 0;
  expect(sys->getGlobalComm(), inGlobal ? masters : std::vector<int>{}, "the global communicator");
  if (inGlobal) {
    equal(sys->getGlobalRank(), mgr ? r.ngroup : grp, "rank among the masters");
    if (r.manager) equal(sys->getManagerRank(), r.ngroup, "manager's rank among the masters");
  }
  // reduction between groups
  if (!mgr)
    for (int g = 0; g < r.ngroup; ++g) reduce.push_back(g * r.nprocs + loc);
  expect(sys->getGlobalReduceComm(), reduce, "the reduction communicator");
  if (!mgr) equal(sys->getGlobalReduceRank(), grp, "rank in the reduction communicator");
  // manager to each group
  const auto& tl = sys->getThirdLevelComms();
  equal(static_cast<long>(tl.size()), !r.manager ? 0 : mgr ? r.ngroup : 1, "number of manager-group communicators");
  if (r.manager && static_cast<int>(tl.size()) == (mgr ? r.ngroup : 1)) {
    for (size_t i = 0; i < tl.size(); ++i) {
      std::vector<int> m;
      const int g = mgr ? static_cast<int>(i) : grp;
      for (int p = 0; p < r.nprocs; ++p) m.push_back(g * r.nprocs + p);
      m.push_back(n);
      expect(tl[i], m, "a manager-group communicator");
    }
    equal(sys->getThirdLevelManagerRank(), r.nprocs, "manager's rank towards a group");
    equal(sys->isThirdLevelManager(), mgr, "being manager towards groups");
  }
}

// output group: one process per rank-in-group, spread over groups; split into equal file parts
void checkOutput(Ctx& c, const Round& r, int round, int parts) {
  auto sys = theMPISystem();
  const int n = r.ngroup * r.nprocs;
  const int me = pbt::worldRank();
  const int wr = static_cast<int>(std::find(r.world.begin(), r.world.end(), me) - r.world.begin());
  const bool mgr = r.manager && wr == n;
  auto where = [&](std::ostream& o) -> std::ostream& {
    return o << "round " << round << ", world rank " << wr << ", " << parts << " file parts: ";
  };
  MPI_Comm og = sys->getOutputGroupComm();
  const bool in = og != MPI_COMM_NULL;
  int mine[3] = {in ? 1 : 0, mgr ? -1 : wr % r.nprocs, in ? sys->getOutputGroupRank() : -1};
  MPI_Comm world = sys->getWorldComm();
  std::vector<int> allv(3 * r.world.size());
  MPI_Allgather(mine, 3, MPI_INT, allv.data(), 3, MPI_INT, world);
  std::vector<int> want(r.nprocs, -1);
  bool once = true;
  for (size_t i = 0; i < r.world.size(); ++i)
    if (allv[3 * i]) {
      const int l = allv[3 * i + 1];
      if (l < 0 || want[l] >= 0) {
        once = false;
      } else {
        want[l] = static_cast<int>(i);
        c.checkf(allv[3 * i + 2] == l, [&](std::ostream& o) {
          where(o) << "output group rank " << allv[3 * i + 2] << " of a process with group rank " << l;
        });
      }
    }
  for (int w : want) once = once && w >= 0;
  c.checkf(once, [&](std::ostream& o) { where(o) << "output group does not cover every group rank exactly once"; });
  if (!once) return;
  // spread evenly
  std::vector<int> cnt(r.ngroup, 0);
  for (int w : want) cnt[w / r.nprocs]++;
  auto mm = std::minmax_element(cnt.begin(), cnt.end());
  c.checkf(*mm.second - *mm.first <= 1, [&](std::ostream& o) { where(o) << "output unevenly spread: " << str(cnt); });
  if (!mgr)
    c.checkf(want[wr % r.nprocs] / r.nprocs == sys->getOutputRankInGlobalReduceComm(), [&](std::ostream& o) {
      where(o) << "output rank in the reduction communicator is " << sys->getOutputRankInGlobalReduceComm()
               << ", but the member of the output group is in group " << want[wr % r.nprocs] / r.nprocs;
    });
  std::vector<int> orig;
  for (int w : want) orig.push_back(r.world[w]);
  if (in) {
    auto got = members(og);
    c.checkf(got == orig, [&](std::ostream& o) { where(o) << "output group is " << str(got) << ", not " << str(orig); });
    const int per = r.nprocs / parts, part = (wr % r.nprocs) / per;
    std::vector<int> po(orig.begin() + part * per, orig.begin() + (part + 1) * per);
    auto gp = members(sys->getOutputComm());
    c.checkf(gp == po, [&](std::ostream& o) { where(o) << "output part is " << str(gp) << ", expected " << str(po); });
    c.checkf(sys->getFilePartNumber() == part,
             [&](std::ostream& o) { where(o) << "file part number " << sys->getFilePartNumber() << " not " << part; });
    bool root = false;
    OUTPUT_ROOT_EXCLUSIVE_SECTION { root = true; }
    c.checkf(root == ((wr % r.nprocs) % per == 0), [&](std::ostream& o) { where(o) << "output root role wrong"; });
    // the parts do not hear each other
    if (gp == po) {
      int sum = 0, one = wr + 1, ref = 0;
      MPI_Allreduce(&one, &sum, 1, MPI_INT, MPI_SUM, sys->getOutputComm());
      for (int i = part * per; i < (part + 1) * per; ++i) ref += want[i] + 1;
      c.checkf(sum == ref, [&](std::ostream& o) { where(o) << "sum over the output part"; });
    }
  } else {
    bool threw = false;
    try {
      sys->getOutputComm();
    } catch (const std::runtime_error&) {
      threw = true;
    }
    c.checkf(threw, [&](std::ostream& o) { where(o) << "a process outside the output group got an output communicator"; });
  }
}

void layouts(Gen& g, Ctx& c) {
  const int W = pbt::worldSize();
  const int rounds = 1 + static_cast<int>(g.draw(3));
  std::vector<Round> rs;
  std::ostringstream os;
  for (int i = 0; i < rounds; ++i) {
    Round r;
    r.manager = g.chance(40);
    const int maxw = W - (r.manager ? 1 : 0);
    r.ngroup = 1 + static_cast<int>(g.draw(g.chance(70) ? std::min(4, maxw) : maxw));
    r.nprocs = 1 + static_cast<int>(g.draw(maxw / r.ngroup));
    const int size = r.ngroup * r.nprocs + (r.manager ? 1 : 0);
    r.world.resize(W);
    std::iota(r.world.begin(), r.world.end(), 0);
    if (g.chance(60)) g.shuffle(r.world);
    r.world.resize(size);
    const int np = static_cast<int>(g.draw(3));
    std::vector<int> divs;
    for (int d = 1; d <= r.nprocs; ++d)
      if (r.nprocs % d == 0) divs.push_back(d);
    for (int k = 0; k < np; ++k) r.parts.push_back(divs[g.draw(divs.size())]);
    r.wrong = g.chance(10);
    os << (i ? "; " : "") << r.ngroup << "x" << r.nprocs << (r.manager ? "+manager" : "") << " world=" << str(r.world)
       << " parts=" << str(r.parts) << (r.wrong ? " wrong-size-first" : "");
    rs.push_back(r);
  }
  c.desc << os.str();
  if (rs[0].ngroup > 1 && rs[0].nprocs > 1) {
    c.nontrivial = true;
    c.label("grid_of_processes");
  }
  const int me = pbt::worldRank();
  for (int i = 0; i < rounds; ++i) {
    const auto& r = rs[i];
    auto it = std::find(r.world.begin(), r.world.end(), me);
    MPI_Comm comm;
    MPI_Comm_split(MPI_COMM_WORLD, it == r.world.end() ? MPI_UNDEFINED : 0, static_cast<int>(it - r.world.begin()), &comm);
    if (comm == MPI_COMM_NULL) continue;
    auto sys = theMPISystem();
    if (r.wrong) {
      bool threw = false;
      try {
        sys->initWorldReusable(comm, static_cast<size_t>(r.ngroup) + 1, static_cast<size_t>(r.nprocs) + 1, r.manager,
                               false);
      } catch (const std::invalid_argument&) {
        threw = true;
      }
      c.check(threw, "a layout that does not match the number of processes was accepted");
      if (!threw) continue;
    }
    sys->initWorldReusable(comm, static_cast<size_t>(r.ngroup), static_cast<size_t>(r.nprocs), r.manager, false);
    checkRound(c, r, i);
    checkOutput(c, r, i, 1);
    for (int p : r.parts) {
      sys->initOutputGroupComm(static_cast<uint16_t>(p));
      checkOutput(c, r, i, p);
      checkRound(c, r, i);
    }
  }
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Driver d;
  std::string prop = argc > 1 ? argv[1] : "";
  if (prop == "C16") {
    d.add("layouts", 1, layouts);
  } else {
    return 9;
  }
  return d.main(argc - 1, argv + 1);
}
