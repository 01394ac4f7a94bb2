// C14: recombination after the loss of component grids; static fault injection.
#include <glpk.h>
#include <mpi.h>

#include <algorithm>
#include <cmath>
#include <iostream>
#include <map>
#include <numeric>
#include <set>
#include <sstream>

#include "combischeme/CombiMinMaxScheme.hpp"
#include "common/pbt.hpp"
#include "common/recombination.hpp"
#include "fault_tolerance/FTUtils.hpp"
#include "fault_tolerance/LPOptimizationInterpolation.hpp"
#include "fault_tolerance/StaticFaults.hpp"
#include "fault_tolerance/WeibullFaults.hpp"

using namespace combigrid;
using pbt::Ctx;
using pbt::Gen;
using namespace ft;

namespace {
struct Silence {
  std::ostringstream sink;
  std::streambuf* old;
  Silence() : old(std::cout.rdbuf(sink.rdbuf())) {}
  ~Silence() { std::cout.rdbuf(old); }
};

void recombine(Gen& g, Ctx& c) {
  int dim = g.irange(1, 5);
  Levels lmin(static_cast<size_t>(dim)), lmax(static_cast<size_t>(dim));
  std::vector<char> active(static_cast<size_t>(dim), 1);
  int eff = 0;
  for (int d = 0; d < dim; ++d) {
    lmin[static_cast<size_t>(d)] = g.irange(1, 3);
    if (g.chance(15)) active[static_cast<size_t>(d)] = 0;
    eff += active[static_cast<size_t>(d)];
  }
  if (eff == 0) {
    active[0] = 1;
    eff = 1;
  }
  int maxC = eff == 1 ? 6 : eff == 2 ? 6 : eff == 3 ? 4 : eff == 4 ? 3 : 2;
  int diff = g.irange(1, maxC);
  for (size_t d = 0; d < lmin.size(); ++d) lmax[d] = lmin[d] + (active[d] ? diff : 0);
  // the scheme, as an application sets it up
  CombiMinMaxScheme scheme(static_cast<DimType>(dim), conv(lmin), conv(lmax));
  bool classical = g.boolean();
  if (classical)
    scheme.createClassicalCombischeme();
  else
    scheme.createAdaptiveCombischeme();
  scheme.makeFaultTolerant();
  std::map<Levels, double> given;
  CombigridDict dict;
  auto& spaces = scheme.getCombiSpaces();
  auto& coeffs = scheme.getCoeffs();
  for (size_t i = 0; i < spaces.size(); ++i) {
    given[conv(spaces[i])] = coeffs[i];
    dict[spaces[i]] = coeffs[i];
  }
  c.check(given.size() == spaces.size(), "a grid occurs twice in the fault tolerant scheme");
  // lost grids
  std::vector<Levels> all;
  for (auto& x : given) all.push_back(x.first);
  g.shuffle(all);
  int top = sum(lmin) + diff;
  std::vector<Levels> lost;
  int mode = g.irange(0, 4);
  size_t want = mode == 0 ? 0 : 1 + g.draw(mode == 1 ? 1 : std::min<size_t>(all.size(), 6));
  if (mode == 4) {  // whole diagonal
    int s = top - g.irange(0, 1);
    for (auto& l : all)
      if (sum(l) == s && lost.size() < 12) lost.push_back(l);
  }
  for (auto& l : all) {
    if (lost.size() >= want) break;
    if (std::find(lost.begin(), lost.end(), l) != lost.end()) continue;
    if (mode == 2 && sum(l) < top - 1) continue;
    lost.push_back(l);
  }
  c.desc << (classical ? "classical" : "adaptive") << " lmin " << str(lmin) << " lmax " << str(lmax) << ", " << given.size() << " grids, lost:";
  for (auto& l : lost) c.desc << " " << str(l);
  std::vector<Levels> relevant, lower;
  for (auto& l : lost) (sum(l) >= top - 1 ? relevant : lower).push_back(l);
  c.nontrivial = !relevant.empty() && given.size() > 2;
  c.label(relevant.empty() ? "no relevant fault" : lower.empty() ? "faults on the finest diagonals" : "also faults on lower diagonals");

  LevelVectorList minmax{conv(lmin), conv(lmax)}, faults;
  for (auto& l : lost) faults.push_back(conv(l));
  std::map<Levels, double> result;
  std::vector<Levels> recompute;
  int numFaults;
  {
    Silence s;
    LP_OPT_INTERP opt(minmax, dim, GLP_MAX, dict, faults);
    numFaults = opt.getNumFaults();
    if (numFaults != 0) {
      opt.init_opti_prob("lost grids");
      opt.set_constr_matrix();
      opt.solve_opti_problem();
      LevelVectorList rec;
      auto out = opt.get_results(rec);
      for (auto& x : out) result[conv(x.first)] = x.second;
      for (auto& x : rec) recompute.push_back(conv(x));
    }
  }
  c.checkf(numFaults == static_cast<int>(relevant.size()), [&](std::ostream& o) { o << "number of faults to be treated " << numFaults << ", expected " << relevant.size(); });
  if (c.failed || numFaults == 0) return;

  checkRecombination(c, lmin, diff, active, given, relevant, lower, result, recompute);
}

void inject(Gen& g, Ctx& c) {
  size_t n = g.draw(6);
  FaultsInfo info;
  info.numFaults_ = static_cast<int>(n);
  std::set<std::pair<int, int>> at;
  for (size_t i = 0; i < n; ++i) {
    int it = g.irange(0, 4), r = g.irange(0, 4);
    info.iterationFaults_.push_back(it);
    info.globalRankFaults_.push_back(r);
    at.insert({it, r});
  }
  c.desc << "static faults (iteration, rank):";
  for (auto& x : at) c.desc << " " << x.first << "," << x.second;
  c.nontrivial = n > 1;
  StaticFaults f(info);
  FaultCriterion& crit = f;
  for (int it = 0; it < 6; ++it)
    for (int r = 0; r < 6; ++r)
      c.checkf(crit.failNow(it, 0.5, r) == (at.count({it, r}) == 1), [&](std::ostream& o) { o << "rank " << r << " in iteration " << it; });
  // faults at a given time, with the master processes included
  Silence s;
  int combis = g.irange(2, 5);
  WeibullFaults w(0.7, 1000., combis, true);
  double t = g.boolean() ? 0. : 1e6;
  auto start = std::chrono::high_resolution_clock::now() - std::chrono::seconds(10);
  c.check(static_cast<FaultCriterion&>(w).init(start, t) == t, "time of the fault");
  for (int it = 0; it < combis; ++it)
    c.checkf(static_cast<FaultCriterion&>(w).failNow(it, 0.5, 1) == (t == 0. && it < combis - 1), [&](std::ostream& o) { o << "timed fault in iteration " << it; });
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Driver d;
  std::string prop = argc > 1 ? argv[1] : "";
  if (prop != "C14") return 9;
  glp_term_out(GLP_OFF);
  d.add("recombine", 10, recombine);
  d.add("inject", 1, inject);
  return d.main(argc - 1, argv + 1);
}
