// C15: load models and rescheduling; C18: timer output.
#include <mpi.h>
#include <sys/stat.h>
#include <unistd.h>

#include <cctype>
#include <chrono>
#include <fstream>
#include <map>
#include <numeric>
#include <thread>

#include "common/pbt.hpp"
#include "loadmodel/AnisotropyLoadModel.hpp"
#include "loadmodel/AverageOfLastNLoadModel.hpp"
#include "loadmodel/AveragingLoadModel.hpp"
#include "loadmodel/LinearLoadModel.hpp"
#include "rescheduler/RebalancingTaskRescheduler.hpp"
#include "rescheduler/StaticTaskRescheduler.hpp"
#include "utils/Stats.hpp"

using namespace combigrid;
using pbt::Ctx;
using pbt::Gen;

namespace {
std::string str(const LevelVector& l) {
  std::string s;
  for (auto x : l) s += (s.empty() ? "" : ",") + std::to_string(static_cast<int>(x));
  return s;
}

LevelVector genLevel(Gen& g, int dim, int maxl) {
  LevelVector l;
  for (int d = 0; d < dim; ++d) l.push_back(static_cast<LevelType>(g.irange(1, maxl)));
  return l;
}

std::vector<LevelVector> genLevels(Gen& g, size_t n, int dim) {
  std::set<LevelVector> s;
  for (size_t i = 0; i < 4 * n && s.size() < n; ++i) s.insert(genLevel(g, dim, 6));
  std::vector<LevelVector> v(s.begin(), s.end());
  g.shuffle(v);
  return v;
}

unsigned long genDuration(Gen& g, int kind) {
  switch (kind) {
    case 0: return static_cast<unsigned long>(g.irange(0, 3));
    case 1: return static_cast<unsigned long>(g.irange(0, 1000));
    case 2: return static_cast<unsigned long>(g.irange(100000, 200000));
    case 3: return 1000000ul * static_cast<unsigned long>(g.irange(1, 1000000));
    default: return 100000000ul * static_cast<unsigned long>(g.irange(15, 40));  // around the limit of int
  }
}

DurationInformation info(unsigned long duration) {
  DurationInformation d;
  d.task_id = 0;
  d.duration = duration;
  d.simtime_now = 0.25;
  d.real_dt = 0.5;
  d.pgroup_id = 1;
  d.nProcesses = 2;
  return d;
}

// ------------------------------------------------------------------------------------------------
void staticModels(Gen& g, Ctx& c) {
  int dim = g.irange(1, 8);
  auto l = genLevel(g, dim, g.pick<int>({3, 7, 15}));
  c.desc << "static load models, level " << str(l);
  c.nontrivial = dim > 1;
  LinearLoadModel m;
  int sum = 0;
  for (auto x : l) sum += x;
  c.check(m.eval(l) == std::ldexp(1., sum), "linear load model is the number of points");
  auto k = l;
  size_t d = g.draw(k.size());
  k[d] = static_cast<LevelType>(k[d] + g.irange(1, 3));
  c.check(m.eval(k) > m.eval(l), "a larger grid has a larger load");
  if (dim >= 4) {
    AnisotropyLoadModel a;
    const double v = a.eval(l);
    c.check(std::isfinite(v), "anisotropy load model is finite");
    // scaling all levels keeps the anisotropy: the load grows
    auto twice = l;
    for (auto& x : twice) x = static_cast<LevelType>(2 * x);
    c.check(v < 0 || a.eval(twice) > v, "a refined grid has a larger load");
  }
}

// model: the last n durations of every grid
void lastN(Gen& g, Ctx& c) {
  int dim = g.irange(1, 4);
  unsigned n = static_cast<unsigned>(g.pick<int>({1, 1, 2, 3, 5, 10}));
  auto levels = genLevels(g, g.range(1, 5), dim);
  c.desc << "average of last " << n << ", " << levels.size() << " grids:";
  AverageOfLastNLoadModel m(n, levels, std::unique_ptr<LoadModel>(new LinearLoadModel()));
  MicrocsecondsLearningLoadModel& u = m;
  std::map<LevelVector, std::vector<unsigned long>> hist;
  int ops = g.irange(1, 40), kind = g.irange(0, 4);
  bool wrapped = false;
  for (int o = 0; o < ops; ++o) {
    auto& l = levels[g.draw(levels.size())];
    if (g.chance(60)) {
      auto d = genDuration(g, g.chance(20) ? g.irange(0, 4) : kind);
      m.addDurationInformation(info(d), l);
      hist[l].push_back(d);
      wrapped = wrapped || hist[l].size() > n;
      if (o < 6) c.desc << " +" << d;
    }
    auto& q = levels[g.draw(levels.size())];
    auto& h = hist[q];
    if (h.empty()) {
      c.check(m.eval(q) == LinearLoadModel().eval(q), "the fallback model is used without history");
      c.check(u.evalSpecificUOT(q).count() == 0, "no duration without history");
    } else {
      unsigned long s = 0, k = std::min<unsigned long>(n, h.size());
      for (size_t i = h.size() - k; i < h.size(); ++i) s += h[i];
      // the average, rounded either way to full microseconds
      const double e = static_cast<double>(s) / static_cast<double>(k);
      c.checkf(std::abs(static_cast<double>(u.evalSpecificUOT(q).count()) - e) <= 1. + 1e-12 * e,
               [&](std::ostream& os) { os << "expected duration " << u.evalSpecificUOT(q).count() << " instead of " << e; });
      c.checkf(std::abs(m.eval(q) - e) <= 1. + 1e-12 * e,
               [&](std::ostream& os) { os << "expected load " << m.eval(q) << " instead of " << e; });
    }
  }
  c.nontrivial = wrapped;
}

void averaging(Gen& g, Ctx& c) {
  int dim = g.irange(1, 4);
  auto levels = genLevels(g, g.range(1, 3), dim);
  int sessions = g.irange(1, 3), kind = g.irange(0, 3);
  c.desc << "averaging model with files, " << levels.size() << " grids, " << sessions << " sessions:";
  std::string dir = c.scratch + "/avg" + std::to_string(c.caseNo);
  mkdir(dir.c_str(), 0755);
  if (chdir(dir.c_str()) != 0) {
    c.fail("harness: chdir");
    return;
  }
  std::map<LevelVector, std::vector<unsigned long>> all;
  for (int s = 0; s < sessions; ++s) {
    AveragingLoadModel m(levels);
    LearningLoadModel& lm = m;
    LoadModel& em = m;
    std::map<LevelVector, std::vector<unsigned long>> now;
    auto before = all;
    for (auto& l : levels) {
      int n = g.chance(20) ? 0 : g.chance(15) ? g.irange(40, 130) : g.irange(1, 10);
      c.desc << " " << n;
      for (int i = 0; i <= n; ++i) {
        auto& h = now[l];
        if (h.empty()) {
          const double e = em.eval(l);
          if (before[l].empty()) {
            c.check(e == LinearLoadModel().eval(l), "the linear model is used without any history");
          } else {
            const double sum = static_cast<double>(std::accumulate(before[l].begin(), before[l].end(), 0ul));
            const double a = sum / static_cast<double>(before[l].size());
            c.checkf(std::abs(e - a) <= 1. + 1e-12 * a, [&](std::ostream& os) {
              os << "average " << e << " of the earlier runs' durations instead of " << a;
            });
            c.nontrivial = true;
          }
        } else {
          const double e = em.eval(l);
          const auto mm = std::minmax_element(h.begin(), h.end());
          c.check(e >= static_cast<double>(*mm.first) * (1. - 1e-12) && e <= static_cast<double>(*mm.second) * (1. + 1e-12),
                  "the estimate lies between the recorded durations");
          if (h.size() <= 50) {
            const double sum = static_cast<double>(std::accumulate(h.begin(), h.end(), 0ul));
            c.check(std::abs(e - sum / static_cast<double>(h.size())) <= 1. + 1e-12 * e,
                    "the estimate is the average of this run's durations");
          }
        }
        if (i < n) {
          auto d = genDuration(g, kind);
          lm.addDurationInformation(info(d), l);
          h.push_back(d);
          all[l].push_back(d);
        }
      }
    }
  }
  {
    AveragingLoadModel m(levels);
    LoadModel& em = m;
    for (auto& l : levels) {
      auto& h = all[l];
      if (h.empty()) continue;
      const double a = static_cast<double>(std::accumulate(h.begin(), h.end(), 0ul)) / static_cast<double>(h.size());
      c.checkf(std::abs(em.eval(l) - a) <= 1. + 1e-12 * a, [&](std::ostream& os) {
        os << "average " << em.eval(l) << " of all durations on disk instead of " << a;
      });
    }
  }
  for (auto& l : levels) unlink(getFilename(l).c_str());
  if (chdir(c.scratch.c_str()) != 0) c.fail("harness: chdir back");
  rmdir(dir.c_str());
}

// ------------------------------------------------------------------------------------------------
void reschedule(Gen& g, Ctx& c) {
  int dim = g.irange(1, 4);
  int groups = g.irange(1, 6);
  auto levels = genLevels(g, g.range(0, 16), dim);
  unsigned maxIter = static_cast<unsigned>(g.pick<int>({0, 1, 2, 3, 5, 10, 100}));
  double minInb = g.pick<double>({0., 1., 1.05, 1.2, 1.5, 2., 3.});
  int kind = g.irange(0, 4);
  bool skew = g.boolean();
  std::map<LevelVector, int> group;
  std::map<LevelVector, unsigned long> dur;
  AverageOfLastNLoadModel m(1, levels, std::unique_ptr<LoadModel>(new LinearLoadModel()));
  c.desc << "rescheduling, at most " << maxIter << " moves, imbalance " << minInb << ":";
  for (auto& l : levels) {
    group[l] = skew && g.chance(60) ? 0 : g.irange(0, groups - 1);
    dur[l] = genDuration(g, kind);
    m.addDurationInformation(info(dur[l]), l);
    c.desc << " " << group[l] << ":" << dur[l];
  }
  RebalancingTaskRescheduler r(maxIter, minInb);
  auto moves = r.eval(group, dur, &m);

  auto loads = [&](const std::map<LevelVector, int>& a) {
    std::map<int, unsigned long> res;
    for (auto& x : group) res[x.second] += 0;
    for (auto& x : a) res[x.second] += dur[x.first];
    return res;
  };
  auto maxOf = [](const std::map<int, unsigned long>& a) {
    unsigned long mx = 0;
    for (auto& x : a) mx = std::max(mx, x.second);
    return mx;
  };
  auto before = loads(group);
  auto after = group;
  std::set<LevelVector> seen;
  bool ok = true;
  for (auto& mv : moves) {
    ok = ok && group.count(mv.first) && before.count(mv.second) && seen.insert(mv.first).second;
    after[mv.first] = mv.second;
  }
  c.check(ok, "moves of known tasks to existing groups, each at most once");
  c.check(moves.size() <= maxIter, "no more moves than allowed");
  if (!ok || levels.empty()) return;
  c.nontrivial = !moves.empty();
  const unsigned long slow = maxOf(before);
  c.checkf(maxOf(loads(after)) <= slow, [&](std::ostream& os) {
    os << "slowest group takes " << maxOf(loads(after)) << " after rescheduling, " << slow << " before";
  });
  unsigned long sum = 0, fast = ~0ul;
  for (auto& x : before) sum += x.second, fast = std::min(fast, x.second);
  const double avg = static_cast<double>(sum) / static_cast<double>(before.size());
  if (avg >= 2. && static_cast<double>(slow) / (avg - 1.) < minInb * (1. - 1e-9))
    c.check(moves.empty(), "nothing is moved while the imbalance is tolerated");
  // a single move that leaves the receiving group closer to the average than the slowest one is
  if (maxIter > 0 && avg >= 2. && static_cast<double>(slow) / avg > minInb * (1. + 1e-9)) {
    bool all = true;
    for (auto& x : before) {
      if (x.second != slow) continue;
      bool any = false;
      for (auto& t : group)
        any = any || (t.second == x.first && std::abs(static_cast<double>(fast + dur[t.first]) - avg) <
                                                 static_cast<double>(slow) - avg - 3.);
      all = all && any;
    }
    if (all) {
      c.check(!moves.empty(), "an imbalance that a single move reduces is reduced");
      c.label("improvable");
    }
  }
  LinearLoadModel lin;
  c.check(r.eval(group, dur, &lin).empty(), "nothing is moved without a model of durations");
  StaticTaskRescheduler st;
  c.check(st.eval(group, dur, &m).empty(), "the static rescheduler moves nothing");
}

// ------------------------------------------------------------------------------------------------
// minimal strict JSON reader: objects without duplicate keys, arrays, strings, integers
struct Json {
  char kind = '?';  // o, a, s, n
  std::map<std::string, Json> o;
  std::vector<Json> a;
  std::string s;
  long n = 0;
};
struct Parser {
  const std::string& t;
  size_t p = 0;
  std::string err;
  explicit Parser(const std::string& x) : t(x) {}
  void ws() {
    while (p < t.size() && std::isspace(static_cast<unsigned char>(t[p]))) ++p;
  }
  bool fail(const std::string& m) {
    if (err.empty()) err = m + " at " + std::to_string(p) + ": " + t.substr(p > 20 ? p - 20 : 0, 60);
    return false;
  }
  bool eat(char ch) {
    ws();
    if (p >= t.size() || t[p] != ch) return false;
    ++p;
    return true;
  }
  bool string(std::string& out) {
    if (!eat('"')) return fail("string expected");
    out.clear();
    while (p < t.size() && t[p] != '"') {
      if (t[p] == '\\' || static_cast<unsigned char>(t[p]) < 0x20) return fail("character in string");
      out += t[p++];
    }
    if (p >= t.size()) return fail("unterminated string");
    ++p;
    return true;
  }
  bool value(Json& j) {
    ws();
    if (p >= t.size()) return fail("value expected");
    if (t[p] == '{') {
      ++p;
      j.kind = 'o';
      if (eat('}')) return true;
      while (true) {
        std::string k;
        ws();
        if (!string(k)) return false;
        if (!eat(':')) return fail("colon expected");
        if (j.o.count(k)) return fail("duplicate key " + k);
        if (!value(j.o[k])) return false;
        if (eat('}')) return true;
        if (!eat(',')) return fail("comma expected");
      }
    }
    if (t[p] == '[') {
      ++p;
      j.kind = 'a';
      if (eat(']')) return true;
      while (true) {
        j.a.emplace_back();
        if (!value(j.a.back())) return false;
        if (eat(']')) return true;
        if (!eat(',')) return fail("comma expected");
      }
    }
    if (t[p] == '"') {
      j.kind = 's';
      return string(j.s);
    }
    size_t e = p;
    if (e < t.size() && t[e] == '-') ++e;
    size_t b = e;
    while (e < t.size() && std::isdigit(static_cast<unsigned char>(t[e]))) ++e;
    if (e == b) return fail("number expected");
    j.kind = 'n';
    j.n = std::stol(t.substr(p, e - p));
    p = e;
    return true;
  }
  bool document(Json& j) {
    if (!value(j)) return false;
    ws();
    return p == t.size() || fail("text after the document");
  }
};

std::string readAll(const std::string& fn, bool& ok) {
  std::ifstream f(fn);
  ok = static_cast<bool>(f);
  return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}

struct RankLog {
  struct Times {
    long earliest, started, stopping;
  };
  std::map<std::string, std::vector<Times>> finished;  // microseconds, measured around the calls
  std::map<std::string, std::string> attributes;
};

void stats(Gen& g, Ctx& c) {
  using clock = std::chrono::high_resolution_clock;
  static std::map<int, MPI_Comm> comms;
  const int n = g.irange(1, pbt::worldSize());
  if (!comms.count(n)) {
    MPI_Comm s;
    MPI_Comm_split(MPI_COMM_WORLD, pbt::worldRank() < n ? 0 : MPI_UNDEFINED, pbt::worldRank(), &s);
    comms[n] = s;
  }
  MPI_Comm comm = comms[n];
  const bool in = comm != MPI_COMM_NULL;
  const int me = pbt::worldRank();
  const std::string dir = c.scratch + "/st" + std::to_string(c.caseNo);
  if (me == 0) mkdir(dir.c_str(), 0755);
  MPI_Barrier(MPI_COMM_WORLD);
  if (chdir(dir.c_str()) != 0) c.fail("harness: chdir");

  const int ops = g.irange(1, 24);
  c.desc << "timers on " << n << " processes:";
  if (in) Stats::initialize();
  const auto t0 = clock::now();
  auto us = [&] { return std::chrono::duration_cast<std::chrono::microseconds>(clock::now() - t0).count(); };
  RankLog mine;
  std::vector<std::string> open;                                   // stack of running events
  std::map<std::string, long> startedAt, beforeStart;
  std::vector<std::map<std::string, size_t>> model(static_cast<size_t>(n));  // finished events of every rank
  std::vector<std::map<std::string, size_t>> pending(static_cast<size_t>(n));
  std::vector<std::map<std::string, std::string>> attr(static_cast<size_t>(n));
  std::vector<std::vector<std::string>> stack(static_cast<size_t>(n));
  std::vector<Json> parts;
  int numParts = 0;
  bool nested = false;
  const std::string file = "timers" + std::to_string(c.caseNo) + ".json";
  const std::vector<std::string> names = {"run", "combine", "combine hierarchize", "x", "write_9", "combine_local_reduce"};

  auto load = [&](const std::string& fn, const std::vector<std::map<std::string, size_t>>& expected, bool last) {
    MPI_Barrier(MPI_COMM_WORLD);
    bool ok = false;
    std::string text = readAll(fn, ok);
    c.check(ok, "file of timers exists: " + fn);
    if (ok) {
      Json j;
      Parser p(text);
      const bool good = p.document(j);
      c.checkf(good, [&](std::ostream& os) { os << fn << " is not valid JSON: " << p.err; });
      if (good) {
        c.check(j.kind == 'o' && j.o.size() == static_cast<size_t>(n), "one entry per process");
        for (int r = 0; r < n; ++r) {
          const std::string key = "rank" + std::to_string(r);
          c.check(j.o.count(key) == 1, "entry of " + key);
          if (!j.o.count(key)) continue;
          auto& e = j.o[key];
          c.check(e.o.count("attributes") && e.o.count("events"), "attributes and events of " + key);
          auto& at = e.o["attributes"].o;
          bool same = at.size() == attr[static_cast<size_t>(r)].size();
          for (auto& x : attr[static_cast<size_t>(r)]) same = same && at.count(x.first) && at[x.first].s == x.second;
          c.checkf(same, [&](std::ostream& os) { os << "attributes of " << key << " in " << fn; });
          auto& ev = e.o["events"].o;
          std::map<std::string, size_t> got;
          for (auto& x : ev) {
            if (!x.second.a.empty()) got[x.first] = x.second.a.size();
            long prev = -1;
            for (auto& y : x.second.a) {
              const bool pair = y.a.size() == 2;
              c.check(pair, "an event has a start and an end");
              if (!pair) continue;
              c.checkf(y.a[0].n >= 0 && y.a[0].n <= y.a[1].n, [&](std::ostream& os) {
                os << "event " << x.first << " of " << key << " from " << y.a[0].n << " to " << y.a[1].n;
              });
              c.check(y.a[0].n >= prev, "events of one name in the order they were started");
              prev = y.a[0].n;
            }
          }
          c.checkf(got == expected[static_cast<size_t>(r)], [&](std::ostream& os) {
            os << fn << ", " << key << ": events";
            for (auto& x : got) os << " " << x.first << "*" << x.second;
            os << " instead of";
            for (auto& x : expected[static_cast<size_t>(r)]) os << " " << x.first << "*" << x.second;
          });
          // times of my own events as measured around the calls
          if (last && r == me && got == expected[static_cast<size_t>(r)]) {
            bool times = true;
            for (auto& x : mine.finished)
              for (size_t i = 0; i < x.second.size(); ++i) {
                const long b = ev[x.first].a[i].a[0].n, f = ev[x.first].a[i].a[1].n;
                // (the origin of the timers lies before mine)
                const auto& t = x.second[i];
                times = times && f - b + 2 >= t.stopping - t.started && b + 2 >= t.earliest;
              }
            c.check(times, "the times are those of the recorded events");
          }
        }
      }
    }
    MPI_Barrier(MPI_COMM_WORLD);
    if (me == 0) unlink(fn.c_str());
  };
  for (int o = 0; o < ops; ++o) {
    const size_t r = g.draw(static_cast<uint64_t>(n));
    const bool all = g.chance(25);
    const int what = g.irange(0, 9);
    if (what <= 6) {  // start or stop an event on one or all ranks
      const std::string name = names[g.draw(names.size())];
      const bool stop = g.boolean();
      for (size_t q = 0; q < static_cast<size_t>(n); ++q) {
        if (!all && q != r) continue;
        auto& st = stack[q];
        const bool running = std::find(st.begin(), st.end(), name) != st.end();
        const bool doStop = (stop && !st.empty()) || running;
        const std::string which = doStop ? st.back() : name;
        if (doStop) {
          st.pop_back();
          model[q][which] += 1;
          pending[q][which] += 1;
        } else {
          nested = nested || !st.empty();
          st.push_back(which);
        }
        if (static_cast<int>(q) == me) {
          if (doStop) {
            // nothing finishes within one tick of the clock
            const auto w = clock::now();
            while (clock::now() - w < std::chrono::microseconds(1)) {
            }
            const long before = us();
            auto ev = Stats::stopEvent(which);
            mine.finished[which].push_back({beforeStart[which], startedAt[which], before});
            c.check(ev.end > ev.start, "a stopped event has a duration");
            c.check(static_cast<long>(Stats::getEventDurationInUsec(ev)) + 2 >= before - startedAt[which],
                    "duration of the event");
          } else {
            beforeStart[which] = us();
            Stats::startEvent(which);
            startedAt[which] = us();
          }
        }
        if (o < 8) c.desc << " " << (doStop ? "-" : "+") << which << "@" << q;
      }
    } else if (what <= 8) {
      const std::string name = "a" + std::to_string(g.irange(0, 3)), value = "v_" + std::to_string(g.irange(0, 1000000));
      for (size_t q = 0; q < static_cast<size_t>(n); ++q) {
        if (!all && q != r) continue;
        attr[q][name] = value;
        if (static_cast<int>(q) == me) Stats::setAttribute(name, value);
      }
    } else {
      c.desc << " write part " << numParts;
      if (in) Stats::writePartial(file, comm);
      load(std::to_string(numParts) + "_" + file, pending, false);
      for (auto& p : pending) p.clear();
      ++numParts;
    }
  }
  // finish whatever runs
  for (size_t q = 0; q < static_cast<size_t>(n); ++q)
    while (!stack[q].empty()) {
      const std::string which = stack[q].back();
      stack[q].pop_back();
      model[q][which] += 1;
      pending[q][which] += 1;
      if (static_cast<int>(q) == me) {
        const auto w = clock::now();
        while (clock::now() - w < std::chrono::microseconds(1)) {
        }
        const long before = us();
        Stats::stopEvent(which);
        mine.finished[which].push_back({beforeStart[which], startedAt[which], before});
      }
    }
  c.nontrivial = nested && n > 1;
  if (g.boolean()) {
    if (in) Stats::writePartial(file, comm);
    load(std::to_string(numParts) + "_" + file, pending, false);
  }
  if (in) {
    Stats::finalize();
    Stats::write(file, comm);
  }
  load(file, model, true);
  if (chdir(c.scratch.c_str()) != 0) c.fail("harness: chdir back");
  MPI_Barrier(MPI_COMM_WORLD);
  if (me == 0) rmdir(dir.c_str());
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Driver d;
  std::string prop = argc > 1 ? argv[1] : "";
  if (prop == "C15") {
    d.add("static", 1, staticModels);
    d.add("last_n", 3, lastN);
    d.add("averaging", 1, averaging);
    d.add("reschedule", 6, reschedule);
  } else if (prop == "C18") {
    d.add("stats", 1, stats);
  } else {
    return 9;
  }
  return d.main(argc - 1, argv + 1);
}
