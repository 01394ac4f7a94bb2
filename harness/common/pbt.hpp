// Small property-based testing core for MPI harnesses.
//
// A case is a sequence of integer choices (internal-reduction style): every random decision of a
// property goes through Gen, which draws from a seeded RNG while exploring and from a recorded
// choice list while replaying / shrinking.  All ranks draw the same choices, so generated cases
// are identical everywhere without communication.  Rank 0 mirrors the choices of the running case
// into an mmap'ed journal, so the case survives a crash, an abort or a hang.
#pragma once
#define OMPI_SKIP_MPICXX 1
#include <fcntl.h>
#include <mpi.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

struct Journal {
  static constexpr size_t kMax = 8192;
  struct Data {
    uint64_t caseNo;
    uint64_t sub;
    uint64_t numChoices;
    uint64_t choices[kMax];
    char note[256];
  };
  Data* d = nullptr;
  void open(const std::string& path) {
    int fd = ::open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) return;
    if (ftruncate(fd, sizeof(Data)) != 0) return;
    void* p = mmap(nullptr, sizeof(Data), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    ::close(fd);
    if (p == MAP_FAILED) return;
    d = reinterpret_cast<Data*>(p);
  }
  void begin(uint64_t c, uint64_t s) {
    if (!d) return;
    d->numChoices = 0;
    d->sub = s;
    d->caseNo = c;
  }
  void push(uint64_t v) {
    if (!d || d->numChoices >= kMax) return;
    d->choices[d->numChoices] = v;
    d->numChoices++;
  }
};

class Gen {
 public:
  Gen(uint64_t seed, Journal* j) : state_(seed), journal_(j) {}
  Gen(const std::vector<uint64_t>& replay, Journal* j)
      : replaying_(true), replay_(replay), journal_(j) {}

  /// uniform in [0, n)
  uint64_t draw(uint64_t n) {
    if (n == 0) n = 1;
    uint64_t v;
    if (replaying_) {
      v = pos_ < replay_.size() ? replay_[pos_] : 0;
      if (v >= n) v = n - 1;
    } else {
      state_ = mix(state_ + 0x1234567);
      v = state_ % n;
    }
    ++pos_;
    choices_.push_back(v);
    if (journal_) journal_->push(v);
    return v;
  }
  /// uniform in [lo, hi]; shrinks towards lo
  int64_t range(int64_t lo, int64_t hi) {
    if (hi < lo) hi = lo;
    return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo) + 1));
  }
  int irange(int lo, int hi) { return static_cast<int>(range(lo, hi)); }
  /// true with pct percent; shrinks towards false
  bool chance(int pct) { return static_cast<int>(draw(100)) >= 100 - pct; }
  bool boolean() { return draw(2) == 1; }
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[draw(v.size())];
  }
  /// a data seed (one choice); values are derived by hashing
  uint64_t dataSeed() { return draw(1u << 20); }
  template <typename T>
  void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[i - 1 - draw(i)]);
  }
  const std::vector<uint64_t>& choices() const { return choices_; }

 private:
  bool replaying_ = false;
  uint64_t state_ = 0;
  std::vector<uint64_t> replay_;
  size_t pos_ = 0;
  std::vector<uint64_t> choices_;
  Journal* journal_ = nullptr;
};

struct Ctx {
  std::ostringstream desc;
  bool nontrivial = false;
  std::vector<std::string> labels;
  bool failed = false;
  std::string msg;
  uint64_t checks = 0;
  std::string scratch;  // per-run scratch directory (exists on all ranks; unique per campaign)
  uint64_t caseNo = 0;

  void label(const std::string& l) { labels.push_back(l); }
  void fail(const std::string& m) {
    if (!failed) {
      failed = true;
      msg = m;
    }
  }
  void check(bool ok, const std::string& m) {
    ++checks;
    if (!ok) fail(m);
  }
  template <typename F>
  void checkf(bool ok, F&& f) {
    ++checks;
    if (!ok && !failed) {
      std::ostringstream os;
      f(os);
      fail(os.str());
    }
  }
};

struct Sub {
  std::string name;
  int weight;
  std::function<void(Gen&, Ctx&)> fn;
};

inline int worldRank() {
  int r;
  MPI_Comm_rank(MPI_COMM_WORLD, &r);
  return r;
}
inline int worldSize() {
  int r;
  MPI_Comm_size(MPI_COMM_WORLD, &r);
  return r;
}

inline std::string jsonEscape(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o;
}

class Driver {
 public:
  std::vector<Sub> subs;
  std::function<void()> onStart, onEnd;
  std::string rule;

  void add(const std::string& name, int weight, std::function<void(Gen&, Ctx&)> fn) {
    subs.push_back({name, weight, fn});
  }

  int main(int argc, char** argv) {
    int provided;
    MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &provided);
    std::string journalPath, resultPath, replayPath, only;
    uint64_t seed = 1, count = 1000;
    double timeCap = 600, shrinkTime = 40;
    uint64_t from = 0;
    bool verbose = false, list = false;
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
      if (a == "--seed") seed = std::stoull(next());
      else if (a == "--count") count = std::stoull(next());
      else if (a == "--from") from = std::stoull(next());
      else if (a == "--time") timeCap = std::stod(next());
      else if (a == "--shrink-time") shrinkTime = std::stod(next());
      else if (a == "--journal") journalPath = next();
      else if (a == "--result") resultPath = next();
      else if (a == "--replay") replayPath = next();
      else if (a == "--scratch") scratch_ = next();
      else if (a == "--only") only = next();
      else if (a == "--verbose") verbose = true;
      else if (a == "--list") list = true;
    }
    if (list) {
      for (auto& x : subs) std::cout << "SUB " << x.name << std::endl;
      MPI_Finalize();
      return 0;
    }
    rank_ = worldRank();
    if (rank_ == 0 && !journalPath.empty()) journal_.open(journalPath);
    if (onStart) onStart();
    MPI_Barrier(MPI_COMM_WORLD);
    auto t0 = std::chrono::steady_clock::now();
    auto elapsed = [&]() {
      return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    };

    std::vector<size_t> wheel;
    for (size_t s = 0; s < subs.size(); ++s) {
      if (!only.empty() && subs[s].name != only) continue;
      for (int w = 0; w < subs[s].weight; ++w) wheel.push_back(s);
    }
    // interleave deterministically
    for (size_t i = wheel.size(); i > 1; --i)
      std::swap(wheel[i - 1], wheel[mix(i * 7919) % i]);

    if (!replayPath.empty()) {
      std::ifstream in(replayPath);
      std::string subName;
      std::getline(in, subName);
      std::vector<uint64_t> ch;
      uint64_t v;
      while (in >> v) ch.push_back(v);
      size_t s = 0;
      bool found = false;
      for (size_t k = 0; k < subs.size(); ++k)
        if (subs[k].name == subName) { s = k; found = true; }
      if (!found) {
        if (rank_ == 0) std::cerr << "unknown sub " << subName << std::endl;
        MPI_Abort(MPI_COMM_WORLD, 9);
      }
      Gen g(ch, rank_ == 0 ? &journal_ : nullptr);
      Ctx c;
      journal_.begin(1, s);
      bool bad = runOne(s, g, c);
      if (rank_ == 0) {
        std::cout << "REPLAY sub=" << subName << "\ncase: " << c.desc.str() << "\n"
                  << (bad ? "FAIL: " + failMsg_ : std::string("ok")) << std::endl;
        writeFailure(resultPath, bad, subName, g.choices(), c.desc.str(), failMsg_);
      }
      finish();
      return bad ? 3 : 0;
    }

    uint64_t evals = 0, checks = 0;
    std::map<std::string, uint64_t> labels, perSub;
    std::set<uint64_t> distinct;
    uint64_t nontriv = 0;
    std::vector<std::string> samples;
    bool stop = false;
    int rc = 0;
    bool timedOut = false;
    for (uint64_t cno = from; cno < count && !stop; ++cno) {
      size_t s = wheel[cno % wheel.size()];
      uint64_t caseSeed = mix(mix(seed * 1000003ull + 17) ^ mix(cno + 1) ^ mix(s * 77 + 5));
      Gen g(caseSeed, rank_ == 0 ? &journal_ : nullptr);
      Ctx c;
      c.caseNo = cno;
      journal_.begin(cno + 1, s);
      auto tc = elapsed();
      bool bad = runOne(s, g, c);
      ++evals;
      if (verbose && rank_ == 0)
        std::cerr << "#" << cno << " " << subs[s].name << " " << (elapsed() - tc) << "s "
                  << c.desc.str().substr(0, 400) << std::endl;
      perSub[subs[s].name]++;
      checks += c.checks;
      for (auto& l : c.labels) labels[subs[s].name + "." + l]++;
      if (c.nontrivial) {
        uint64_t h = mix(s + 1);
        for (auto v : g.choices()) h = mix(h ^ v);
        if (distinct.insert(h).second) ++nontriv;
        if (samples.size() < 3 || (samples.size() < 12 && cno % 97 == 0))
          samples.push_back(subs[s].name + ": " + c.desc.str());
      }
      if (bad) {
        rc = 3;
        std::string firstMsg = failMsg_;
        std::string firstDesc = c.desc.str();
        auto best = g.choices();
        // save the unshrunk failure first: shrinking may crash
        if (rank_ == 0) writeFailure(resultPath, true, subs[s].name, best, firstDesc, firstMsg);
        shrink(s, best, firstDesc, firstMsg, shrinkTime, elapsed);
        if (rank_ == 0) {
          writeFailure(resultPath, true, subs[s].name, best, firstDesc, firstMsg);
          std::cout << "FAIL sub=" << subs[s].name << " case=" << cno << "\n  " << firstDesc
                    << "\n  " << firstMsg << std::endl;
        }
        stop = true;
      }
      int over = elapsed() > timeCap;
      MPI_Bcast(&over, 1, MPI_INT, 0, MPI_COMM_WORLD);
      if (over && !stop) {
        timedOut = true;
        stop = true;
      }
    }
    if (rank_ == 0 && !resultPath.empty()) {
      std::ofstream o(resultPath + ".json");
      o << "{\"evaluations\": " << evals << ", \"distinct_nontrivial\": " << nontriv
        << ", \"oracle_checks_rank0\": " << checks << ", \"time_capped\": "
        << (timedOut ? "true" : "false") << ", \"seconds\": " << elapsed() << ", \"per_sub\": {";
      bool first = true;
      for (auto& p : perSub) {
        o << (first ? "" : ", ") << "\"" << p.first << "\": " << p.second;
        first = false;
      }
      o << "}, \"labels\": {";
      first = true;
      for (auto& p : labels) {
        o << (first ? "" : ", ") << "\"" << jsonEscape(p.first) << "\": " << p.second;
        first = false;
      }
      o << "}, \"samples\": [";
      first = true;
      for (auto& p : samples) {
        o << (first ? "" : ", ") << "\"" << jsonEscape(p.substr(0, 1200)) << "\"";
        first = false;
      }
      o << "]}" << std::endl;
    }
    finish();
    return rc;
  }

 private:
  int rank_ = 0;
  Journal journal_;
  std::string failMsg_;
  std::string scratch_;

  void finish() {
    if (onEnd) onEnd();
    MPI_Barrier(MPI_COMM_WORLD);
    MPI_Finalize();
  }

  void writeFailure(const std::string& path, bool bad, const std::string& sub,
                    const std::vector<uint64_t>& ch, const std::string& desc,
                    const std::string& msg) {
    if (path.empty() || !bad) return;
    std::ofstream o(path + ".fail");
    o << sub << "\n";
    for (auto v : ch) o << v << " ";
    o << "\n";
    std::ofstream t(path + ".failtext");
    t << "case: " << desc << "\nmessage: " << msg << "\n";
  }

  bool runOne(size_t s, Gen& g, Ctx& c) {
    c.scratch = scratch_;
    try {
      subs[s].fn(g, c);
    } catch (const std::exception& e) {
      std::cout << "EXCEPTION rank " << rank_ << " sub " << subs[s].name << " case "
                << c.desc.str() << ": " << e.what() << std::endl;
      MPI_Abort(MPI_COMM_WORLD, 77);
    } catch (...) {
      std::cout << "EXCEPTION (unknown) rank " << rank_ << std::endl;
      MPI_Abort(MPI_COMM_WORLD, 77);
    }
    int me = c.failed ? rank_ : 1 << 30;
    int who;
    MPI_Allreduce(&me, &who, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
    if (who == 1 << 30) return false;
    char buf[2000];
    std::memset(buf, 0, sizeof buf);
    if (rank_ == who) std::snprintf(buf, sizeof buf, "[rank %d] %s", rank_, c.msg.c_str());
    MPI_Bcast(buf, sizeof buf, MPI_CHAR, who, MPI_COMM_WORLD);
    failMsg_ = buf;
    return true;
  }

  template <typename E>
  void shrink(size_t s, std::vector<uint64_t>& best, std::string& desc, std::string& msg,
              double budget, E& elapsed) {
    double start = elapsed();
    uint64_t n = 1000000;
    auto over = [&]() {
      int o = elapsed() - start > budget;
      MPI_Bcast(&o, 1, MPI_INT, 0, MPI_COMM_WORLD);
      return o != 0;
    };
    auto attempt = [&](const std::vector<uint64_t>& cand) {
      Gen g(cand, rank_ == 0 ? &journal_ : nullptr);
      Ctx c;
      journal_.begin(++n, s);
      bool bad = runOne(s, g, c);
      if (bad) {
        auto used = g.choices();
        while (!used.empty() && used.back() == 0) used.pop_back();
        best = used;
        desc = c.desc.str();
        msg = failMsg_;
      }
      return bad;
    };
    bool progress = true;
    while (progress && !over()) {
      progress = false;
      // truncate
      for (size_t len = best.size() / 2; len >= 1 && !over(); len /= 2) {
        for (size_t i = 0; i + len <= best.size() && !over();) {
          auto cand = best;
          cand.erase(cand.begin() + static_cast<long>(i), cand.begin() + static_cast<long>(i + len));
          auto before = best;
          if (cand != best && attempt(cand) && best != before) progress = true;
          else i += len;
        }
      }
      for (size_t i = 0; i < best.size() && !over(); ++i) {
        if (best[i] == 0) continue;
        auto cand = best;
        cand[i] = 0;
        if (attempt(cand)) { progress = true; continue; }
        uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
        while (i < best.size() && hi - lo > 1 && !over()) {
          cand = best;
          uint64_t mid = lo + (hi - lo) / 2;
          cand[i] = mid;
          if (attempt(cand)) {
            progress = true;
            hi = i < best.size() ? std::min(best[i], mid) : 0;
            if (hi <= lo) break;
          } else
            lo = mid;
        }
      }
    }
  }
};

}  // namespace pbt
