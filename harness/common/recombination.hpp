#pragma once
// what a recombination after the loss of grids has to satisfy
#include <algorithm>
#include <cmath>
#include <map>
#include <numeric>
#include <set>
#include <vector>

#include "common/pbt.hpp"
#include "utils/LevelVector.hpp"

namespace ft {
using pbt::Ctx;
using combigrid::LevelVector;
using Levels = std::vector<int>;

template <typename T>
LevelVector conv(const T& l) { return LevelVector(l.begin(), l.end()); }
inline std::string str(const Levels& l) {
  std::string s = "(";
  for (auto x : l) s += (s.size() > 1 ? "," : "") + std::to_string(x);
  return s + ")";
}
inline bool geq(const Levels& a, const Levels& b) {
  for (size_t i = 0; i < a.size(); ++i)
    if (a[i] < b[i]) return false;
  return true;
}
inline int sum(const Levels& l) { return std::accumulate(l.begin(), l.end(), 0); }


/// diff: refinement in the active dimensions; result: new coefficients; relevant/lower: lost grids on the two finest and on
/// the other diagonals; recompute: grids reported to be needed again
inline void checkRecombination(Ctx& c, const Levels& lmin, int diff, const std::vector<char>& active, const std::map<Levels, double>& given,
                               const std::vector<Levels>& relevant, const std::vector<Levels>& lower, std::map<Levels, double> result,
                               const std::vector<Levels>& recompute) {
  // all levels of the down set
  std::vector<Levels> down;
  {
    std::set<Levels> s;
    for (auto& x : given) {
      Levels l = lmin;
      while (true) {
        s.insert(l);
        size_t d = 0;
        while (d < l.size() && ++l[d] > x.first[d]) l[d] = lmin[d], ++d;
        if (d == l.size()) break;
      }
    }
    down.assign(s.begin(), s.end());
  }
  c.check(result.size() == given.size(), "number of grids in the result");
  for (auto& x : result) {
    c.checkf(given.count(x.first) == 1, [&](std::ostream& o) { o << "grid " << str(x.first) << " is not part of the scheme"; });
    c.checkf(std::abs(x.second - std::round(x.second)) < 1e-6, [&](std::ostream& o) { o << "coefficient " << x.second << " of " << str(x.first); });
  }
  for (auto& l : relevant)
    c.checkf(std::abs(result[l]) < 1e-6, [&](std::ostream& o) { o << "lost grid " << str(l) << " has coefficient " << result[l]; });
  double objective = 0.;
  for (auto& l : down) {
    double w = 0.;
    for (auto& x : result)
      if (geq(x.first, l)) w += x.second;
    c.checkf(std::abs(w) < 1e-6 || std::abs(w - 1.) < 1e-6, [&](std::ostream& o) { o << "coefficients of the grids covering " << str(l) << " sum to " << w; });
    if (l == lmin && diff >= 2) c.checkf(std::abs(w - 1.) < 1e-6, [&](std::ostream& o) { o << "coefficients sum to " << w; });
    int s = 0;
    for (size_t d = 0; d < l.size(); ++d) s += active[d] ? l[d] : 0;
    objective += w * std::pow(4., -s);
  }
  // grids that were lost on lower diagonals but are needed
  std::set<Levels> need, got(recompute.begin(), recompute.end());
  for (auto& l : lower)
    if (std::abs(result[l]) > 1e-6) need.insert(l);
  c.check(got.size() == recompute.size(), "a grid is to be recomputed twice");
  c.checkf(need == got, [&](std::ostream& o) {
    o << "grids to be recomputed:";
    for (auto& l : got) o << " " << str(l);
    o << ", needed:";
    for (auto& l : need) o << " " << str(l);
  });
  // no better solution exists
  if (down.size() <= 18) {
    c.label("optimality checked");
    std::map<Levels, size_t> pos;
    for (size_t i = 0; i < down.size(); ++i) pos[down[i]] = i;
    std::vector<std::pair<uint32_t, uint32_t>> rows;
    for (auto& f : relevant) {
      uint32_t even = 0, odd = 0;
      for (auto& l : down) {
        bool near = true;
        for (size_t d = 0; d < l.size(); ++d) near = near && (l[d] == f[d] || l[d] == f[d] + 1);
        if (!near) continue;
        ((sum(l) - sum(f)) % 2 ? odd : even) |= 1u << pos[l];
      }
      rows.emplace_back(even, odd);
    }
    std::vector<double> weight;
    for (auto& l : down) {
      int s = 0;
      for (size_t d = 0; d < l.size(); ++d) s += active[d] ? l[d] : 0;
      weight.push_back(std::pow(4., -s));
    }
    double best = 0.;
    for (uint32_t w = 0; w < (1u << down.size()); ++w) {
      bool ok = true;
      for (auto& r : rows) ok = ok && __builtin_popcount(w & r.first) == __builtin_popcount(w & r.second);
      if (!ok) continue;
      double o = 0.;
      for (size_t i = 0; i < down.size(); ++i)
        if (w >> i & 1) o += weight[i];
      best = std::max(best, o);
    }
    c.checkf(std::abs(best - objective) < 1e-9, [&](std::ostream& o) { o << "covered weight " << objective << ", possible " << best; });
  }
}
}  // namespace ft
