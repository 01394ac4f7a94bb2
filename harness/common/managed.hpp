#pragma once
// Tasks that are sent between a manager and its workers; one translation unit per program only.
#include <boost/serialization/export.hpp>
#include <thread>

#include "common/combi.hpp"
#include "loadmodel/LinearLoadModel.hpp"
#include "manager/ProcessGroupManager.hpp"
#include "manager/ProcessManager.hpp"
#include "rescheduler/TaskRescheduler.hpp"
#include "utils/BoostExports.hpp"

using namespace ad;
using pbt::Ctx;
using pbt::Gen;

namespace {
const CombiSpec* theSpec = nullptr;
int thePauses = 0;
std::map<size_t, int> theRuns, theDiagnostics;
}  // namespace

/// as CaseTask, but sent between manager and workers
template <typename T>
class ManagedTask : public Task<T> {
 public:
  ManagedTask() = default;
  ManagedTask(size_t grid, LoadModel* lm) : Task<T>(toLib(theSpec->levels[grid]), theSpec->f.bnd, theSpec->coeffs[grid], lm), grid_(grid) {}
  void init(CommunicatorType lcomm, const std::vector<IndexVector>& decomposition) override {
    for (int f = 0; f < theSpec->numGrids; ++f)
      dfg_.emplace_back(new OwningDistributedFullGrid<T>(this->getDim(), this->getLevelVector(), lcomm, this->getBoundary(),
                                                         theSpec->f.procs, theSpec->forward, decomposition));
  }
  void run(CommunicatorType) override {
    ++theRuns[grid_];
    if (thePauses) {
      auto h = ref::hash2(ref::hash2(theSpec->seed, grid_), static_cast<uint64_t>(action().round));
      if (h % 3 == 0) std::this_thread::sleep_for(std::chrono::microseconds(h / 3 % (thePauses == 1 ? 200 : 2000)));
    }
    const auto a = action();
    for (int f = 0; f < theSpec->numGrids && a.kind; ++f) {
      auto& d = *dfg_[static_cast<size_t>(f)];
      auto b = boxOf(theSpec->specs[grid_], d, d.getRank());
      T* p = d.getData();
      std::vector<long> v;
      forBox(theSpec->specs[grid_], b, [&](long i, long gl) {
        theSpec->specs[grid_].vec(gl, v);
        auto x = valueAt<T>(*theSpec, grid_, f, a, v);
        p[i] = a.kind == 1 ? x : p[i] + x;
      });
    }
    this->setFinished(true);
  }
  static Action& action() {
    static Action a;
    return a;
  }
  DistributedFullGrid<T>& getDistributedFullGrid(size_t n) override { return *dfg_[n]; }
  const DistributedFullGrid<T>& getDistributedFullGrid(size_t n) const override { return *dfg_[n]; }
  void setZero() override {
    for (auto& d : dfg_) d->setZero();
  }
  void doDiagnostics() override { ++theDiagnostics[grid_]; }
  size_t grid() const { return grid_; }

 private:
  friend class boost::serialization::access;
  template <class Archive>
  void serialize(Archive& ar, const unsigned int) {
    ar& boost::serialization::base_object<Task<T>>(*this);
    ar & grid_;
  }
  size_t grid_ = 0;
  std::vector<std::unique_ptr<OwningDistributedFullGrid<T>>> dfg_;
};
typedef ManagedTask<double> ManagedTaskDouble;
typedef ManagedTask<std::complex<float>> ManagedTaskComplex;
BOOST_CLASS_EXPORT(ManagedTaskDouble)
BOOST_CLASS_EXPORT(ManagedTaskComplex)
