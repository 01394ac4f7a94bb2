// C12: writing sparse grids and values to files and reading them back
#include <omp.h>

#include "common/family.hpp"
#include "io/MPICompression.hpp"
#include "io/MPIInputOutput.hpp"
#include "sparsegrid/DistributedSparseGridIO.hpp"
#include "sparsegrid/DistributedSparseGridUniform.hpp"

using namespace ad;
using pbt::Ctx;
using pbt::Gen;

namespace {
MPI_Comm firstRanks(int n) {
  static std::map<int, MPI_Comm> cache;
  auto it = cache.find(n);
  if (it != cache.end()) return it->second;
  MPI_Comm c;
  MPI_Comm_split(MPI_COMM_WORLD, pbt::worldRank() < n ? 0 : MPI_UNDEFINED, pbt::worldRank(), &c);
  cache[n] = c;
  return c;
}
template <typename T>
struct Val {
  static T make(uint64_t seed, uint64_t i) { return ref::Value<T>::make(seed, i); }
};
template <>
struct Val<uint32_t> {
  static uint32_t make(uint64_t seed, uint64_t i) { return static_cast<uint32_t>(ref::hash2(seed, i) % 1000); }
};
template <typename T>
std::vector<T> values(uint64_t seed, int rank, size_t n, int style) {
  std::vector<T> v(n);
  for (size_t i = 0; i < n; ++i)
    v[i] = style == 0 ? Val<T>::make(seed + static_cast<uint64_t>(rank) * 1000, i) : style == 1 ? T(0) : Val<T>::make(seed, i / 37);
  return v;
}
std::string readAll(const std::string& fn) {
  std::ifstream in(fn, std::ios::binary);
  return std::string((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
}
bool allRanks(bool x) {
  int i = x;
  MPI_Allreduce(MPI_IN_PLACE, &i, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
  return i;
}

struct Sizes {
  int ranks = 1;
  std::vector<size_t> n;
};
Sizes genSizes(Gen& g, bool big) {
  Sizes s;
  s.ranks = g.irange(1, pbt::worldSize());
  for (int r = 0; r < s.ranks; ++r) {
    int k = g.irange(0, 3);
    s.n.push_back(static_cast<size_t>(k == 0 ? 0 : k == 1 ? g.irange(1, 4) : g.irange(1, 300)));
    if (big && k == 3) s.n.back() = static_cast<size_t>(g.range(1, 1300000));
  }
  return s;
}

template <typename T>
void plain(Gen& g, Ctx& c) {
  auto s = genSizes(g, false);
  auto seed = g.dataSeed();
  bool cb = g.boolean();
  int existing = g.irange(0, 2);  // no file, same size, different size (then it has to be replaced)
  int bufSize = g.irange(1, 64);
  auto seed2 = g.dataSeed();
  int wrong = g.irange(-3, 3);
  c.desc << "plain type=" << typeid(T).name() << " values per rank=" << ref::str(s.n) << " data=" << seed << " existing=" << existing << " buffer=" << bufSize << " wrong=" << wrong;
  c.nontrivial = s.ranks > 1;
  MPI_Comm comm = firstRanks(s.ranks);
  std::string fn = c.scratch + "/p" + std::to_string(c.caseNo), fn2 = fn + "b";
  size_t total = std::accumulate(s.n.begin(), s.n.end(), size_t(0));
  if (existing && pbt::worldRank() == 0) {
    std::ofstream o(fn, std::ios::binary);
    o << std::string(total * sizeof(T) + (existing == 2 ? 13 : 0), 'x');
  }
  MPI_Barrier(MPI_COMM_WORLD);
  bool in = comm != MPI_COMM_NULL;
  auto me = static_cast<size_t>(pbt::worldRank());
  std::vector<T> mine, back, mine2;
  if (in) {
    mine = values<T>(seed, pbt::worldRank(), s.n[me], 0);
    mine2 = values<T>(seed2, pbt::worldRank(), s.n[me], 0);
    int w = mpiio::writeValuesConsecutive<T>(mine.data(), static_cast<MPI_Offset>(mine.size()), fn, comm, existing == 2, cb);
    c.check(w == static_cast<int>(mine.size()), "number of written values");
    MPI_Barrier(comm);
    if (me == 0) {
      std::string bytes = readAll(fn), ex;
      for (int r = 0; r < s.ranks; ++r) {
        auto v = values<T>(seed, r, s.n[static_cast<size_t>(r)], 0);
        ex.append(reinterpret_cast<const char*>(v.data()), v.size() * sizeof(T));
      }
      c.check(bytes == ex, "file is not the concatenation of the ranks' values");
    }
    back.assign(s.n[me] + 1, T(7));
    int r = mpiio::readValuesConsecutive<T>(back.data(), static_cast<MPI_Offset>(s.n[me]), fn, comm, cb);
    c.check(r == static_cast<int>(s.n[me]), "number of read values");
    c.check(std::equal(mine.begin(), mine.end(), back.begin()), "values read differ from those written");
    c.check(back.back() == T(7), "wrote behind the buffer");
    // reduce while reading, buffer smaller than the data
    back = mine2;
    back.push_back(T(7));
    r = mpiio::readReduceValuesConsecutive<T>(back.data(), static_cast<MPI_Offset>(s.n[me]), fn, comm, bufSize, std::plus<T>{}, cb);
    c.check(r == static_cast<int>(s.n[me]), "number of reduced values");
    bool ok = back.back() == T(7);
    for (size_t i = 0; i < mine.size(); ++i) ok = ok && back[i] == static_cast<T>(mine[i] + mine2[i]);
    c.check(ok, "reduced values are not the sums");
    // two files
    mpiio::writeValuesConsecutive<T>(mine2.data(), static_cast<MPI_Offset>(mine2.size()), fn2, comm, true, cb);
    auto mine3 = values<T>(seed + 5, pbt::worldRank(), s.n[me], 0);
    back = mine3;
    auto f3 = [](T a, T b, T d) { return a + b + d; };
    r = mpiio::readMultipleReduceValuesConsecutive<T>(back.data(), static_cast<MPI_Offset>(s.n[me]), std::vector<std::string>{fn, fn2}, comm, bufSize, f3, cb);
    c.check(r == static_cast<int>(s.n[me]), "number of values reduced from two files");
    ok = true;
    for (size_t i = 0; i < mine.size(); ++i) ok = ok && std::abs(static_cast<T>(back[i] - (mine[i] + mine2[i] + mine3[i])) + T(0)) < 1e-5;
    c.check(ok, "values reduced from two files are not the sums");
    // a file of the wrong size is refused
    if (wrong != 0 && static_cast<long>(s.n[0]) + wrong >= 0) {
      auto n = static_cast<MPI_Offset>(s.n[me]) + (me == 0 ? wrong : 0);
      std::vector<T> b2(static_cast<size_t>(n) + 1, T(7));
      int thrown = 0;
      try {
        mpiio::readValuesConsecutive<T>(b2.data(), n, fn, comm, cb);
      } catch (const std::exception&) {
        thrown = 1;
      }
      c.check(thrown == 1, "a file with the wrong number of values was accepted");
    }
  }
  MPI_Barrier(MPI_COMM_WORLD);
  if (me == 0) {
    unlink(fn.c_str());
    unlink(fn2.c_str());
  }
}
void plainSizes(Gen& g, Ctx& c) {
  // as `plain`, for subspace sizes: minimum over systems
  auto s = genSizes(g, false);
  auto seed = g.dataSeed();
  MPI_Comm comm = firstRanks(s.ranks);
  c.desc << "sizes per rank=" << ref::str(s.n) << " data=" << seed;
  c.nontrivial = s.ranks > 1;
  std::string fn = c.scratch + "/s" + std::to_string(c.caseNo);
  auto me = static_cast<size_t>(pbt::worldRank());
  if (comm != MPI_COMM_NULL) {
    auto a = values<uint32_t>(seed, pbt::worldRank(), s.n[me], 0), b = values<uint32_t>(seed + 3, pbt::worldRank(), s.n[me], 0);
    mpiio::writeValuesConsecutive<uint32_t>(a.data(), static_cast<MPI_Offset>(a.size()), fn, comm, true);
    auto x = b;
    auto mn = [](uint32_t p, uint32_t q) { return std::min(p, q); };
    mpiio::readReduceValuesConsecutive<uint32_t>(x.data(), static_cast<MPI_Offset>(x.size()), fn, comm, std::max<int>(1, static_cast<int>(x.size())), mn, false);
    bool ok = true;
    for (size_t i = 0; i < x.size(); ++i) ok = ok && x[i] == std::min(a[i], b[i]);
    c.check(ok, "minimum of subspace sizes");
  }
  MPI_Barrier(MPI_COMM_WORLD);
  if (me == 0) unlink(fn.c_str());
}

template <typename T>
void compressed(Gen& g, Ctx& c, bool big) {
  auto s = genSizes(g, big);
  if (big) s.n[static_cast<size_t>(g.irange(0, s.ranks - 1))] = static_cast<size_t>(g.range(500000, 1300000));
  auto seed = g.dataSeed();
  int style = g.irange(0, 2);
  bool existing = g.chance(30);
  int cut = g.chance(30) ? g.irange(1, 5) : 0;
  bool longer = g.boolean();
  c.desc << "compressed type=" << typeid(T).name() << " values per rank=" << ref::str(s.n) << " data=" << seed << " style=" << style << " cut=" << cut << " existing=" << existing;
  c.nontrivial = s.ranks > 1;
  if (big) c.label("big");
  MPI_Comm comm = firstRanks(s.ranks);
  std::string fn = c.scratch + "/z" + std::to_string(c.caseNo);
  auto me = static_cast<size_t>(pbt::worldRank());
  if (existing && me == 0) std::ofstream(fn) << std::string(5000, 'y');
  MPI_Barrier(MPI_COMM_WORLD);
  if (comm != MPI_COMM_NULL) {
    auto mine = values<T>(seed, pbt::worldRank(), s.n[me], style);
    auto add = values<T>(seed + 9, pbt::worldRank(), s.n[me], 0);
    mpiio::writeCompressedValuesConsecutive<T>(mine.data(), static_cast<MPI_Offset>(mine.size()), fn, comm, true);
    MPI_Barrier(comm);
    std::vector<T> back(s.n[me] + 1, T(7));
    int r = mpiio::readCompressedValuesConsecutive<T>(back.data(), static_cast<MPI_Offset>(s.n[me]), fn, comm);
    c.check(r == static_cast<int>(s.n[me]), "number of values read");
    c.check(std::equal(mine.begin(), mine.end(), back.begin()), "values read differ from those written");
    c.check(back.back() == T(7), "wrote behind the buffer");
    back = add;
    back.push_back(T(7));
    r = mpiio::readReduceCompressedValuesConsecutive<T>(back.data(), static_cast<MPI_Offset>(s.n[me]), fn, comm, std::plus<T>{});
    c.check(r == static_cast<int>(s.n[me]), "number of values reduced");
    bool ok = back.back() == T(7);
    for (size_t i = 0; i < mine.size(); ++i) ok = ok && back[i] == static_cast<T>(mine[i] + add[i]);
    c.check(ok, "reduced values are not the sums");
    MPI_Barrier(comm);
    if (cut) {
      if (me == 0) {
        auto b = readAll(fn);
        if (longer)
          b += std::string(static_cast<size_t>(cut), '\1');
        else
          b.resize(b.size() - std::min(b.size(), static_cast<size_t>(cut)));
        std::ofstream(fn, std::ios::binary) << b;
      }
      MPI_Barrier(comm);
      int thrown = 0;
      std::vector<T> b2(s.n[me] + 1, T(7));
      try {
        mpiio::readCompressedValuesConsecutive<T>(b2.data(), static_cast<MPI_Offset>(s.n[me]), fn, comm);
      } catch (const std::exception&) {
        thrown = 1;
      }
      c.check(thrown == 1, "an incomplete file was accepted");
      c.label("incomplete_file");
    }
  }
  MPI_Barrier(MPI_COMM_WORLD);
  if (me == 0) unlink(fn.c_str());
}
template <typename T>
void compressedSmall(Gen& g, Ctx& c) { compressed<T>(g, c, false); }
template <typename T>
void compressedBig(Gen& g, Ctx& c) { compressed<T>(g, c, true); }

// whole sparse grids
template <typename T>
void sparse(Gen& g, Ctx& c) {
  int dim = g.irange(1, 4);
  LV lmin(static_cast<size_t>(dim), 1), lmax;
  for (int d = 0; d < dim; ++d) lmax.push_back(g.irange(1, dim <= 2 ? 5 : 3));
  auto f = genFamily(g, lmax, lmin, pbt::worldSize());
  int nreg = g.irange(1, 4);
  std::vector<LV> reg;
  for (int k = 0; k < nreg; ++k) {
    LV l;
    for (int d = 0; d < dim; ++d) l.push_back(g.irange(1, lmax[static_cast<size_t>(d)]));
    reg.push_back(l);
  }
  auto seed = g.dataSeed();
  int style = g.irange(0, 2);
  bool chunkedToo = g.boolean();
  uint32_t mib = g.pick(std::vector<uint32_t>{1, 16});
  c.desc << "sparse grid " << f.describe() << " registered=";
  for (auto& l : reg) c.desc << ref::str(l);
  c.desc << " data=" << seed << " style=" << style << " type=" << typeid(T).name();
  c.nontrivial = f.nprocs > 1;
  c.label("sparse_grid");
  MPI_Comm comm = makeCartFor(f.grid(lmax));
  std::string fn = c.scratch + "/g" + std::to_string(c.caseNo);
  if (comm != MPI_COMM_NULL) {
    std::vector<LevelVector> levels;
    forLevels(lmin, lmax, [&](const LV& l) { levels.push_back(toLib(l)); });
    auto build = [&](const std::vector<LV>& regs) {
      auto d = std::unique_ptr<DistributedSparseGridUniform<T>>(new DistributedSparseGridUniform<T>(static_cast<DimType>(dim), levels, comm));
      for (auto& l : regs) {
        auto o = makeDfg<T>(f.grid(l), comm);
        d->registerDistributedFullGrid(*o.dfg);
      }
      return d;
    };
    auto A = build(reg), B = build(reg);
    A->createSubspaceData();
    B->createSubspaceData();
    int rank = getCommRank(comm);
    auto n = A->getRawDataSize();
    auto va = values<T>(seed, rank, n, style), vb = values<T>(seed + 1, rank, n, 0);
    std::copy(va.begin(), va.end(), A->getRawData());
    std::copy(vb.begin(), vb.end(), B->getRawData());
    auto same = [&](DistributedSparseGridUniform<T>& d, const std::vector<T>& v, const char* what) {
      c.check(d.getRawDataSize() == v.size() && std::equal(v.begin(), v.end(), d.getRawData()), what);
    };
    DistributedSparseGridIO::writeOneFile(*A, fn, true);
    same(*A, va, "writing changed the sparse grid");
    MPI_Barrier(comm);
    int k = DistributedSparseGridIO::readOneFileAndReduce(*B, fn, mib);
    c.check(k == static_cast<int>(n), "number of values reduced");
    auto sum = va;
    for (size_t i = 0; i < n; ++i) sum[i] = vb[i] + va[i];
    same(*B, sum, "reducing from a file does not add the file's values");
    k = DistributedSparseGridIO::readOneFile(*B, fn);
    c.check(k == static_cast<int>(n), "number of values read");
    same(*B, va, "sparse grid read back differs");
    MPI_Barrier(comm);
    if (chunkedToo) {
      DistributedSparseGridIO::writeToDiskChunked(*A, fn + "c");
      std::fill(B->getRawData(), B->getRawData() + n, T(3));
      DistributedSparseGridIO::readFromDiskChunked(*B, fn + "c");
      same(*B, va, "sparse grid read back from per-process files differs");
      MPI_Barrier(comm);
      unlink((fn + "c" + std::to_string(rank)).c_str());
    }
    // sizes
    auto C = build({reg[0]});
    auto sa = A->getSubspaceDataSizes(), sc = C->getSubspaceDataSizes();
    k = DistributedSparseGridIO::writeSubspaceSizesToFile(*A, fn + "s");
    c.check(k == static_cast<int>(sa.size()), "number of sizes written");
    MPI_Barrier(comm);
    auto mn = [](SubspaceSizeType a, SubspaceSizeType b) { return std::min(a, b); };
    DistributedSparseGridIO::readReduceSubspaceSizesFromFile(*C, fn + "s", mn, 0, false);
    bool ok = true;
    for (size_t i = 0; i < sa.size(); ++i) ok = ok && C->getSubspaceDataSizes()[i] == std::min(sa[i], sc[i]);
    c.check(ok, "minimum of subspace sizes");
    k = DistributedSparseGridIO::readSubspaceSizesFromFile(*C, fn + "s");
    c.check(C->getSubspaceDataSizes() == sa && k == static_cast<int>(sa.size()), "subspace sizes read back differ");
    MPI_Barrier(comm);
    if (rank == 0) {
      unlink(fn.c_str());
      unlink((fn + "s").c_str());
    }
  }
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Driver d;
  std::string prop = argc > 1 ? argv[1] : "";
  if (prop == "C12") {
    d.add("plain_double", 30, plain<double>);
    d.add("plain_complexfloat", 15, plain<std::complex<float>>);
    d.add("plain_sizes", 15, plainSizes);
    d.add("compressed_double", 30, compressedSmall<double>);
    d.add("compressed_complexfloat", 15, compressedSmall<std::complex<float>>);
    d.add("compressed_float", 15, compressedSmall<float>);
    d.add("compressed_big", 1, compressedBig<double>);
    d.add("compressed_big_complex", 1, compressedBig<std::complex<double>>);
    d.add("sparse_double", 30, sparse<double>);
    d.add("sparse_complex", 15, sparse<std::complex<double>>);
    d.add("sparse_float", 15, sparse<float>);
  } else {
    return 9;
  }
  return d.main(argc - 1, argv + 1);
}
