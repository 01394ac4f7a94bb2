// C19: messages between systems arrive intact, however the network fragments them.
// The socket calls of the library are interposed below: every recv/send of a thread with a schedule transfers at most
// the next number of bytes of that schedule.
#include <dlfcn.h>
#include <mpi.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <complex>
#include <cstring>
#include <fstream>
#include <future>
#include <sstream>
#include <thread>

#include "common/pbt.hpp"
#include "third_level/NetworkUtils.hpp"
#include "third_level/ThirdLevelUtils.hpp"
#include "tlm_glue.hpp"

using namespace combigrid;
using pbt::Ctx;
using pbt::Gen;

namespace {
struct Schedule {
  std::vector<size_t> caps;  // cyclic; empty = unlimited
  size_t pos = 0;
  bool waitAll = false;  // wait for the whole fragment (makes the fragmentation deterministic)
  size_t next(size_t len) {
    if (caps.empty()) return len;
    size_t c = caps[pos++ % caps.size()];
    return c == 0 ? len : std::min(len, c);
  }
};
thread_local Schedule* recvSchedule = nullptr;
thread_local Schedule* sendSchedule = nullptr;
thread_local bool quickTimers = false;
thread_local std::atomic<int>* listenPort = nullptr;
}  // namespace

extern "C" {
ssize_t recv(int fd, void* buf, size_t len, int flags) {
  if (recvSchedule && !(flags & (MSG_WAITALL | MSG_PEEK | MSG_DONTWAIT))) {
    len = recvSchedule->next(len);
    if (recvSchedule->waitAll) flags |= MSG_WAITALL;
  }
  return syscall(SYS_recvfrom, fd, buf, len, flags, nullptr, nullptr);
}
ssize_t send(int fd, const void* buf, size_t len, int flags) {
  if (sendSchedule) {
    len = sendSchedule->next(len);
    int one = 1;  // no delays by Nagle's algorithm
    setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
  }
  return syscall(SYS_sendto, fd, buf, len, flags, nullptr, 0);
}
int select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv) {
  static auto real =
      reinterpret_cast<int (*)(int, fd_set*, fd_set*, fd_set*, struct timeval*)>(dlsym(RTLD_NEXT, "select"));
  struct timeval quick {0, 200};
  if (quickTimers && tv && (tv->tv_sec > 0 || tv->tv_usec > 200)) tv = &quick;
  return real(n, r, w, e, tv);
}
unsigned sleep(unsigned s) {
  static auto real = reinterpret_cast<unsigned (*)(unsigned)>(dlsym(RTLD_NEXT, "sleep"));
  if (quickTimers) return 0;
  return real(s);
}
int listen(int fd, int backlog) {
  static auto real = reinterpret_cast<int (*)(int, int)>(dlsym(RTLD_NEXT, "listen"));
  int r = real(fd, backlog);
  if (r == 0 && listenPort) {
    struct sockaddr_in a;
    socklen_t l = sizeof(a);
    if (getsockname(fd, reinterpret_cast<struct sockaddr*>(&a), &l) == 0) *listenPort = ntohs(a.sin_port);
  }
  return r;
}
}

namespace {
using Cplx = std::complex<double>;

struct Pair {
  std::unique_ptr<ClientSocket> a;  // connected by init()
  std::shared_ptr<ClientSocket> b;  // accepted
};

ServerSocket& server() {
  static ServerSocket* s = [] {
    auto* p = new ServerSocket();
    if (!p->init()) throw std::runtime_error("cannot listen on the loopback interface");
    return p;
  }();
  return *s;
}

Pair connectPair() {
  Pair p;
  p.a = std::make_unique<ClientSocket>("127.0.0.1", server().getPort());
  auto f = std::async(std::launch::async, [] { return server().acceptClient(); });
  if (!p.a->init()) throw std::runtime_error("connect failed");
  p.b = f.get();
  return p;
}

int localPort(int fd) {
  struct sockaddr_in a;
  socklen_t l = sizeof(a);
  getsockname(fd, reinterpret_cast<struct sockaddr*>(&a), &l);
  return ntohs(a.sin_port);
}

Schedule genSchedule(Gen& g) {
  Schedule s;
  int kind = g.irange(0, 5);
  if (kind == 0) return s;
  size_t n = 1 + g.draw(6);
  for (size_t i = 0; i < n; ++i) {
    switch (kind) {
      case 1: s.caps.push_back(1); break;
      case 2: s.caps.push_back(1 + g.draw(4)); break;
      case 3: s.caps.push_back(1 + g.draw(20)); break;
      case 4: s.caps.push_back(1 + g.draw(4000)); break;
      default: s.caps.push_back(g.pick<size_t>({0, 1, 3, 7, 8, 9, 15, 17, 64, 1000})); break;
    }
  }
  return s;
}

std::string str(const Schedule& s) {
  std::string r = "[";
  for (auto c : s.caps) r += std::to_string(c) + " ";
  return r + "]";
}

// ------------------------------------------------------------------------------------------------
enum Kind { STRING_PREFIXED, BUFFER_PREFIXED, RAW, BINARY, BINARY_REDUCE, TO_FILE, LENGTH, NUM_KINDS };
const char* kindName[] = {"prefixed string", "prefixed buffer", "raw", "binary", "binary reduced", "to file", "length"};
enum Type { DOUBLE, FLOAT, CPLX, INT, CHAR, SIZE, NUM_TYPES };
const size_t typeSize[] = {8, 4, 16, 4, 1, 8};
const char* typeName[] = {"double", "float", "complex", "int", "char", "size_t"};

struct Message {
  int kind;
  int type = DOUBLE;
  bool swapped = false;      // sent by a system of the other endianness
  size_t n;                  // elements or bytes
  size_t chunk = 131072;
  int variant = 0;           // string or buffer overload
  std::vector<char> bytes;   // payload, as it lies in the receiver's memory afterwards
  std::vector<char> before;  // for reduce: buffer before
  size_t rawLength() const { return n * (kind == BINARY || kind == BINARY_REDUCE || kind == TO_FILE ? typeSize[type] : 1); }
};

std::vector<char> genBytes(Gen& g, size_t n) {
  std::vector<char> v(n);
  uint64_t s = g.dataSeed();
  for (size_t i = 0; i < n; ++i) v[i] = static_cast<char>(pbt::mix(s + i) >> 17);
  if (g.chance(20))
    for (auto& x : v) x = "0#1"[static_cast<unsigned char>(x) % 3];
  return v;
}

template <typename T>
std::vector<char> genElements(Gen& g, size_t n) {
  std::vector<T> v(n);
  uint64_t s = g.dataSeed();
  for (size_t i = 0; i < n; ++i) {
    uint64_t r = pbt::mix(s + i);
    if constexpr (std::is_same<T, Cplx>::value)
      v[i] = Cplx(static_cast<double>(static_cast<int64_t>(r % 20001) - 10000) / 64., static_cast<double>(r >> 40) / 8.);
    else if constexpr (std::is_floating_point<T>::value)
      v[i] = static_cast<T>(static_cast<double>(static_cast<int64_t>(r % 200001) - 100000) / 64.);
    else
      v[i] = static_cast<T>(r & 0x1fffffffu);
  }
  std::vector<char> b(n * sizeof(T));
  if (n) std::memcpy(b.data(), v.data(), b.size());
  return b;
}

std::vector<char> genElements(Gen& g, int type, size_t n) {
  switch (type) {
    case DOUBLE: return genElements<double>(g, n);
    case FLOAT: return genElements<float>(g, n);
    case CPLX: return genElements<Cplx>(g, n);
    case INT: return genElements<int>(g, n);
    case CHAR: return genElements<char>(g, n);
    default: return genElements<size_t>(g, n);
  }
}

Message genMessage(Gen& g, int kind) {
  Message m;
  m.kind = kind;
  size_t budget = g.pick<size_t>({1, 1, 4, 16, 100, 2000});
  m.n = 1 + g.draw(budget);
  if (g.chance(2)) m.n = 30000 + g.draw(40000);
  m.variant = g.boolean();
  if (kind == BINARY || kind == BINARY_REDUCE || kind == TO_FILE) {
    m.type = static_cast<int>(g.draw(NUM_TYPES));
    m.bytes = genElements(g, m.type, m.n);
    if (kind == BINARY_REDUCE) m.before = genElements(g, m.type, m.n);
    m.chunk = g.pick<size_t>({131072, 1 + g.draw(40), 1 + g.draw(40), 1 + g.draw(1000), 4096, m.rawLength(), m.rawLength() + 1});
    // complex numbers of the other endianness consist of two reversed parts; the library reverses elements only
    m.swapped = kind != TO_FILE && m.type != CPLX && g.chance(25);
  } else if (kind == LENGTH) {
    m.n = 1 + g.draw(5000000000ull);
    if (g.boolean()) m.n = 1 + g.draw(1000);
  } else {
    m.bytes = genBytes(g, m.n);
  }
  return m;
}

std::string str(const Message& m) {
  std::ostringstream s;
  s << kindName[m.kind] << " n=" << m.n;
  if (m.kind == BINARY || m.kind == BINARY_REDUCE || m.kind == TO_FILE)
    s << " " << typeName[m.type] << " chunk=" << m.chunk << (m.swapped ? " swapped" : "");
  return s.str();
}

// what goes over the wire (only used where the library has no sender for it, and for connection losses)
std::string wire(const Message& m) {
  std::string payload(m.bytes.begin(), m.bytes.end());
  switch (m.kind) {
    case STRING_PREFIXED:
    case BUFFER_PREFIXED: return std::to_string(m.n) + "#" + payload;
    case RAW: return payload;
    case LENGTH: return std::to_string(m.n) + "#";
    default: {
      bool little = NetworkUtils::isLittleEndian();
      if (m.swapped) {
        size_t w = typeSize[m.type];
        for (size_t i = 0; i < m.n; ++i) std::reverse(payload.begin() + static_cast<long>(i * w), payload.begin() + static_cast<long>((i + 1) * w));
        little = !little;
      }
      return std::string(1, static_cast<char>(little)) + payload;
    }
  }
}

template <typename T>
bool sendBinary(const ClientSocket& s, const Message& m) {
  std::vector<T> v(m.n);
  std::memcpy(v.data(), m.bytes.data(), m.bytes.size());
  return s.sendallBinary(v.data(), v.size());
}

bool sendMessage(const ClientSocket& s, const Message& m) {
  switch (m.kind) {
    case STRING_PREFIXED:
    case BUFFER_PREFIXED:
      if (m.variant) return s.sendallPrefixed(std::string(m.bytes.begin(), m.bytes.end()));
      return s.sendallPrefixed(m.bytes.data(), m.bytes.size());
    case RAW:
      if (m.variant) return s.sendall(std::string(m.bytes.begin(), m.bytes.end()));
      return s.sendall(m.bytes.data(), m.bytes.size());
    case LENGTH: return s.sendall(wire(m));
    default:
      if (m.swapped) return s.sendall(wire(m));
      switch (m.type) {
        case DOUBLE: return sendBinary<double>(s, m);
        case FLOAT: return sendBinary<float>(s, m);
        case CPLX: return sendBinary<Cplx>(s, m);
        case INT: return sendBinary<int>(s, m);
        case CHAR: return sendBinary<char>(s, m);
        default: return sendBinary<size_t>(s, m);
      }
  }
}

template <typename T>
T add(const T& a, const T& b) { return static_cast<T>(a + b); }
// not commutative: the element of the buffer comes first
template <typename T>
T sub(const T& a, const T& b) { return static_cast<T>(a - b); }

template <typename T>
bool recvBinary(const ClientSocket& s, const Message& m, std::string& err) {
  const size_t pad = 3;  // guard elements behind the buffer
  std::vector<T> buff(m.n + pad), expect(m.n), sent(m.n);
  std::memset(static_cast<void*>(buff.data()), 0x5a, buff.size() * sizeof(T));
  std::vector<T> guard(buff.begin() + static_cast<long>(m.n), buff.end());
  std::memcpy(static_cast<void*>(sent.data()), m.bytes.data(), m.bytes.size());
  bool ok;
  if (m.kind == BINARY) {
    ok = s.recvallBinaryAndCorrectInPlace(buff.data(), m.n, m.chunk);
    expect = sent;
  } else {
    std::memcpy(static_cast<void*>(buff.data()), m.before.data(), m.before.size());
    ReduceFcn<T> op = m.variant ? &add<T> : &sub<T>;
    for (size_t i = 0; i < m.n; ++i) expect[i] = op(buff[i], sent[i]);
    ok = s.recvallBinaryAndReduceInPlace(buff.data(), m.n, op, m.chunk);
  }
  if (ok && std::memcmp(buff.data(), expect.data(), m.n * sizeof(T)) != 0) {
    size_t i = 0;
    while (std::memcmp(&buff[i], &expect[i], sizeof(T)) == 0) ++i;
    err = "element " + std::to_string(i) + " differs";
  }
  if (std::memcmp(&buff[m.n], guard.data(), pad * sizeof(T)) != 0) err = "written behind the buffer";
  return ok;
}

bool receive(const ClientSocket& s, const Message& m, const std::string& scratch, std::string& err) {
  bool ok = false;
  switch (m.kind) {
    case STRING_PREFIXED: {
      std::string x = "old content";
      ok = s.recvallPrefixed(x);
      if (ok && x != std::string(m.bytes.begin(), m.bytes.end())) err = "string differs, length " + std::to_string(x.size());
      return ok;
    }
    case BUFFER_PREFIXED: {
      std::unique_ptr<char[]> x;
      size_t len = 0;
      ok = s.recvallPrefixed(x, len);
      if (ok && (len != m.n || std::memcmp(x.get(), m.bytes.data(), m.n) != 0)) err = "buffer differs, length " + std::to_string(len);
      return ok;
    }
    case RAW: {
      if (m.variant) {
        std::string x;
        ok = s.recvall(x, m.n);
        if (ok && x != std::string(m.bytes.begin(), m.bytes.end())) err = "raw string differs";
      } else {
        std::vector<char> x(m.n + 4, 'z');
        ok = s.recvall(x.data(), m.n);
        if (ok && std::memcmp(x.data(), m.bytes.data(), m.n) != 0) err = "raw bytes differ";
        if (std::string(x.end() - 4, x.end()) != "zzzz") err = "written behind the buffer";
      }
      return ok;
    }
    case LENGTH: {
      size_t len = 0;
      ok = s.recvLength(len);
      if (ok && len != m.n) err = "length " + std::to_string(len);
      return ok;
    }
    case TO_FILE: {
      std::string f = scratch + "/net_received";
      ok = s.recvallBinaryToFile(f, m.bytes.size(), m.chunk);
      if (ok) {
        std::ifstream is(f, std::ios::binary);
        std::string x((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
        if (x != std::string(m.bytes.begin(), m.bytes.end())) err = "file differs, length " + std::to_string(x.size());
      }
      ::unlink(f.c_str());
      return ok;
    }
    default:
      switch (m.type) {
        case DOUBLE: return recvBinary<double>(s, m, err);
        case FLOAT: return recvBinary<float>(s, m, err);
        case CPLX: return recvBinary<Cplx>(s, m, err);
        case INT: return recvBinary<int>(s, m, err);
        case CHAR: return recvBinary<char>(s, m, err);
        default: return recvBinary<size_t>(s, m, err);
      }
  }
}

struct WithSchedules {
  WithSchedules(Schedule* r, Schedule* s) { recvSchedule = r; sendSchedule = s; }
  ~WithSchedules() { recvSchedule = nullptr; sendSchedule = nullptr; }
};

bool atEnd(const ClientSocket& s) {
  char x;
  return syscall(SYS_recvfrom, s.getFileDescriptor(), &x, 1, 0, nullptr, nullptr) == 0;
}

// ------------------------------------------------------------------------------------------------
// A sequence of messages, sent and received with any fragmentation, directly or through a forwarding process
void stream(Gen& g, Ctx& c) {
  size_t k = 1 + g.draw(6);
  std::vector<Message> ms;
  size_t total = 0;
  for (size_t i = 0; i < k; ++i) ms.push_back(genMessage(g, static_cast<int>(g.draw(NUM_KINDS))));
  for (auto& m : ms) total += wire(m).size();
  bool forwarded = g.chance(30);
  size_t fchunk = g.pick<size_t>({131072, 1 + g.draw(30), 1 + g.draw(2000), total});
  bool reverse = g.boolean();  // which end sends
  Schedule snd = genSchedule(g), rcv = genSchedule(g), fr = genSchedule(g), fs = genSchedule(g);
  rcv.waitAll = fr.waitAll = true;
  c.desc << (forwarded ? "forwarded with chunks of " + std::to_string(fchunk) + ", " : "") << "send " << str(snd) << " receive " << str(rcv) << ":";
  for (auto& m : ms) c.desc << " {" << str(m) << "}";
  c.nontrivial = total > 1 && (!snd.caps.empty() || !rcv.caps.empty());
  c.label(forwarded ? "forwarded" : "direct");
  for (auto& m : ms) c.label(kindName[m.kind]);

  auto p = connectPair();
  Pair q;
  c.check(p.b->getRemotePort() == localPort(p.a->getFileDescriptor()), "an accepted connection knows the port of its peer");
  c.check(p.b->getRemoteHost() == "127.0.0.1", "an accepted connection knows the address of its peer");
  const ClientSocket& sender = reverse ? *p.b : *p.a;
  const ClientSocket* receiver = reverse ? p.a.get() : p.b.get();
  std::vector<char> sent(ms.size(), 0);
  std::thread ts([&] {
    WithSchedules w(nullptr, &snd);
    for (size_t i = 0; i < ms.size(); ++i) sent[i] = sendMessage(sender, ms[i]);
    ::shutdown(sender.getFileDescriptor(), SHUT_WR);
  });
  std::thread tf;
  bool forwardOk = true;
  if (forwarded) {
    q = connectPair();
    const ClientSocket* in = receiver;
    const ClientSocket* out = q.b.get();
    receiver = q.a.get();
    tf = std::thread([&, in, out] {
      WithSchedules w(&fr, &fs);
      for (auto& m : ms) forwardOk = NetworkUtils::forward(*in, *out, fchunk, wire(m).size()) && forwardOk;
      ::shutdown(out->getFileDescriptor(), SHUT_WR);
    });
  }
  {
    WithSchedules w(&rcv, nullptr);
    for (size_t i = 0; i < ms.size(); ++i) {
      std::string err;
      bool ok = receive(*receiver, ms[i], c.scratch, err);
      c.checkf(ok, [&](std::ostream& o) { o << "message " << i << " not received: " << str(ms[i]); });
      c.checkf(err.empty(), [&](std::ostream& o) { o << "message " << i << " (" << str(ms[i]) << "): " << err; });
      if (!ok || !err.empty()) break;
    }
  }
  bool end = c.failed || atEnd(*receiver);
  ::shutdown(receiver->getFileDescriptor(), SHUT_RDWR);
  ts.join();
  if (tf.joinable()) tf.join();
  if (!c.failed) {
    c.check(end, "bytes left over after the last message");
    c.check(forwardOk, "forward reported a failure");
    for (size_t i = 0; i < ms.size(); ++i)
      c.checkf(sent[i], [&](std::ostream& o) { o << "sending message " << i << " reported a failure"; });
  }
}

// The connection is lost while a message is received: reported, and earlier messages unharmed
void lost(Gen& g, Ctx& c) {
  size_t k = 1 + g.draw(3);
  std::vector<Message> ms;
  for (size_t i = 0; i < k; ++i) ms.push_back(genMessage(g, static_cast<int>(g.draw(NUM_KINDS))));
  std::string last = wire(ms.back());
  size_t cut = g.chance(25) ? last.size() - 1 : g.draw(last.size());
  bool forwarded = g.chance(30);
  size_t fchunk = g.pick<size_t>({131072, 1 + g.draw(30)});
  Schedule snd = genSchedule(g), rcv = genSchedule(g), fr = genSchedule(g);
  rcv.waitAll = fr.waitAll = true;
  c.desc << "connection lost after " << cut << " of " << last.size() << " bytes of the last message" << (forwarded ? ", forwarded" : "")
         << ", receive " << str(rcv) << ":";
  for (auto& m : ms) c.desc << " {" << str(m) << "}";
  c.nontrivial = cut > 0;
  c.label("connection lost while receiving");
  auto p = connectPair();
  Pair q;
  const ClientSocket* receiver = p.b.get();
  std::thread ts([&] {
    WithSchedules w(nullptr, &snd);
    for (size_t i = 0; i + 1 < ms.size(); ++i) sendMessage(*p.a, ms[i]);
    if (cut > 0) p.a->sendall(last.data(), cut);
    ::shutdown(p.a->getFileDescriptor(), SHUT_WR);
  });
  std::thread tf;
  bool forwardOk = false;
  if (forwarded) {
    q = connectPair();
    receiver = q.a.get();
    tf = std::thread([&] {
      WithSchedules w(&fr, nullptr);
      for (auto& m : ms) forwardOk = NetworkUtils::forward(*p.b, *q.b, fchunk, wire(m).size());
      ::shutdown(q.b->getFileDescriptor(), SHUT_WR);
    });
  }
  {
    WithSchedules w(&rcv, nullptr);
    for (size_t i = 0; i < ms.size() && !c.failed; ++i) {
      std::string err;
      bool ok = receive(*receiver, ms[i], c.scratch, err);
      if (i + 1 < ms.size()) {
        c.checkf(ok, [&](std::ostream& o) { o << "message " << i << " not received: " << str(ms[i]); });
        c.checkf(err.empty(), [&](std::ostream& o) { o << "message " << i << ": " << err; });
      } else {
        c.checkf(!ok, [&](std::ostream& o) { o << "incomplete message reported as received: " << str(ms[i]); });
      }
    }
  }
  ::shutdown(receiver->getFileDescriptor(), SHUT_RDWR);
  ts.join();
  if (tf.joinable()) tf.join();
  c.check(!forwarded || c.failed || !forwardOk, "forwarding an incomplete message reported success");
}

// The receiving end is gone: every further sending is reported as failed (and does not end the process)
void sendLost(Gen& g, Ctx& c) {
  auto m = genMessage(g, g.pick<int>({STRING_PREFIXED, BUFFER_PREFIXED, RAW, BINARY}));
  int times = g.irange(1, 3);
  bool abortive = g.boolean();
  bool viaForward = g.chance(25);
  Schedule snd = genSchedule(g);
  c.desc << (abortive ? "peer reset" : "peer closed") << (viaForward ? ", forward" : "") << ", send " << times << " x {" << str(m) << "}";
  c.nontrivial = times > 1;
  c.label("connection lost while sending");
  auto p = connectPair();
  int fd = p.a->getFileDescriptor();
  if (abortive) {
    struct linger l {1, 0};
    setsockopt(p.b->getFileDescriptor(), SOL_SOCKET, SO_LINGER, &l, sizeof(l));
  }
  p.b.reset();
  // the first byte sent to a closed peer is answered by a reset
  if (!abortive) syscall(SYS_sendto, fd, "x", size_t(1), MSG_NOSIGNAL, nullptr, 0);
  struct pollfd pf {fd, 0, 0};
  for (int i = 0; i < 2000 && !(pf.revents & (POLLERR | POLLHUP)); ++i) ::poll(&pf, 1, 10);
  WithSchedules w(nullptr, &snd);
  for (int i = 0; i < times; ++i) {
    bool ok;
    if (viaForward) {
      auto q = connectPair();
      sendMessage(*q.a, m);
      ok = NetworkUtils::forward(*q.b, *p.a, 131072, wire(m).size());
    } else {
      ok = sendMessage(*p.a, m);
    }
    c.check(!ok, "sending to a closed connection reported success");
  }
}

// ------------------------------------------------------------------------------------------------
// Two systems exchanging data through the third level manager
struct Op {
  int kind;                                // 0 combine, 1 unify sizes, 2 exchange both ways, 3 exchange one way, 4 file
  std::vector<std::vector<double>> a, b;   // data of the two systems, per grid
};

struct SystemResult {
  std::vector<std::vector<std::vector<double>>> data;
  std::string error;
};

void runSystem(std::unique_ptr<ThirdLevelUtils> system, const std::vector<Op>& ops, bool second, Schedule snd, Schedule rcv, const std::vector<int>& delays, SystemResult& r) {
  WithSchedules w(&rcv, &snd);
  quickTimers = true;
  try {
    auto& t = *system;
    for (size_t i = 0; i < ops.size(); ++i) {
      if (delays[i] > 0) std::this_thread::sleep_for(std::chrono::microseconds(delays[i]));
      const auto& op = ops[i];
      auto mine = second ? op.b : op.a;
      std::vector<std::vector<double>> res;
      if (op.kind == 4) {
        t.signalReadyToCombineFile();
        auto ins = t.fetchInstruction();
        if (ins != "write_ok") r.error += "instruction " + ins + " for a file based combination; ";
        t.signalReady();
        r.data.push_back(res);
        continue;
      }
      if (op.kind == 0) t.signalReadyToCombine();
      if (op.kind == 1) t.signalReadyToUnifySubspaceSizes();
      if (op.kind == 2) t.signalReadyToExchangeData();
      auto ins = t.fetchInstruction();
      if (ins != "send_first" && ins != "recv_first") {
        r.error += "instruction '" + ins + "'; ";
        break;
      }
      bool first = ins == "send_first";
      for (auto& m : mine) {
        if (op.kind == 0) {
          if (first) {
            t.sendData(m.data(), m.size());
            t.recvData(m.data(), m.size());
          } else {
            t.recvAndAddToData(m.data(), m.size());
            t.sendData(m.data(), m.size());
          }
          res.push_back(m);
        } else {
          std::vector<double> other(m.size());
          if (first) {
            t.sendData(m.data(), m.size());
            t.recvData(other.data(), other.size());
          } else {
            t.recvData(other.data(), other.size());
            t.sendData(m.data(), m.size());
          }
          res.push_back(other);
        }
      }
      t.signalReady();
      r.data.push_back(res);
    }
  } catch (const std::exception& e) {
    r.error += e.what();
  }
  system.reset();  // logs off
  quickTimers = false;
}

void broker(Gen& g, Ctx& c) {
  size_t k = g.draw(5);
  std::vector<Op> ops;
  size_t numCombi = 0, bytesCombi = 0, bytesSizes = 0;
  for (size_t i = 0; i < k; ++i) {
    Op op;
    op.kind = g.pick<int>({0, 0, 1, 2, 4});
    size_t grids = op.kind == 4 ? 0 : op.kind == 0 ? 1 + g.draw(3) : 1;
    for (size_t j = 0; j < grids; ++j) {
      size_t n = 1 + g.draw(g.pick<size_t>({3, 40, 3000}));
      auto gen = [&] {
        auto b = genElements<double>(g, n);
        std::vector<double> v(n);
        std::memcpy(v.data(), b.data(), b.size());
        return v;
      };
      op.a.push_back(gen());
      op.b.push_back(gen());
      if (op.kind == 0) bytesCombi += 2 * (8 * n + 1);
      if (op.kind == 1) bytesSizes += 2 * (8 * n + 1);
    }
    if (op.kind == 0 || op.kind == 4) ++numCombi;
    ops.push_back(op);
  }
  size_t chunk = g.pick<size_t>({131072, 1 + g.draw(30), 1 + g.draw(5000)});
  bool fromFile = g.boolean();
  Schedule s[3], r[3];
  for (int i = 0; i < 3; ++i) {
    s[i] = genSchedule(g);
    r[i] = genSchedule(g);
  }
  std::vector<int> da, db;
  for (size_t i = 0; i < k; ++i) {
    da.push_back(g.pick<int>({0, 0, 300, 1000}));
    db.push_back(g.pick<int>({0, 0, 300, 1000}));
  }
  c.desc << "two systems through the third level manager, chunk " << chunk << ", operations:";
  for (auto& op : ops) {
    c.desc << " " << op.kind << "(";
    for (auto& a : op.a) c.desc << a.size() << " ";
    c.desc << ")";
  }
  c.nontrivial = k > 0;
  c.label("third level manager");
  for (auto& op : ops) c.label("operation " + std::to_string(op.kind));

  std::string params = c.scratch + "/tlm.ini", stats = c.scratch + "/tlm_stats.json";
  {
    std::ofstream o(params);
    o << "[Connection]\nport = 0\nchunksize = " << chunk << "\n[DistributedCombi]\nnumSystems = 2\n";
  }
  std::atomic<int> port{0};
  std::string tlmError;
  std::thread tm([&] {
    WithSchedules w(&r[2], &s[2]);
    quickTimers = true;
    listenPort = &port;
    tlmError = runThirdLevelManager(fromFile, params, chunk, stats);
  });
  while (port == 0) std::this_thread::sleep_for(std::chrono::microseconds(50));
  SystemResult ra, rb;
  // connecting one after the other: name resolution is not thread safe
  auto connect = [&] {
    auto t = std::make_unique<ThirdLevelUtils>("127.0.0.1", port);
    t->connectToThirdLevelManager(1.);
    return t;
  };
  auto ta = connect();
  auto tb2 = connect();
  std::thread tb([&] { runSystem(std::move(tb2), ops, true, s[1], r[1], db, rb); });
  runSystem(std::move(ta), ops, false, s[0], r[0], da, ra);
  tb.join();
  tm.join();
  c.checkf(tlmError.empty() && ra.error.empty() && rb.error.empty(), [&](std::ostream& o) {
    o << "errors: manager '" << tlmError << "' systems '" << ra.error << "' '" << rb.error << "'";
  });
  for (size_t i = 0; i < k && !c.failed; ++i) {
    auto ea = ops[i].b, eb = ops[i].a;
    if (ops[i].kind == 0)
      for (size_t j = 0; j < ea.size(); ++j)
        for (size_t x = 0; x < ea[j].size(); ++x) ea[j][x] = eb[j][x] = ops[i].a[j][x] + ops[i].b[j][x];
    c.checkf(i < ra.data.size() && ra.data[i] == ea, [&](std::ostream& o) { o << "operation " << i << ": first system received other data"; });
    c.checkf(i < rb.data.size() && rb.data[i] == eb, [&](std::ostream& o) { o << "operation " << i << ": second system received other data"; });
  }
  std::ifstream is(stats);
  std::string txt((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
  auto has = [&](const std::string& key, size_t v) {
    auto q = "\"" + key + "\": \"" + std::to_string(v) + "\"";
    c.checkf(txt.find(q) != std::string::npos, [&](std::ostream& o) { o << "statistics lack " << q << ": " << txt; });
  };
  has("numCombinations", numCombi);
  has("totalBytesTransferredInCombination", bytesCombi);
  has("totalBytesTransferredInSizeExchange", bytesSizes);
  ::unlink(stats.c_str());
  ::unlink(params.c_str());
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Driver d;
  std::string prop = argc > 1 ? argv[1] : "";
  if (prop != "C19") return 9;
  d.add("stream", 10, stream);
  d.add("lost", 4, lost);
  d.add("send_lost", 1, sendLost);
  d.add("broker", 3, broker);
  return d.main(argc - 1, argv + 1);
}
