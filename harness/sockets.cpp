// Socket clients and servers over the loopback: generated conversations and injected faults against the bytes
// that were sent, the states that were announced and the descriptors that were held.
#include "pbt.hpp"
#include <arpa/inet.h>
#include <deque>
#include <fcntl.h>
#include <memory>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
#include <ecl/devices.hpp>
#include <ecl/devices/socket.hpp>
#include <ecl/devices/detail/socket_error_handler_pos.hpp>
#include <ecl/devices/detail/socket_exception_handler_pos.hpp>
#include <ecl/streams.hpp>
using namespace ecl;
#ifdef NDEBUG
enum { DEBUG_CHECKS = 0 };
#else
enum { DEBUG_CHECKS = 1 };
#endif
/* ------------------------------------------------------------------------------- injected faults */
static thread_local bool off = false;            // the harness's own calls are never disturbed
struct Calm { bool was; Calm() : was(off) { off = true; } ~Calm() { off = was; } };
static int f_call = 0, f_errno = 0, f_herrno = 0; // 1 socket 2 bind 3 accept 4 connect 5 recv 6 send 7 ioctl 8 gethostbyname
static bool hit(int call) { if (off || f_call != call) return false; f_call = 0; errno = f_errno; return true; }
extern "C" {
int __real_socket(int, int, int); int __wrap_socket(int a, int b, int d) { if (hit(1)) return -1; return __real_socket(a, b, d); }
int __real_bind(int, const sockaddr*, socklen_t); int __wrap_bind(int a, const sockaddr* b, socklen_t d) { if (hit(2)) return -1; return __real_bind(a, b, d); }
int __real_accept(int, sockaddr*, socklen_t*); int __wrap_accept(int a, sockaddr* b, socklen_t* d) { if (hit(3)) return -1; return __real_accept(a, b, d); }
int __real_connect(int, const sockaddr*, socklen_t); int __wrap_connect(int a, const sockaddr* b, socklen_t d) { if (hit(4)) return -1; return __real_connect(a, b, d); }
ssize_t __real_recv(int, void*, size_t, int); ssize_t __wrap_recv(int a, void* b, size_t d, int e) { if (hit(5)) return -1; return __real_recv(a, b, d, e); }
ssize_t __real_send(int, const void*, size_t, int); ssize_t __wrap_send(int a, const void* b, size_t d, int e) { if (hit(6)) return -1; return __real_send(a, b, d, e); }
int __real_ioctl(int, unsigned long, void*); int __wrap_ioctl(int a, unsigned long b, void* d) { if (hit(7)) return -1; return __real_ioctl(a, b, d); }
hostent* __real_gethostbyname(const char*); hostent* __wrap_gethostbyname(const char* n) { if (hit(8)) { h_errno = f_herrno; return 0; } return __real_gethostbyname(n); }
}
/* -------------------------------------------------------------------------------------- harness */
static std::vector<int> fds() { std::vector<int> v; for (int i = 0; i < 128; ++i) if (fcntl(i, F_GETFD) != -1) v.push_back(i); return v; }
static sockaddr_in at(int port) { sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons((uint16_t)port); return a; }
static int next_port() {                          // every process has ports of its own
  static int base = 0, k = 0; Calm calm;
  if (!base) for (int slot = 0; slot < 80 && !base; ++slot) { int fd = socket(AF_INET, SOCK_DGRAM, 0); sockaddr_in a = at(20000 + slot); if (bind(fd, (sockaddr*)&a, sizeof a) == 0) base = 21000 + slot * 100; else ::close(fd); }
  if (!base) throw pbt::Discard();
  return base + (k++ % 100);
}
static int raw_listen(int port) { Calm calm; int fd = socket(AF_INET, SOCK_STREAM, 0), on = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on); sockaddr_in a = at(port); if (bind(fd, (sockaddr*)&a, sizeof a) != 0 || ::listen(fd, 4) != 0) { ::close(fd); throw pbt::Discard(); } return fd; }
static int raw_connect(int port) { Calm calm; for (int i = 0; i < 20000; ++i) { int fd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a = at(port); if (connect(fd, (sockaddr*)&a, sizeof a) == 0) return fd; ::close(fd); if (i > 50) usleep(100); else std::this_thread::yield(); } return -1; }
__attribute__((noinline)) static void smear() { volatile unsigned char junk[4096]; for (size_t i = 0; i < sizeof junk; ++i) junk[i] = 0xa5; }  // leaves no zeros where locals will be
// One end of a conversation: a client, a server, or a plain socket of the harness.
struct End {
  SocketClient* cl = 0; SocketServer* sv = 0; int raw = -1;
  std::string name() const { return cl ? "client" : sv ? "server" : "peer"; }
  bool sut() const { return cl || sv; }
  bool open() const { return cl ? cl->open() : sv ? sv->open() : raw >= 0; }
  long write(const char* p, unsigned long n) { if (cl) return cl->write(p, n); if (sv) return sv->write(p, n); Calm k; return ::send(raw, p, n, MSG_NOSIGNAL); }
  long put(char ch) { if (cl) return cl->write(ch); if (sv) return sv->write(ch); return write(&ch, 1); }
  long read(char* p, unsigned long n) { if (cl) return cl->read(p, n); if (sv) return sv->read(p, n); Calm k; return ::recv(raw, p, n, 0); }
  long get(char& ch) { if (cl) return cl->read(ch); if (sv) return sv->read(ch); return read(&ch, 1); }
  long peek(char* p, unsigned long n) { return cl ? cl->peek(p, n) : sv->peek(p, n); }
  long remaining() { smear(); return cl ? cl->remaining() : sv->remaining(); }
  const Error& error() { return cl ? cl->error() : sv->error(); }
  void flush() { if (cl) cl->flush(); if (sv) sv->flush(); }
  void close() { if (cl) cl->close(); else if (sv) sv->close(); else if (raw >= 0) { ::close(raw); raw = -1; } }
};
// Connects a to b (one of them a listener); throws whatever the listener throws.
struct Meeting {
  std::string trouble; int handle = -1;
  void accept_in(SocketServer* sv) { try { handle = sv->listen(); } catch (const StandardException& e) { trouble = e.what(); } }
};
static void meet(pbt::Src& s, End& c, End& l, int port) {
  std::string host = s.coin(1, 3) ? "localhost" : "127.0.0.1";
  if (l.sv) {
    Meeting m; std::thread t([&] { m.accept_in(l.sv); }); std::string bad; bool up = false;
    if (c.cl) { for (int i = 0; i < 20000 && !up && bad.empty(); ++i) { try { up = c.cl->open(host, (unsigned)port); if (!up) bad = "open() was refused without an exception"; } catch (const StandardException& e) { if (e.flag() != ConnectionRefusedError) bad = std::string("open() threw ") + e.what(); else if (c.cl->open()) bad = "a client that was refused calls itself open"; if (i > 50) usleep(100); else std::this_thread::yield(); } } }
    else { c.raw = raw_connect(port); up = c.raw >= 0; if (!up) bad = "the server does not answer"; }
    if (!up) { int r = raw_connect(port); if (r >= 0) ::close(r); else if (bad.empty()) bad = "the server does not answer"; }
    t.join(); if (!bad.empty()) FAIL(bad); if (!m.trouble.empty()) FAIL("listen() failed: " << m.trouble); if (!up) FAIL("no connection was made"); CHECK(fcntl(m.handle, F_GETFD) != -1, "listen() returned " << m.handle << ", not a descriptor"); CHECK(l.sv->error().flag() == NoError, "error after listening: " << l.sv->error().what());
  } else {
    int lf = raw_listen(port); try { CHECK(c.cl->open(host, (unsigned)port), "a client could not open a connection"); } catch (const StandardException& e) { ::close(lf); FAIL("open() threw " << e.what()); }
    { Calm k; l.raw = accept(lf, 0, 0); } ::close(lf); if (l.raw < 0) FAIL("nobody called");
  }
  if (c.cl) CHECK(c.cl->open() && c.cl->error().flag() == NoError, "after opening: open " << c.cl->open() << ", error " << c.cl->error().what());
}
static void raw_wait(int fd) { pollfd p{fd, POLLIN, 0}; ::poll(&p, 1, 5000); }
enum Kind { ClientServer, ClientPeer, PeerServer };
static const int flags_all = 0;
PBT_T(socket_talk, 6, 20, "both ends received something, or one closed after a conversation") {
  (void)flags_all; std::vector<int> before; next_port(); before = fds();
  { Kind kind = s.of<Kind>({ClientServer, ClientPeer, PeerServer}); int fill = s.of<int>({0, 0xff, 0x5a}); pbt::Dirty<SocketClient> dc(fill); pbt::Dirty<SocketServer> ds(fill); End e[2]; std::unique_ptr<SocketServer> by_port;
    if (kind != PeerServer) e[0].cl = &*dc;
    if (kind != ClientPeer) e[1].sv = &*ds;
    CHECK(!dc->open() && !ds->open() && dc->error().flag() == NoError && ds->error().flag() == NoError, "new sockets: open " << dc->open() << ds->open() << ", errors " << dc->error().what() << " " << ds->error().what());
    for (int k = 0; k < 2; ++k) if (e[k].sut() && s.coin(1, 4)) { char q[4]; long r[4] = {e[k].write("abc", 3), e[k].read(q, 3), e[k].peek(q, 3), e[k].remaining()}; for (int i = 0; i < 4; ++i) CHECK(r[i] == ConnectionDisconnected, "operation " << i << " on an unopened " << e[k].name() << " returned " << r[i]); }
    int rounds = s.len(1, 3); bool talked = false, ended = false;
    for (int r = 0; r < rounds; ++r) {
      int port = next_port(); NOTE("round " << r << (kind == ClientServer ? ": client and server" : kind == ClientPeer ? ": client" : ": server"));
      if (e[1].sv) { if (s.coin(1, 3)) { try { by_port.reset(new SocketServer((unsigned)port)); } catch (const StandardException& x) { FAIL("a server could not be constructed: " << x.what()); } e[1].sv = by_port.get(); } else { bool up = false; try { up = e[1].sv->open((unsigned)port); } catch (const StandardException& x) { FAIL("a server could not be opened: " << x.what()); } CHECK(up, "opening a server returned false"); } CHECK(e[1].sv->open() && e[1].sv->error().flag() == NoError, "a server that was opened: open " << e[1].sv->open() << ", error " << e[1].sv->error().what()); }
      meet(s, e[0], e[1], port);
      std::string q[2]; int n = s.len(1, 25); bool got[2] = {false, false}; int alive = 1;
      auto take = [&](int k, const char* p, long got_n, const char* how) { if (got_n < 1 || (size_t)got_n > q[k].size()) FAIL(e[k].name() << " " << how << " returned " << got_n << " with " << q[k].size() << " bytes on the way"); if (q[k].compare(0, (size_t)got_n, p, (size_t)got_n)) FAIL(e[k].name() << " received " << pbt::quote(std::string(p, (size_t)got_n)) << ", sent was " << pbt::quote(q[k].substr(0, (size_t)got_n))); };
      auto clean = [&](int k, const char* how) { if (e[k].sut()) CHECK(e[k].open() && e[k].error().flag() == NoError, e[k].name() << " after " << how << ": open " << e[k].open() << ", error " << e[k].error().what()); };
      auto receive = [&](int k, unsigned long m) { std::vector<char> b(m + 8, 'Z'); if (e[k].raw >= 0) raw_wait(e[k].raw); long g = m == 1 && s.coin() ? e[k].get(b[0]) : e[k].read(&b[0], m); take(k, &b[0], g, "read"); CHECK((unsigned long)g <= m, "read " << g << " of at most " << m); for (unsigned long i = (unsigned long)g; i < b.size(); ++i) CHECK(b[i] == 'Z', "read wrote behind what it returned"); q[k].erase(0, (size_t)g); got[k] = true; clean(k, "reading"); };
      auto finish = [&](int k) {  // end k closes; the other end reads what is left and is then told
        if (s.coin(7, 8)) while (!q[k].empty()) receive(k, q[k].size());
        bool reset = !q[k].empty(); int o = 1 - k;
        int mode = e[k].raw >= 0 ? (int)s.below(3) : 0; NOTE("the " << e[k].name() << " closes" << (reset ? " with unread bytes" : mode == 1 ? " its half" : mode == 2 ? " abruptly" : ""));
        if (mode == 1) ::shutdown(e[k].raw, SHUT_WR); else { if (mode == 2) { linger lg{1, 0}; setsockopt(e[k].raw, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); reset = true; } e[k].close(); CHECK(!e[k].open(), "open after close"); }
        int canary = mode == 1 ? -1 : ::open("/dev/null", O_RDONLY);
        if (mode != 1 && e[k].sut()) { char b[4]; long x[4] = {e[k].read(b, 2), e[k].write("x", 1), e[k].peek(b, 2), e[k].remaining()}; for (int i = 0; i < 4; ++i) CHECK(x[i] == ConnectionDisconnected, "operation " << i << " on a closed " << e[k].name() << " returned " << x[i]); if (s.coin()) e[k].close(); }
        if (e[o].sut() && !reset) {
          while (!q[o].empty()) receive(o, 1 + s.below(q[o].size()));
          if (s.coin(1, 3)) { char b; long p = e[o].peek(&b, 1); CHECK(p == 0, "peeking at the end returned " << p); }
          char b[3]; long x = s.coin() ? e[o].get(b[0]) : e[o].read(b, 3); CHECK(x == ConnectionHungUp, e[o].name() << " read " << x << " although the other end has closed"); CHECK(!e[o].open(), e[o].name() << " stays open although the other end has closed"); x = e[o].read(b, 3); CHECK(x == ConnectionDisconnected, "a read after the end returned " << x);
        } else if (e[o].sut() && e[o].cl && mode == 2) {
          char b[1000]; long x = 0; for (int i = 0; i < 40000; ++i) { x = e[o].read(b, 1 + s.below(2) * 999); if (x <= 0) break; take(o, b, x, "read"); q[o].erase(0, (size_t)x); } CHECK(x == ConnectionHungUp && !e[o].open(), "a client read " << x << " from a connection that was reset, open " << e[o].open());
        }
        int canary2 = ::open("/dev/null", O_RDONLY); for (int i = 0; i < 2; ++i) { e[o].close(); e[k].close(); }
        for (int cy : {canary, canary2}) if (cy >= 0) { CHECK(fcntl(cy, F_GETFD) != -1, "closing a socket twice closed somebody else's descriptor"); ::close(cy); }
        alive = 0; ended = true;
      };
      for (int i = 0; i < n && alive; ++i) {
        int k = (int)s.below(2), o = 1 - k; std::string t; size_t room = q[o].size() < 30000 ? 30000 - q[o].size() : 0;
        switch (s.weighted({6, 6, 2, 2, 1})) {
          case 0: { t = s.coin(1, 8) ? std::string(s.below(12000), (char)('a' + s.below(26))) : s.bytes_str(1, 40); if (t.size() > room || t.empty()) break; long w = t.size() == 1 && s.coin() ? e[k].put(t[0]) : e[k].write(t.data(), t.size()); if (s.coin(1, 4)) e[k].flush(); NOTE(e[k].name() << " writes " << (t.size() > 60 ? std::to_string(t.size()) + " bytes" : pbt::quote(t))); CHECK(w == (long)t.size(), e[k].name() << " wrote " << w << " of " << t.size() << " bytes"); q[o] += t; clean(k, "writing"); break; }
          case 1: if (!q[k].empty()) { unsigned long m = s.coin(1, 4) ? 1 : s.coin() ? q[k].size() : 1 + s.below(q[k].size() + 10); NOTE(e[k].name() << " reads " << m << " of " << q[k].size()); receive(k, m); } break;
          case 2: if (e[k].sut() && !q[k].empty()) { unsigned long m = 1 + s.below(q[k].size() + 10); std::vector<char> b(m + 8, 'Z'); long g = e[k].peek(&b[0], m); NOTE(e[k].name() << " peeks " << m); take(k, &b[0], g, "peek"); CHECK((unsigned long)g <= m, "peeked " << g << " of " << m); clean(k, "peeking"); } break;
          case 3: if (e[k].sut()) { long g = 0; for (int w = 0; w < 20000; ++w) { g = e[k].remaining(); if (g < 0 || (size_t)g >= q[k].size()) break; usleep(50); } NOTE(e[k].name() << " remaining"); CHECK(g == (long)q[k].size(), e[k].name() << " has " << g << " bytes remaining, sent were " << q[k].size()); clean(k, "asking for what remains"); } break;
          default: if (s.coin(1, 3)) { if (got[0] && got[1]) talked = true; finish(k); } break;
        }
      }
      if (got[0] && got[1]) talked = true;
      if (alive) { if (s.coin(1, 3)) { if (r + 1 == rounds) { for (int k = 0; k < 2; ++k) if (e[k].raw >= 0) e[k].close(); break; } for (int k = 0; k < 2; ++k) if (e[k].raw >= 0) e[k].close(); c.label(true, "opened while open"); } else finish((int)s.below(2)); }
    }
    c.nontrivial(talked || ended); c.label(kind == ClientServer, "client and server"); c.label(rounds > 1, "opened again"); c.label(talked, "both received"); }
  std::vector<int> after = fds(); if (before != after) { std::ostringstream o; for (int f : after) o << f << " "; FAIL("descriptors before " << before.size() << ", after: " << o.str()); }
}
struct Row { int call, err; ErrorFlag flag; };
static const Row rows[] = {
  {1, EACCES, OpenError}, {1, EAFNOSUPPORT, NotSupportedError}, {1, EINVAL, InvalidArgError}, {1, EMFILE, OutOfRangeError}, {1, ENFILE, OutOfResourcesError}, {1, ENOBUFS, MemoryError}, {1, ENOMEM, MemoryError}, {1, EPROTONOSUPPORT, NotSupportedError}, {1, EPERM, UnknownError},
  {2, EACCES, PermissionsError}, {2, EADDRINUSE, BusyError}, {2, EBADF, InvalidObjectError}, {2, EINVAL, BusyError}, {2, ENOTSOCK, InvalidObjectError}, {2, EADDRNOTAVAIL, InvalidObjectError}, {2, EFAULT, OutOfRangeError}, {2, ELOOP, SystemFailureError}, {2, ENAMETOOLONG, InvalidArgError}, {2, ENOMEM, MemoryError}, {2, EROFS, PermissionsError}, {2, EPERM, UnknownError},
  {3, EWOULDBLOCK, BlockingError}, {3, EBADF, InvalidObjectError}, {3, ECONNABORTED, InterruptedError}, {3, EINTR, InterruptedError}, {3, EINVAL, UsageError}, {3, EMFILE, OutOfResourcesError}, {3, ENFILE, OutOfResourcesError}, {3, ENOTSOCK, InvalidObjectError}, {3, EOPNOTSUPP, InvalidObjectError}, {3, EFAULT, PermissionsError}, {3, ENOBUFS, MemoryError}, {3, ENOMEM, MemoryError}, {3, EPERM, PermissionsError},
  {4, EACCES, PermissionsError}, {4, EPERM, PermissionsError}, {4, EADDRINUSE, BusyError}, {4, EAFNOSUPPORT, NotSupportedError}, {4, EAGAIN, OutOfResourcesError}, {4, EALREADY, BlockingError}, {4, EBADF, InvalidObjectError}, {4, ECONNREFUSED, ConnectionRefusedError}, {4, EFAULT, OutOfRangeError}, {4, EINPROGRESS, BlockingError}, {4, EINTR, InterruptedError}, {4, EISCONN, ConnectionError}, {4, ENOTSOCK, InvalidObjectError}, {4, ETIMEDOUT, TimeOutError},
  {5, EAGAIN, InterruptedError}, {5, EBADF, InvalidObjectError}, {5, ECONNREFUSED, ConnectionError}, {5, EFAULT, SystemFailureError}, {5, EINTR, InterruptedError}, {5, EINVAL, InvalidArgError}, {5, ENOMEM, MemoryError}, {5, ENOTCONN, ConnectionError}, {5, ENOTSOCK, InvalidObjectError}, {5, EPERM, UnknownError},
  {6, EAGAIN, BlockingError}, {6, EACCES, PermissionsError}, {6, EBADF, InvalidObjectError}, {6, EFAULT, SystemFailureError}, {6, EINTR, InterruptedError}, {6, EINVAL, InvalidArgError}, {6, EISCONN, ConnectionError}, {6, EMSGSIZE, WriteError}, {6, ENOBUFS, OutOfResourcesError}, {6, ENOMEM, MemoryError}, {6, ENOTCONN, ConnectionError}, {6, ENOTSOCK, InvalidObjectError}, {6, EOPNOTSUPP, NotSupportedError}, {6, EPERM, UnknownError},
  {7, EBADF, InvalidObjectError}, {7, EFAULT, OutOfRangeError}, {7, EINVAL, InvalidArgError}, {7, ENOTTY, InvalidObjectError}};
// both reports of an error, for every code that has a documented meaning
PBT(socket_codes, 1, "always") {
  const Row& r = rows[s.below(sizeof rows / sizeof *rows)]; NOTE("call " << r.call << " errno " << r.err); static const char* names[] = {"", "socket", "bind", "accept", "connection", "receive", "send", "ioctl"};
  errno = r.err; StandardException x = r.call == 1 ? devices::socket_exception(LOC) : r.call == 2 ? devices::bind_exception(LOC) : r.call == 3 ? devices::accept_exception(LOC) : r.call == 4 ? devices::connection_exception(LOC) : r.call == 5 ? devices::receive_exception(LOC) : r.call == 6 ? devices::send_exception(LOC) : devices::ioctl_exception(LOC);
  errno = r.err; Error e = r.call == 1 ? devices::socket_error() : r.call == 2 ? devices::bind_error() : r.call == 3 ? devices::accept_error() : r.call == 4 ? devices::connection_error() : r.call == 5 ? devices::receive_error() : r.call == 6 ? devices::send_error() : devices::ioctl_error();
  CHECK(x.flag() == r.flag, names[r.call] << " exception for errno " << r.err << ": " << x.what()); CHECK(e.flag() == r.flag, names[r.call] << " error for errno " << r.err << ": " << e.what()); c.nontrivial();
}
PBT_T(socket_faults, 3, 20, "always: a system call fails") {
  next_port(); std::vector<int> before = fds(); const Row& r = rows[s.below(sizeof rows / sizeof *rows)]; f_errno = r.err; f_herrno = 0; f_call = 0; int port = next_port();
  { int fill = s.of<int>({0, 0xff, 0x5a}); pbt::Dirty<SocketClient> dc(fill); pbt::Dirty<SocketServer> ds(fill); SocketClient& cl = *dc; SocketServer& sv = *ds; bool at_server = r.call == 2 || r.call == 3 ? true : r.call == 4 ? false : s.coin(); NOTE("errno " << r.err << " in call " << r.call << (at_server ? " of a server" : " of a client"));
    auto flag = [&](std::function<void()> f) -> int { try { f(); } catch (const StandardException& e) { return e.flag(); } return -1; };
    if (r.call <= 4 && r.call != 3) {  // no connection comes about
      bool again = s.coin(1, 3), ctor = !again && s.coin(1, 3); int lf = raw_listen(port), p2 = next_port();
      if (again) { if (at_server) sv.open((unsigned)p2); else { cl.open("127.0.0.1", (unsigned)port); } }
      f_call = r.call; int got = flag([&] { if (at_server) { if (ctor) SocketServer x((unsigned)p2); else sv.open((unsigned)p2); } else { if (ctor) SocketClient x("127.0.0.1", (unsigned)port); else cl.open("127.0.0.1", (unsigned)port); } });
      bool used = f_call == 0; f_call = 0; ::close(lf); CHECK(used, "the call was not made"); CHECK(got == r.flag, "flag " << got << " of a failed open, expected " << r.flag); if (!ctor) CHECK(!(at_server ? sv.open() : cl.open()), "open although opening failed");
      char b; long x = at_server ? sv.read(&b, 1) : cl.read(&b, 1); CHECK(x == ConnectionDisconnected, "a read returned " << x << " although opening failed");
      if (s.coin()) { if (at_server) { End a, d; d.sv = &sv; int p3 = next_port(); sv.open((unsigned)p3); meet(s, a, d, p3); a.close(); } else { End a, d; a.cl = &cl; meet(s, a, d, next_port()); d.close(); } c.label(true, "recovered"); }
    } else if (r.call == 3) { sv.open((unsigned)port); f_call = 3; int got = flag([&] { sv.listen(); }); CHECK(f_call == 0 && got == r.flag, "flag " << got << " of a failed listen, expected " << r.flag); char b; int code = 0; int thrown = flag([&] { code = (int)sv.read(&b, 1); }); CHECK(DEBUG_CHECKS ? thrown == InvalidObjectError : code == ConnectionProblem, "a server without a client read " << code << ", thrown " << thrown);
      if (s.coin()) { End a, d; d.sv = &sv; meet(s, a, d, port); long w = a.write("hello", 5); CHECK(w == 5, "sent " << w); char q[5]; long g = sv.read(q, 5); CHECK(g >= 1 && !memcmp(q, "hello", (size_t)g), "received " << g); a.close(); c.label(true, "recovered"); }
    } else {                            // an established connection stays as it was
      End a, d; if (at_server) d.sv = &sv; else a.cl = &cl; if (at_server) sv.open((unsigned)port); meet(s, a, d, port); End& e = at_server ? d : a; End& o = at_server ? a : d; std::string t = s.bytes_str(1, 20); o.write(t.data(), t.size()); char b[64]; long res = 0; bool peek = s.coin(); f_call = r.call;
      int got = flag([&] { res = r.call == 6 ? e.write("lost", 4) : r.call == 7 ? e.remaining() : peek ? e.peek(b, 20) : e.read(b, 20); }); CHECK(f_call == 0, "the call was not made"); if (DEBUG_CHECKS) CHECK(got == r.flag, "flag " << got << " of a failed operation, expected " << r.flag); else CHECK(got == -1 && res == ConnectionProblem && e.error().flag() == r.flag, "a failed operation returned " << res << ", thrown " << got << ", error " << e.error().what() << ", expected " << r.flag);
      CHECK(e.open(), "a failed operation closed the connection"); std::string in; while (in.size() < t.size()) { long g = e.read(b, 20); CHECK(g > 0, "read " << g << " after a failed operation"); in.append(b, (size_t)g); } CHECK(in == t, "received " << pbt::quote(in) << " after a failed operation, sent " << pbt::quote(t)); long w = e.write("again", 5); CHECK(w == 5 && e.error().flag() == NoError, "wrote " << w << " after a failed operation, error " << e.error().what()); raw_wait(o.raw); char z[5]; long g = o.read(z, 5); CHECK(g == 5 && !memcmp(z, "again", 5), "the peer received " << g); o.close(); } }
  f_call = 0; std::vector<int> after = fds(); CHECK(before == after, "descriptors before " << before.size() << ", after " << after.size()); c.nontrivial(); c.label(r.call == 6 || r.call == 5, "transfer"); c.label(r.call < 3, "opening");
}
PBT_T(socket_ends, 2, 20, "always") {
  next_port(); std::vector<int> before = fds(); int port = next_port(); unsigned kind = (unsigned)s.below(5); int fill = s.of<int>({0, 0xff, 0x5a}); NOTE("kind " << kind);
  { pbt::Dirty<SocketClient> dc(fill); pbt::Dirty<SocketServer> ds(fill); SocketClient& cl = *dc; SocketServer& sv = *ds; int got = -1;
    if (kind == 0) { bool ctor = s.coin(); try { if (ctor) SocketClient x("127.0.0.1", (unsigned)port); else cl.open("127.0.0.1", (unsigned)port); } catch (const StandardException& e) { got = e.flag(); } CHECK(got == ConnectionRefusedError && !cl.open(), "flag " << got << " when nobody listens"); }
    else if (kind == 1) { int lf = raw_listen(port); bool ctor = s.coin(); try { if (ctor) SocketServer x((unsigned)port); else sv.open((unsigned)port); } catch (const StandardException& e) { got = e.flag(); } CHECK(got == BusyError && !sv.open(), "flag " << got << " when the port is taken, open " << sv.open()); if (s.coin()) { int p = next_port(); CHECK(sv.open((unsigned)p) && sv.open(), "another port was refused"); } ::close(lf); }
    else if (kind == 2) { f_call = 8; f_herrno = s.of<int>({HOST_NOT_FOUND, NO_ADDRESS, NO_RECOVERY, TRY_AGAIN}); f_errno = 0; int h = f_herrno; try { if (s.coin()) SocketClient x("nowhere", (unsigned)port); else cl.open("nowhere", (unsigned)port); } catch (const StandardException& e) { got = e.flag(); if (h == HOST_NOT_FOUND) CHECK(std::string(e.what()).find("nowhere") != std::string::npos, "the message does not name the host: " << e.what()); } f_call = 0; ErrorFlag want = h == NO_ADDRESS ? InvalidArgError : h == NO_RECOVERY ? UnknownError : OpenError; CHECK(got == want && !cl.open(), "flag " << got << " for an unknown host (" << h << ")"); }
    else if (kind == 3) {  // the other end is gone: writing says so and closes
      End a, d; bool server = s.coin(); if (server) { d.sv = &sv; sv.open((unsigned)port); } else a.cl = &cl; meet(s, a, d, port); End& e = server ? d : a; f_errno = EPIPE; f_call = 6; long w = s.coin() ? e.put('x') : e.write("xyz", 3); CHECK(f_call == 0 && w == ConnectionHungUp && !e.open(), "writing to a broken connection returned " << w << ", open " << e.open()); w = e.write("xyz", 3); CHECK(w == ConnectionDisconnected, "writing after the end returned " << w); (server ? a : d).close(); }
    else { // a second client takes the place of the first
      End a, d, a2; d.sv = &sv; sv.open((unsigned)port); meet(s, a, d, port); long w = sv.write("one", 3); CHECK(w == 3, "wrote " << w); char b[8]; raw_wait(a.raw); w = a.read(b, 8); CHECK(w == 3 && !memcmp(b, "one", 3), "the first client received " << w); bool gone = s.coin(); if (gone) a.close(); meet(s, a2, d, port); w = sv.write("two", 3); CHECK(w == 3, "wrote " << w); raw_wait(a2.raw); w = a2.read(b, 8); CHECK(w == 3 && !memcmp(b, "two", 3), "the second client received " << w); a2.write("ab", 2); w = sv.read(b, 2); CHECK(w >= 1 && b[0] == 'a', "read " << w); sv.close(); raw_wait(a2.raw); w = a2.read(b, 8); CHECK(w <= 0, "the client was not told that the server has closed"); a2.close(); if (!gone) a.close(); }
  }
  std::vector<int> after = fds(); CHECK(before == after, "descriptors before " << before.size() << ", after " << after.size()); c.nontrivial(); c.label(kind == 4, "second client");
}
PBT_T(socket_streams, 2, 20, "a number and a word were carried") {
  next_port(); std::vector<int> before = fds(); int port = next_port();
  { TextStream<SocketClient> out; TextStream<SocketServer> in; in.device().open((unsigned)port); End a, d; a.cl = &out.device(); d.sv = &in.device(); meet(s, a, d, port); bool num = false, word = false; int n = s.len(1, 12);
    for (int i = 0; i < n; ++i) { if (s.coin()) { int v = s.integer<int>(), r = 0; NOTE("number " << v); out << v << "\n"; out.flush(); in >> r; CHECK(r == v, "sent " << v << " received " << r); num = true; } else { std::string w = s.str("abcxyz019_-", 1, 20), r; NOTE("word " << w); out << w << " "; out.flush(); in >> r; CHECK(r == w, "sent " << w << " received " << r); word = true; } }
    c.nontrivial(num && word); }
  std::vector<int> after = fds(); CHECK(before == after, "descriptors before " << before.size() << ", after " << after.size());
}
PBT_MAIN
