// The serial device over pseudo terminals: generated histories of opening, configuring, transferring, waiting and
// failing against a model of the line, with a virtual clock for the short timeouts and recorded terminal settings.
#include "pbt.hpp"
#include <cerrno>
#include <dirent.h>
#include <fcntl.h>
#include <memory>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <termios.h>
#include <unistd.h>
#include <ecl/devices/serial.hpp>

using namespace ecl;
#ifdef NDEBUG
enum { DEBUG_CHECKS = 0 };
#else
enum { DEBUG_CHECKS = 1 };
#endif
static std::string dir() { const char* d = getenv("PBT_SCRATCH"); return d ? d : "/tmp"; }
static int open_fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (d && readdir(d)) ++n; if (d) closedir(d); return n; }

/* the virtual clock: sleeping moves it, and something may arrive meanwhile */
static long long now_ns = 1000000000LL * 1000; static std::function<void()> on_sleep;
int ecl_compat_epoch(struct timespec* t) { t->tv_sec = now_ns / 1000000000; t->tv_nsec = now_ns % 1000000000; return 0; }
int ecl_compat_realtime(struct timespec* t) { return ecl_compat_epoch(t); }
int ecl_compat_cpu(struct timespec* t) { return ecl_compat_epoch(t); }
static void sleep_to(long long t) { if (t > now_ns) now_ns = t; if (on_sleep) on_sleep(); }
int ecl_compat_sleep_until(const struct timespec* t) { sleep_to(t->tv_sec * 1000000000LL + t->tv_nsec); return 0; }
extern "C" {
int __real_tcsetattr(int, int, const struct termios*); ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t);
}
static struct termios last; static int sets, stray, watch_fd_ok; static int fail_fd_read, fail_fd_write, fail_set; static ino_t line_ino;
static bool is_line(int fd) { struct stat st; return fd >= 0 && fstat(fd, &st) == 0 && S_ISCHR(st.st_mode) && st.st_ino == line_ino; }
extern "C" int __wrap_tcsetattr(int fd, int how, const struct termios* t) { ++sets; last = *t; if (fd >= 0 && !is_line(fd)) ++stray; (void)watch_fd_ok; if (fail_set) { errno = fail_set; return -1; } return __real_tcsetattr(fd, how, t); }
extern "C" ssize_t __wrap_read(int fd, void* p, size_t n) { if (fail_fd_read && is_line(fd)) { errno = fail_fd_read; return -1; } return __real_read(fd, p, n); }
extern "C" ssize_t __wrap_write(int fd, const void* p, size_t n) { if (fail_fd_write && is_line(fd)) { errno = fail_fd_write; return -1; } return __real_write(fd, p, n); }
extern "C" int __wrap_nanosleep(const struct timespec* t, struct timespec*) { sleep_to(now_ns + t->tv_sec * 1000000000LL + t->tv_nsec); return 0; }

struct Line {  // one pseudo terminal; the serial device gets the slave side
  int master; std::string name, link; static int serial;
  Line() : master(posix_openpt(O_RDWR | O_NOCTTY)) { if (master < 0 || grantpt(master) || unlockpt(master)) { if (master < 0) throw pbt::Fail{"no pseudo terminal"}; } char b[64]; ptsname_r(master, b, sizeof b); name = b; struct stat st; stat(b, &st); line_ino = st.st_ino; fcntl(master, F_SETFL, O_NONBLOCK);
    // the other end is a raw terminal, too
    struct termios t; tcgetattr(master, &t); cfmakeraw(&t); __real_tcsetattr(master, TCSANOW, &t); link = dir() + "/line" + std::to_string(getpid()) + "_" + std::to_string(serial++); symlink(b, link.c_str()); }
  void hang_up() { if (master >= 0) { close(master); master = -1; } }
  ~Line() { hang_up(); unlink(link.c_str()); }
  std::string take(size_t n, int ms = 2000) { std::string r; double end = pbt::now() + ms * 1e-3; char b[4096]; while (r.size() < n && pbt::now() < end) { ssize_t k = __real_read(master, b, sizeof b); if (k > 0) r.append(b, k); else { struct pollfd p = {master, POLLIN, 0}; poll(&p, 1, 20); } } return r; }
};
int Line::serial = 0;
static bool wait_remaining(Serial& d, long n) { double end = pbt::now() + 3; while (d.remaining() < n && pbt::now() < end) usleep(50); return d.remaining() == n; }
static const speed_t SPEEDS[] = {B110, B300, B600, B1200, B2400, B4800, B9600, B19200, B38400, B57600, B115200, B230400, B460800, B921600};
static void check_settings(int baud, int bits, int stop, int par, long timeout) {
  CHECK(cfgetospeed(&last) == SPEEDS[baud] && cfgetispeed(&last) == SPEEDS[baud], "the speed is " << cfgetospeed(&last) << ", not " << SPEEDS[baud]);
  static const tcflag_t SIZES[] = {CS5, CS6, CS7, CS8}; CHECK((last.c_cflag & CSIZE) == SIZES[bits], "the size is " << (last.c_cflag & CSIZE)); CHECK(!!(last.c_cflag & CSTOPB) == (stop == StopBits_2), "stop bits");
  CHECK(!!(last.c_cflag & PARENB) == (par != NoParity), "parity"); if (par != NoParity) CHECK(!!(last.c_cflag & PARODD) == (par == OddParity), "parity is the other one"); CHECK((last.c_cflag & CREAD) && (last.c_cflag & CLOCAL), "the receiver is off"); CHECK(!(last.c_cflag & CRTSCTS) && !(last.c_iflag & (IXON | IXOFF | IXANY)), "flow control is on");
  CHECK(!(last.c_lflag & (ICANON | ECHO | ECHOE | ISIG)), "the line is cooked: " << last.c_lflag); CHECK(!(last.c_iflag & (ICRNL | INLCR | IGNCR)) && !(last.c_oflag & OPOST), "the line translates"); CHECK(!!(last.c_iflag & INPCK) == (par != NoParity), "parity checking");
  CHECK(last.c_cc[VMIN] == 0, "VMIN is " << (int)last.c_cc[VMIN]); long vt = timeout < 100 ? 0 : std::min(timeout / 100, 255L); CHECK(last.c_cc[VTIME] == vt, "the timeout is " << (int)last.c_cc[VTIME] << " tenths, not " << vt);
}
static std::string some_bytes(pbt::Src& s, int hi) { switch (s.below(3)) { case 0: return s.bytes_str(1, hi); case 1: { std::string r; int n = s.len(1, hi); for (int i = 0; i < n; ++i) r += "\n\r\x03\x04\x11\x13\x1a\x7f\xff\0\x1c"[s.below(11)]; return r; } default: { std::string r; for (int i = 0, n = 1 + (int)s.below(hi); i < n; ++i) r += (char)i; return r; } } }
template <typename F> void refused(F f, bool thrown_expected, Serial& d, ErrorFlag flag, const char* what) {
  bool thrown = false; long r = 0; try { r = f(); } catch (const StandardException& e) { thrown = true; CHECK(flag == LastErrorFlag_ || e.flag() == flag, what << " threw " << Error(e.flag()).what() << ", not " << Error(flag).what()); }
  CHECK(thrown == thrown_expected, what << (thrown ? " threw" : " did not throw")); if (!thrown) { CHECK(r == -1, what << " returned " << r); CHECK(flag == LastErrorFlag_ ? d.error().flag() != NoError : d.error().flag() == flag, what << " left the error " << d.error().what()); }
}
// what the period of the short waiting loop is, by the documentation
static long period(long t) { return t < 5 ? 1 : t < 20 ? 2 : 5; }

PBT_T(serial_history, 6, 60, "bytes went both ways, or a timeout passed") {
  Line l; int fds = open_fds(); bool raii = s.coin(1, 3); int moved = 0, waited = 0; stray = 0; fail_fd_read = fail_fd_write = fail_set = 0; on_sleep = nullptr;
  {
    int baud = (int)s.below(14), bits = (int)s.below(4), stop = s.coin() ? StopBits_1 : StopBits_2, par = (int)s.below(3); std::string port = s.coin() ? l.name : l.link; long timeout = 5000; bool up = raii;
    NOTE((raii ? "constructed" : "default constructed") << " with rate " << baud << " bits " << bits << " stop " << stop << " parity " << par);
    // the object lives in memory that held something else before
    std::unique_ptr<pbt::Dirty<Serial>> h; 
    if (raii) h.reset(new pbt::Dirty<Serial>((unsigned char)s.below(256), port, (BaudRate)baud, (DataBits)bits, (StopBits)stop, (Parity)par)); else h.reset(new pbt::Dirty<Serial>((unsigned char)s.below(256)));
    Serial& d = **h; if (raii) { CHECK(d.open(), "not open after construction"); check_settings(baud, bits, stop, par, timeout); } else CHECK(!d.open(), "open without having been opened"); CHECK(d.error().flag() == NoError, "error " << d.error().what());
    std::string pending; bool gone = false;
    for (int st = 0, e = 3 + (int)s.below(18); st < e && !gone; ++st) {
      int op = (int)s.weighted({2, 5, 5, 4, 2, 2, 1, 1, 1});
      if (!up && op != 0 && s.coin()) op = 0;
      if (op == 0) {
        if (up && s.coin()) continue;
        if (s.coin()) { baud = (int)s.below(14); bits = (int)s.below(4); stop = s.coin() ? StopBits_1 : StopBits_2; par = (int)s.below(3); } if (s.coin()) port = s.coin() ? l.name : l.link;
        NOTE("open with rate " << baud << " bits " << bits << " stop " << stop << " parity " << par); sets = 0; CHECK(d.open(port, (BaudRate)baud, (DataBits)bits, (StopBits)stop, (Parity)par), "open failed"); CHECK(sets > 0, "nothing was configured"); check_settings(baud, bits, stop, par, timeout); up = true; pending.clear(); CHECK(d.remaining() == 0, "the buffers were not cleared"); l.take(1, 0);
      } else if (op == 1) {
        std::string b = some_bytes(s, 300); int ty = (int)s.below(4); NOTE("write " << b.size() << " bytes, type " << ty); if (ty == 3) b.resize(1);
        auto w = [&]() -> long { switch (ty) { case 0: return d.write(b.data(), b.size()); case 1: return d.write((const unsigned char*)b.data(), b.size()); case 2: return d.write((const signed char*)b.data(), b.size()); default: return s.coin() ? d.write(b[0]) : d.write((unsigned char)b[0]); } };
        if (!up) { refused(w, DEBUG_CHECKS, d, OpenError, "a write to a closed port"); continue; }
        long r = w(); CHECK(r == (long)b.size(), "wrote " << r << " of " << b.size()); CHECK(d.error().flag() == NoError, "error " << d.error().what()); std::string got = l.take(b.size()); CHECK(got == b, "the other end got " << pbt::quote(got) << ", not " << pbt::quote(b)); ++moved; d.flush();
      } else if (op == 2) {
        if (!up || pending.size() > 1500) continue; std::string b = some_bytes(s, 300); NOTE(b.size() << " bytes arrive"); CHECK(__real_write(l.master, b.data(), b.size()) == (ssize_t)b.size(), "the other end could not write"); if (par != NoParity && bits != DataBits_8) for (auto& ch : b) ch &= 0x7f; pending += b; CHECK(wait_remaining(d, (long)pending.size()), d.remaining() << " bytes are waiting, not " << pending.size());
      } else if (op == 3) {
        size_t n = s.coin() ? 1 + s.below(20) : 1 + s.below(600); int ty = (int)s.below(4); if (ty == 3) n = 1; std::vector<char> buf(n + 2, 'Z'); NOTE("read up to " << n << ", type " << ty << ", " << pending.size() << " waiting, timeout " << timeout);
        auto rd = [&]() -> long { switch (ty) { case 0: return d.read(&buf[0], n); case 1: return d.read((unsigned char*)&buf[0], n); case 2: return d.read((signed char*)&buf[0], n); default: return s.coin() ? d.read(buf[0]) : d.read((unsigned char&)buf[0]); } };
        if (!up) { refused(rd, DEBUG_CHECKS, d, OpenError, "a read from a closed port"); continue; }
        if (pending.empty() && timeout >= 100) continue;
        std::string late; long long start = now_ns, due = -1; long tmo = timeout < 0 ? 0 : timeout;
        if (pending.empty() && s.coin() && timeout >= 0) { late = some_bytes(s, 30); due = (long long)s.below((tmo + 12) * 1000 + 1) * 1000; NOTE("  " << late.size() << " bytes come after " << due << " ns"); on_sleep = [&] { if (due >= 0 && now_ns - start >= due && !late.empty()) { std::string x = late; late.clear(); due = -2; if (__real_write(l.master, x.data(), x.size()) != (ssize_t)x.size()) abort(); if (par != NoParity && bits != DataBits_8) for (auto& ch : x) ch &= 0x7f; pending = x; double end = pbt::now() + 3; while (d.remaining() < (long)x.size() && pbt::now() < end) usleep(50); } }; }
        long r = rd(); on_sleep = nullptr; long long took = (now_ns - start) / 1000000; bool came = due == -2;
        if (pending.empty()) { ++waited; CHECK(r == 0, "read " << r << " bytes from an empty line"); CHECK(took >= tmo && took <= tmo + period(tmo), "an empty line was watched for " << took << " ms instead of " << tmo); CHECK(!came, "?"); CHECK(due < 0 || due >= tmo * 1000000LL, "what came after " << due << " ns was not seen within " << tmo << " ms"); }
        else { size_t want = std::min(n, pending.size()); if (came && r == 0) { CHECK(due > (tmo - period(tmo)) * 1000000LL, "what came after " << due << " ns was not read within " << tmo << " ms"); } else { CHECK(r == (long)want, "read " << r << " bytes, not " << want); CHECK(std::string(&buf[0], want) == pending.substr(0, want), "read " << pbt::quote(std::string(&buf[0], want)) << ", not " << pbt::quote(pending.substr(0, want))); CHECK(buf[want] == 'Z', "more was stored than said"); pending.erase(0, want); ++moved; if (!came) CHECK(took == 0, "a read with data waiting took " << took << " ms"); } if (came) ++waited; }
        CHECK(d.error().flag() == NoError, "error " << d.error().what()); CHECK(d.remaining() == (long)pending.size(), d.remaining() << " bytes remain, not " << pending.size());
      } else if (op == 4) {
        // changing the mode may drop what is waiting, so that is fetched before
        if (up && !pending.empty()) { std::vector<char> b(pending.size()); CHECK(d.read(&b[0], b.size()) == (long)b.size() && std::string(b.begin(), b.end()) == pending, "the rest of the input"); pending.clear(); }
        sets = 0; if (s.coin(1, 4)) { NOTE("unblock"); d.unblock(); timeout = -1; } else { long t; switch (s.below(5)) { case 0: t = (long)s.below(6); break; case 1: t = (long)s.below(100); break; case 2: t = 95 + (long)s.below(10); break; case 3: t = 100 + (long)s.below(26000); break; default: { long edge[] = {25500, 25599, 25600, 25700, 51200, 100000, 1000000, 3600000}; t = edge[s.below(8)]; } } NOTE("block " << t); d.block((unsigned long)t); timeout = t; }
        if (up) { CHECK(sets > 0, "nothing was configured"); check_settings(baud, bits, stop, par, timeout); } CHECK(stray == 0, "the settings of some other file were changed"); if (up) CHECK(d.open(), "no longer open");
      } else if (op == 5) {
        if (!up) continue; bool in = s.coin(); NOTE((in ? "clear the input" : "clear")); if (in) d.clearInputBuffer(); else d.clear(); pending.clear(); double end = pbt::now() + 0.002; do { CHECK(d.remaining() == 0, d.remaining() << " bytes remain after a clear"); } while (pbt::now() < end);
      } else if (op == 6) { NOTE("close"); d.close(); CHECK(!d.open(), "open after a close"); up = false; pending.clear(); if (s.coin()) d.close(); }
      else if (op == 7) { CHECK(d.open() == up, "open() is " << d.open()); CHECK(!up || d.remaining() == (long)pending.size(), "remaining"); }
      else if (up) {  // the device goes away
        bool link = port == l.link && s.coin(); NOTE((link ? "the link to the device is removed" : "the other end hangs up")); if (link) unlink(l.link.c_str()); else { l.hang_up(); if (s.coin() && pending.empty()) { char ch; long r; bool th = false; try { r = d.read(ch); } catch (const StandardException&) { th = true; r = -1; } (void)th; CHECK(r <= 0, "read " << r << " bytes from a dead line"); refused([&] { return d.write("x", 1); }, DEBUG_CHECKS, d, LastErrorFlag_, "a write to a dead line"); } }
        CHECK(!d.open(), "open although the device is gone"); CHECK(!d.open(), "open although the device is gone"); CHECK(open_fds() == fds - (l.master < 0), "the descriptor was kept"); refused([&] { return d.write("x", 1); }, DEBUG_CHECKS, d, OpenError, "a write to a port that is gone"); gone = true;
      }
    }
    CHECK(stray == 0, "the settings of some other file were changed");
  }
  CHECK(open_fds() == fds - (l.master < 0), open_fds() - fds << " descriptors were left open"); c.nontrivial(moved > 1 || waited > 0); c.label(waited > 0, "waited"); c.label(moved > 3, "moved a lot");
}
PBT_T(serial_refused, 2, 60, "always") {
  // refused openings are reported, leave the device closed, cost no descriptor, and do not spoil the next opening
  Line l; c.nontrivial(); fail_fd_read = fail_fd_write = fail_set = 0; on_sleep = nullptr; int how = (int)s.below(6); bool was = s.coin(), raii = s.coin(1, 3); NOTE("way " << how << (was ? ", was open" : "") << (raii ? ", constructor" : "")); std::string bad = l.name; BaudRate br = BaudRate_9600; StopBits sb = StopBits_1; ErrorFlag flag = ConfigurationError; pid_t holder = 0; std::string scratch = dir() + "/plain" + std::to_string(getpid()); int sync[2] = {-1, -1};
  switch (how) { case 0: bad = dir() + "/nothing here"; flag = NotFoundError; break; case 1: bad = dir(); flag = InvalidObjectError; break; case 2: sb = StopBits_15; break; case 3: br = (BaudRate)(s.coin() ? 14 : 15); break; case 4: bad = scratch + "/x"; { int fd = open(scratch.c_str(), O_CREAT | O_WRONLY, 0644); close(fd); } flag = InvalidObjectError; break;
    default: { flag = OpenError; if (pipe(sync)) FAIL("pipe"); bool via = s.coin(); holder = fork(); if (holder == 0) { pbt::die_with_parent(); if (via) { Serial* k = new Serial(l.name); (void)k; } else { int fd = open(l.name.c_str(), O_RDWR | O_NOCTTY); struct flock f; memset(&f, 0, sizeof f); f.l_type = F_WRLCK; f.l_whence = SEEK_SET; fcntl(fd, F_SETLK, &f); } if (__real_write(sync[1], "x", 1) != 1) _exit(1); for (;;) pause(); } char ch; if (__real_read(sync[0], &ch, 1) != 1) FAIL("holder"); was = false; } }
  Line other; line_ino = 0; int fds = open_fds(); int reps = 1 + (int)s.below(3);
  {
    Serial d; if (was) { CHECK(d.open(other.name), "open"); CHECK(d.open(), "open"); }
    for (int i = 0; i < reps; ++i) { bool th = false; try { if (raii) { Serial k(bad, br, DataBits_8, sb, NoParity); } else d.open(bad, br, DataBits_8, sb, NoParity); } catch (const StandardException& e) { th = true; CHECK(e.flag() == flag, "thrown was " << Error(e.flag()).what() << ", not " << Error(flag).what()); } CHECK(th, "nothing was thrown"); if (!raii) CHECK(!d.open(), "open after a refused opening"); CHECK(open_fds() == fds + (raii && was), "a refused opening left " << open_fds() - fds << " descriptors"); }
    if (holder) { kill(holder, SIGKILL); int st; waitpid(holder, &st, 0); holder = 0; }
    CHECK(d.open(other.name) && d.open(), "the next opening failed"); CHECK(d.write("abc", 3) == 3 && other.take(3) == "abc", "the next connection does not work");
    if (how == 5) { Serial k; CHECK(k.open(l.name) && k.open(), "a port is still locked when its holder is gone"); }
  }
  if (sync[0] >= 0) { close(sync[0]); close(sync[1]); fds -= 2; } unlink(scratch.c_str()); CHECK(open_fds() == fds, "descriptors were left open");
}
PBT_T(serial_faults, 1, 60, "always") {
  // failing transfers are reported by exception in debug mode, by -1 and an error otherwise, and the next one works
  Line l; c.nontrivial(); fail_fd_read = fail_fd_write = fail_set = 0; on_sleep = nullptr; Serial d(l.name); int codes[] = {EIO, EINTR, EAGAIN, EBADF, EINVAL}; long tmo = s.coin() ? 5000 : (long)s.below(30); if (tmo < 100) d.block((unsigned long)tmo);
  for (int i = 0, e = 1 + (int)s.below(5); i < e; ++i) { int code = codes[s.below(5)]; bool wr = s.coin(), many = s.coin(); NOTE((wr ? "write" : "read") << (many ? " many" : " one") << " fails with " << code); (wr ? fail_fd_write : fail_fd_read) = code; char b[10] = "0123"; refused([&] { return wr ? (many ? d.write(b, 4) : d.write(b[0])) : (many ? d.read(b, 4) : d.read(b[0])); }, DEBUG_CHECKS, d, LastErrorFlag_, "a failing transfer"); fail_fd_read = fail_fd_write = 0; CHECK(d.open(), "closed by a failing transfer");
    CHECK(d.write("ok", 2) == 2 && l.take(2) == "ok" && d.error().flag() == NoError, "the next write"); if (__real_write(l.master, "in", 2) != 2) FAIL("master"); CHECK(wait_remaining(d, 2), "input"); CHECK(d.read(b, 10) == 2 && b[0] == 'i' && b[1] == 'n' && d.error().flag() == NoError, "the next read"); }
}
PBT_MAIN
