// Semaphores and shared memory: exclusion, sharing, life time of the names, deadlines and every failing call.
#include "pbt.hpp"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <atomic>
#include <memory>
#include <map>
#include <functional>
#include <time.h>
#include <unistd.h>
#include <ecl/ipc/semaphore.hpp>
#include <ecl/ipc/shared_memory.hpp>
using namespace ecl;
#ifdef NDEBUG
enum { DEBUG_CHECKS = 0 };
#else
enum { DEBUG_CHECKS = 1 };
#endif
typedef long long ll; static const ll G = 1000000000LL;
/* --------------------------------------------------------------------- clocks and failing calls */
static bool virt = false; static ll v_real, v_mono; static int interrupts = 0; static bool fake_timed = false; static int fake_result = 0; static std::vector<timespec> deadlines;
static int fail_open = 0, fail_shm = 0, fail_mmap = 0, fail_trunc = 0; static std::function<void()> at_trunc;
extern "C" {
int __real_clock_gettime(clockid_t, timespec*); int __wrap_clock_gettime(clockid_t k, timespec* t) { if (virt && (k == CLOCK_REALTIME || k == CLOCK_MONOTONIC)) { ll v = k == CLOCK_REALTIME ? v_real : v_mono; t->tv_sec = v / G; t->tv_nsec = v % G; return 0; } return __real_clock_gettime(k, t); }
int __real_sem_wait(sem_t*); int __wrap_sem_wait(sem_t* s) { if (interrupts > 0) { --interrupts; errno = EINTR; return -1; } return __real_sem_wait(s); }
int __real_sem_timedwait(sem_t*, const timespec*); int __wrap_sem_timedwait(sem_t* s, const timespec* t) { if (!fake_timed) return __real_sem_timedwait(s, t); deadlines.push_back(*t); if (fake_result) { errno = fake_result; return -1; } return sem_trywait(s); }
sem_t* __real_sem_open(const char*, int, mode_t, unsigned); sem_t* __wrap_sem_open(const char* n, int f, mode_t m, unsigned v) { if (fail_open) { errno = fail_open; return SEM_FAILED; } return __real_sem_open(n, f, m, v); }
int __real_shm_open(const char*, int, mode_t); int __wrap_shm_open(const char* n, int f, mode_t m) { if (fail_shm) { errno = fail_shm; return -1; } return __real_shm_open(n, f, m); }
void* __real_mmap(void*, size_t, int, int, int, off_t); void* __wrap_mmap(void* a, size_t n, int p, int f, int d, off_t o) { if (fail_mmap && d >= 0) { errno = fail_mmap; return MAP_FAILED; } return __real_mmap(a, n, p, f, d, o); }
int __real_ftruncate(int, off_t); int __wrap_ftruncate(int d, off_t n) { if (at_trunc) { std::function<void()> f; f.swap(at_trunc); f(); } if (fail_trunc) { errno = fail_trunc; return -1; } return __real_ftruncate(d, n); }
}
int ecl_compat_epoch(timespec* t) { return __wrap_clock_gettime(CLOCK_MONOTONIC, t); } // as upstream
int ecl_compat_realtime(timespec* t) { return __wrap_clock_gettime(CLOCK_REALTIME, t); }
int ecl_compat_cpu(timespec* t) { return __real_clock_gettime(CLOCK_PROCESS_CPUTIME_ID, t); }
int ecl_compat_sleep_until(const timespec* t) { return clock_nanosleep(CLOCK_MONOTONIC, TIMER_ABSTIME, t, 0); }
static void normal() { virt = fake_timed = false; interrupts = 0; fail_open = fail_shm = fail_mmap = fail_trunc = 0; at_trunc = nullptr; deadlines.clear(); }
struct Normal { Normal() { normal(); } ~Normal() { normal(); } };
static ll now_ns() { timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * G + t.tv_nsec; }
static std::string fresh() { static int n = 0; return "pbt" + std::to_string(getpid()) + "_" + std::to_string(n++); }
static int fds() { int n = 0; if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); } return n; }
static int maps(const std::string& name) { int n = 0; char l[1024]; if (FILE* f = fopen("/proc/self/maps", "r")) { while (fgets(l, sizeof l, f)) if (strstr(l, ("/" + name + "\n").c_str()) || strstr(l, ("/" + name + " (").c_str())) ++n; fclose(f); } return n; }
struct Names { std::vector<std::string> v; std::string operator()() { v.push_back(fresh()); return v.back(); } ~Names() { for (auto& n : v) { sem_unlink(("/" + n).c_str()); shm_unlink(("/" + n).c_str()); } } };
/* ------------------------------------------------------------------------------------ semaphores */
PBT_T(sem_history, 4, 60, "a locked semaphore was tried through another connection") {
  Normal nn; Names names; struct H { std::unique_ptr<Semaphore> s; int k; }; std::vector<H> hs; int K = (int)s.range(1, 2); std::vector<std::string> nm; for (int i = 0; i < K; ++i) nm.push_back(names()); std::vector<int> count(K, 1), users(K, 0); std::vector<bool> shut(K, false); std::vector<int> locker(K, -1); bool cross = false; int f0 = fds();
  for (int i = 0, n = s.len(1, 30); i < n; ++i) {
    unsigned op = (unsigned)s.below(hs.empty() ? 1 : 7); int h = hs.empty() ? -1 : (int)s.below(hs.size()), k = h < 0 ? 0 : hs[h].k;
    switch (op) {
      case 0: { k = (int)s.below(K); if (shut[k] || hs.size() > 5) break; NOTE("connect to " << k); H x; x.k = k; x.s.reset(new Semaphore(nm[k])); hs.push_back(std::move(x)); ++users[k]; break; }
      case 1: if (count[k] == 1) { NOTE(h << " locks"); interrupts = s.coin(1, 4) ? (int)s.range(1, 3) : 0; hs[h].s->lock(); interrupts = 0; count[k] = 0; locker[k] = h; } break;
      case 2: { NOTE(h << " tries"); bool got = hs[h].s->trylock(); CHECK(got == (count[k] == 1), "trylock of a " << (count[k] ? "free" : "locked") << " semaphore gave " << got); if (got) { count[k] = 0; locker[k] = h; } else if (locker[k] != h) cross = true; break; }
      case 3: { ll t = s.of<ll>({0, 1, 100000, 500000, 2000000}); NOTE(h << " tries for " << t); ll a = now_ns(); bool got = hs[h].s->trylock(Duration((time_t)0, (long)t)); ll b = now_ns(); CHECK(got == (count[k] == 1), "trylock of a " << (count[k] ? "free" : "locked") << " semaphore for " << t << "ns gave " << got); if (!got) CHECK(b - a >= t * 9 / 10 - 20000, "gave up after " << b - a << "ns of " << t); if (got) { count[k] = 0; locker[k] = h; } else if (locker[k] != h) cross = true; break; }
      case 4: case 5: { NOTE(h << " unlocks"); hs[h].s->unlock(); count[k] = 1; break; }
      default: { NOTE(h << " disconnects"); hs.erase(hs.begin() + h); for (auto& l : locker) l = -1; if (--users[k] == 0) { shut[k] = false; count[k] = 1; } else shut[k] = true; break; } } } // others still connected: a listed finding, see C38-unlink
  hs.clear(); for (auto& x : nm) { sem_t* q = sem_open(("/" + x).c_str(), 0); if (q != SEM_FAILED) { sem_close(q); FAIL("the name of a semaphore without users is left behind"); } } CHECK(fds() == f0, "descriptors leaked"); c.nontrivial(cross);
}
PBT(sem_deadline, 3, "the fractions of the clock and the time add up to a second or more, or the wait failed") {
  Normal nn; Names names; std::string nm = names(); Semaphore m(nm), other(nm); bool held = s.coin(); if (held) other.lock(); v_real = 1700000000LL * G + (ll)s.below(G); v_mono = (ll)s.below(100000) * G + (ll)s.below(G); ll t = (ll)s.below(s.coin() ? 2 : 1000) * G + (s.coin() ? (ll)s.below(G) : s.of<ll>({0, 1, 999999999, 500000000})); if (s.coin(1, 3)) { ll want = s.of<ll>({999999998, 999999999, 1000000000, 1000000001}) - t % G; if (want >= 0 && want < G) v_real = v_real / G * G + want; } if (s.coin(1, 12)) t = -t; fake_result = s.coin(2, 3) ? 0 : s.of<int>({ETIMEDOUT, EINTR, EINVAL, EAGAIN, EPERM}); if (held && !fake_result) fake_result = ETIMEDOUT;
  NOTE("for " << t << "ns at " << v_real << " result " << fake_result); fake_timed = virt = true; bool got = false; int thrown = -1; try { got = m.trylock(Duration((time_t)(t / G), (long)(t % G))); } catch (const StandardException& e) { thrown = e.flag(); } std::vector<timespec> dl = deadlines; normal();
  ll want = v_real + t; c.nontrivial(v_real % G + t % G >= G || fake_result); CHECK(dl.size() == 1, "waited " << dl.size() << " times"); CHECK(dl[0].tv_nsec >= 0 && dl[0].tv_nsec < G && dl[0].tv_sec * G + dl[0].tv_nsec == want, "waited until (" << dl[0].tv_sec << "," << dl[0].tv_nsec << ") for " << t << "ns at " << v_real);
  int flag = !fake_result || fake_result == ETIMEDOUT || !DEBUG_CHECKS ? -1 : fake_result == EINTR ? InterruptedError : fake_result == EINVAL ? InvalidArgError : fake_result == EAGAIN ? BlockingError : UnknownError; CHECK(thrown == flag, "flag " << thrown << " for result " << fake_result); CHECK(got == (fake_result == 0), "trylock gave " << got << " for result " << fake_result); if (got) CHECK(!other.trylock(), "the semaphore was not locked");
}
PBT(sem_refused, 1, "always") {
  Normal nn; Names names; int f0 = fds(); bool thrown = false; StandardException* keep = 0; int flag = -1, want = InvalidArgError; std::string nm; bool inject = s.coin(); if (inject) { nm = names(); static const int es[] = {EACCES, EEXIST, ENOENT, ENOMEM, EINVAL, EMFILE, ENFILE, ENAMETOOLONG, EIO}; static const int fl[] = {PermissionsError, PermissionsError, ConfigurationError, MemoryError, InvalidArgError, OutOfResourcesError, OutOfResourcesError, InvalidArgError, UnknownError}; int i = (int)s.below(9); fail_open = es[i]; want = fl[i]; } else nm = s.of<std::string>({"a/b", "", std::string(300, 'n'), "//", "x/"}); NOTE(pbt::quote(nm) << " error " << fail_open);
  try { Semaphore m(nm); } catch (const StandardException& e) { thrown = true; flag = e.flag(); } fail_open = 0; CHECK(thrown == (DEBUG_CHECKS != 0), "a semaphore that cannot be opened: thrown " << thrown); if (thrown && (inject || nm.size() > 255)) CHECK(flag == want, "flag " << flag << ", expected " << want);
  bool raii = false; try { Semaphore d; } catch (const StandardException& e) { raii = e.flag() == RaiiError; } CHECK(raii, "a semaphore without a name was created"); if (inject) { Semaphore m(nm); CHECK(m.trylock(), "the semaphore is not usable afterwards"); } CHECK(fds() == f0, "descriptors leaked"); c.nontrivial(); (void)keep;
}
template <typename F> static pid_t child(F f) { fflush(stdout); pid_t p = fork(); if (p == 0) { pbt::die_with_parent(); alarm(60); int rc = 9; try { rc = f(); } catch (...) {} _exit(rc); } return p; }
struct Arena { std::atomic<int> ready, inside, bad, failed; long counter; std::atomic<int> who; };
static void contend(Semaphore& m, Arena* a, int N, unsigned kinds, int id) {
  for (int i = 0; i < N; ++i) {
    unsigned k = (kinds >> (2 * ((i + id) % 8))) & 3; if (k == 0) m.lock(); else if (k == 1) { while (!m.trylock()) std::this_thread::yield(); } else if (k == 2) { while (!m.trylock(Duration((time_t)0, 200000L))) {} } else m.lock();
    if (++a->inside != 1) ++a->bad; long x = a->counter; if (k == 3) std::this_thread::yield(); a->counter = x + 1; --a->inside; m.unlock(); }
}
PBT_T(sem_processes, 1, 120, "always") {
  Normal nn; Names names; std::string nm = names(); Arena* a = pbt::shared<Arena>(); new (a) Arena(); a->ready = 0; a->inside = 0; a->bad = 0; a->failed = 0; a->counter = 0; int P = (int)s.range(2, 4), N = (int)s.range(5, 60); unsigned kinds = (unsigned)s.below(1u << 16); bool locked = s.coin(); NOTE(P << " processes " << N << " rounds"); c.nontrivial();
  Semaphore m(nm); if (locked) m.lock(); std::vector<pid_t> ps; for (int i = 0; i < P; ++i) { pid_t p = child([&] { Semaphore mine(nm); ++a->ready; while (a->ready < P) usleep(50); contend(mine, a, N, kinds, i); ++a->who; while (a->who < P) usleep(50); return 0; }); if (p < 0) break; ps.push_back(p); }
  if ((int)ps.size() < P) { for (auto p : ps) { kill(p, SIGKILL); waitpid(p, 0, 0); } pbt::unshare_mem(a); throw pbt::Discard(); }
  if (locked) { while (a->ready < P) usleep(50); usleep(200); long x = a->counter; if (x) ++a->bad; m.unlock(); }
  int st, bad = 0; for (auto p : ps) { while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) ++bad; } long got = a->counter; int in = a->bad; pbt::unshare_mem(a); CHECK(bad == 0, "a process did not finish"); CHECK(in == 0, "two processes were inside at once " << in << " times"); CHECK(got == (long)P * N, "counted " << got << " of " << (long)P * N);
}
PBT_T(sem_threads, 1, 120, "always") {
  Normal nn; Names names; std::string nm = names(); Arena a; a.ready = 0; a.inside = 0; a.bad = 0; a.counter = 0; int T = (int)s.range(2, 4), N = (int)s.range(5, 80); unsigned kinds = (unsigned)s.below(1u << 16); bool own = s.coin(); NOTE(T << " threads " << N << " rounds"); c.nontrivial();
  std::vector<std::unique_ptr<Semaphore>> ms; for (int i = 0; i < (own ? T : 1); ++i) ms.emplace_back(new Semaphore(nm)); std::vector<std::thread> th; for (int i = 0; i < T; ++i) th.emplace_back([&, i] { ++a.ready; while (a.ready < T) {} contend(*ms[own ? i : 0], &a, N, kinds, i); }); for (auto& t : th) t.join(); CHECK(a.bad == 0, "two threads were inside at once " << a.bad << " times"); CHECK(a.counter == (long)T * N, "counted " << a.counter << " of " << (long)T * N);
}
/* --------------------------------------------------------------------------------- shared memory */
template <size_t N> struct Block { unsigned char b[N]; Block() { for (size_t i = 0; i < N; ++i) b[i] = (unsigned char)(i * 7 + 3); } };
struct Fields { int a, a2; double d; char t[32]; Fields() : a(42), a2(-1), d(0.5) { memset(t, 'q', sizeof t); } };
template <typename S> static std::string bytes(const S& x) { return std::string((const char*)&x, sizeof x); }
template <typename S> static std::string initial() { static std::string r; if (r.empty()) { void* p = calloc(1, sizeof(S)); S* q = new (p) S(); r = bytes(*q); free(p); } return r; }
static bool exists(const std::string& n) { int d = __real_shm_open(("/" + n).c_str(), O_RDONLY, 0); if (d < 0) return false; close(d); return true; }
template <typename S> static void same(const std::string& got, const std::string& want) { if (got == want) return; size_t i = 0; while (got[i] == want[i]) ++i; FAIL("byte " << i << " of " << sizeof(S) << " is " << (int)(unsigned char)got[i] << ", expected " << (int)(unsigned char)want[i]); }
template <typename S> void shm_history_(pbt::Src& s, pbt::Ctx& c) {
  Normal nn; Names names; struct Sec { std::string b; }; struct H { std::unique_ptr<SharedMemory<S>> m; int k; std::shared_ptr<Sec> sec; bool manager; }; std::vector<H> hs; int K = (int)s.range(1, 2); std::vector<std::string> nm; for (int i = 0; i < K; ++i) nm.push_back(names()); std::vector<std::shared_ptr<Sec>> cur(K); bool shared = false, fault = false; int f0 = fds();
  auto closeh = [&](int h) { int k = hs[h].k; bool mg = hs[h].manager; NOTE("close " << h << (mg ? " (manager)" : "")); hs.erase(hs.begin() + h); if (mg) cur[k].reset(); };
  for (int i = 0, n = s.len(1, 30); i < n; ++i) {
    unsigned op = (unsigned)s.below(hs.empty() ? 2 : 8); int h = hs.empty() ? -1 : (int)s.below(hs.size());
    if (op <= 1) { int k = (int)s.below(K); if (hs.size() > 5) continue; bool join = (bool)cur[k]; int m0 = maps(nm[k]), kind = s.coin(1, 4) ? (int)s.range(1, 3) : 0, e = 0, want = -1;
        if (kind == 1) { static const int es[] = {EACCES, EMFILE, ENFILE, ENOENT, ENOSYS, EIO}; static const int fl[] = {PermissionsError, OutOfResourcesError, OutOfResourcesError, InvalidArgError, NotSupportedError, UnknownError}; int j = (int)s.below(6); e = fail_shm = es[j]; want = fl[j]; } else if (kind == 2) { static const int es[] = {EACCES, EAGAIN, ENFILE, ENODEV, ENOMEM, EPERM, EINVAL, EIO}; static const int fl[] = {PermissionsError, MemoryError, OutOfResourcesError, NotSupportedError, MemoryError, PermissionsError, InvalidArgError, UnknownError}; int j = (int)s.below(8); e = fail_mmap = es[j]; want = fl[j]; } else if (kind == 3) { e = fail_trunc = s.of<int>({ENOSPC, EFBIG, EIO}); want = OpenError; }
        NOTE("open " << k << (join ? " (exists)" : "") << " failing " << kind << "/" << e); H x; x.k = k; int flag = -1; try { x.m.reset(new SharedMemory<S>(nm[k])); } catch (const StandardException& ex) { flag = ex.flag(); } normal();
        if (kind) { fault = true; if (kind == 3 && !x.m) {} else if (kind == 3 && join) { want = -1; } // a peer need not set the size again
          CHECK(flag == want, "flag " << flag << " for error " << e << " in call " << kind << ", expected " << want); if (!x.m) { CHECK(maps(nm[k]) == m0, "a mapping was left behind by a failed connection"); CHECK(fds() == f0, "a descriptor was left behind by a failed connection"); CHECK(exists(nm[k]) == join, (join ? "a failed connection removed the memory of the others" : "a failed creation left the memory behind")); continue; } }
        CHECK(flag == -1, "opening threw " << flag); x.manager = !join; if (!join) { cur[k].reset(new Sec); cur[k]->b = initial<S>(); } else shared = true; x.sec = cur[k]; CHECK(fds() == f0, "a descriptor is kept open"); same<S>(bytes(*x.m->data()), x.sec->b); hs.push_back(std::move(x)); }
    else if (op <= 3) { size_t o = s.coin(1, 3) ? (s.coin() ? 0 : sizeof(S) - 1) : (size_t)s.below(sizeof(S)); unsigned char v = (unsigned char)s.below(256); NOTE(h << " writes at " << o); ((unsigned char*)hs[h].m->data())[o] = v; hs[h].sec->b[o] = (char)v; }
    else if (op <= 5) { NOTE(h << " reads"); same<S>(bytes(*hs[h].m->data()), hs[h].sec->b); }
    else if (op == 6) closeh(h);
    else { bool active = cur[hs[h].k] == hs[h].sec; if (!hs[h].manager || !active) continue; NOTE(h << " unlinks"); hs[h].m->unlink(); cur[hs[h].k].reset(); hs[h].manager = false; } } // unlinking by others than the manager: a listed finding, see C39-foreign-unlink
  for (int k = 0; k < K; ++k) CHECK(exists(nm[k]) == (bool)cur[k], "the memory " << (cur[k] ? "cannot be reached by its name any more" : "is still reachable by its name")); for (auto& h : hs) same<S>(bytes(*h.m->data()), h.sec->b); while (!hs.empty()) closeh((int)s.below(hs.size())); for (int k = 0; k < K; ++k) { CHECK(!exists(nm[k]) || cur[k], "the memory outlived its manager"); CHECK(maps(nm[k]) == 0, "the memory is still mapped"); } c.nontrivial(shared); c.label(fault, "failing call");
}
PBT_T(shm_history, 4, 60, "a second connection saw the memory") {
  unsigned k = (unsigned)s.below(6); NOTE("type " << k); switch (k) { case 0: shm_history_<Block<1>>(s, c); break; case 1: shm_history_<Fields>(s, c); break; case 2: shm_history_<Block<4096>>(s, c); break; case 3: shm_history_<Block<4097>>(s, c); break; case 4: shm_history_<Block<100>>(s, c); break; default: shm_history_<Block<9001>>(s, c); }
}
PBT(shm_refused, 1, "always") {
  Normal nn; int f0 = fds(); std::string nm = s.of<std::string>({"a/b", "", std::string(300, 'n'), "x/"}); NOTE(pbt::quote(nm)); int flag = -1; try { SharedMemory<Fields> m(nm); } catch (const StandardException& e) { flag = e.flag(); } CHECK(flag == InvalidArgError, "the name " << pbt::quote(nm) << " gave flag " << flag); CHECK(fds() == f0, "a descriptor was left behind"); c.nontrivial();
}
PBT_T(shm_processes, 1, 120, "always") {
  Normal nn; Names names; std::string nm = names(), ns = names(); typedef Block<6000> B; int P = (int)s.range(1, 3), R = (int)s.range(1, 6); bool parent_first = s.coin(); std::vector<unsigned> seed; for (int i = 0; i < P; ++i) seed.push_back((unsigned)s.below(1u << 30)); NOTE(P << " processes " << R << " rounds"); c.nontrivial(); Semaphore lock(ns);
  SharedMemory<B> mine(nm); std::string want = initial<B>(); same<B>(bytes(*mine.data()), want); (void)parent_first; std::vector<pid_t> ps;
  for (int i = 0; i < P; ++i) { pid_t p = child([&] { int rc = 0; SharedMemory<B> m(nm); for (int r = 0; r < R; ++r) { lock.lock(); for (int j = i; j < 6000; j += P) m.data()->b[j] = (unsigned char)(m.data()->b[j] + (seed[i] >> (j % 24)) + r); lock.unlock(); } if (m.data() == mine.data()) rc = 3; return rc; }); if (p > 0) ps.push_back(p); else break; }
  int st, bad = 0; for (auto p : ps) { while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) ++bad; } if ((int)ps.size() < P) throw pbt::Discard(); CHECK(bad == 0, "a process failed"); for (int i = 0; i < P; ++i) for (int r = 0; r < R; ++r) for (int j = i; j < 6000; j += P) want[j] = (char)(unsigned char)(want[j] + (seed[i] >> (j % 24)) + r); same<B>(bytes(*mine.data()), want); CHECK(exists(nm), "the processes that left took the memory with them");
}
/* ----------------------------------------------------------------------------- listed findings */
KNOWN("C38-unlink", sem_unlink_finding) {
  Normal nn; Names names; std::string nm = names(); Semaphore a(nm); { Semaphore b(nm); } Semaphore late(nm); a.lock(); bool both = late.trylock(); what = "a process that connects after another one has disconnected gets a semaphore of its own and is not excluded by the ones still connected"; return both;
}
KNOWN("C39-foreign-unlink", shm_unlink_finding) {
  Normal nn; Names names; std::string nm = names(); std::unique_ptr<SharedMemory<Fields>> creator(new SharedMemory<Fields>(nm)); SharedMemory<Fields> peer(nm); peer.unlink(); SharedMemory<Fields> next(nm); creator.reset(); what = "after a peer unlinked the memory and it was created again, the end of the first creator removes the new one's name"; return !exists(nm);
}
KNOWN("C39-init-race", shm_init_race) {
  Normal nn; Names names; std::string nm = names(); std::unique_ptr<SharedMemory<Fields>> peer; int seen = 0; at_trunc = [&] { peer.reset(new SharedMemory<Fields>(nm)); seen = peer->data()->a; peer->data()->a = 7; }; SharedMemory<Fields> creator(nm); bool lost = creator.data()->a != 7 || seen != 42; what = "a peer that connects while the memory is being created sees it uninitialised and loses what it writes"; return lost;
}
PBT_MAIN
