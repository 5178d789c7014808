// Mutexes, threads, threadables and priorities: generated histories against models, every failing call, real contention.
#include "pbt.hpp"
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <errno.h>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <pthread.h>
#include <sched.h>
#include <sys/resource.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <ecl/threads.hpp>
#include <ecl/threads/mutex.hpp>
#include <ecl/threads/threadable.hpp>
#include <ecl/threads/priority.hpp>
#include <ecl/utilities/function_objects.hpp>
#include <ecl/utilities/references.hpp>
using namespace ecl;
#ifdef NDEBUG
enum { DEBUG_CHECKS = 0 };
#else
enum { DEBUG_CHECKS = 1 };
#endif
typedef long long ll; static const ll G = 1000000000LL;
/* ----------------------------------------------------------------------- clocks and system calls */
static std::atomic<bool> virt(false); static ll v_real, v_mono;
static thread_local int fail_attr = 0, fail_init = 0, fail_lock = 0, fail_try = 0, fail_unlock = 0, fail_create = 0; static thread_local bool fake_timed = false; static thread_local int timed_result = 0; static thread_local timespec deadline; static thread_local int deadlines = 0;
static std::mutex book; static std::map<pthread_t, int> handles; /* 0 live, 1 joining, 2 released */ static std::string misuse; static std::atomic<int> created(0); static thread_local size_t attr_stack; static std::atomic<bool> watched(false);
static void record(pthread_t t, int k, const char* what) { std::lock_guard<std::mutex> l(book); auto i = handles.find(t); if (i == handles.end() || i->second != 0) { if (misuse.empty()) misuse = std::string(what) + (i == handles.end() ? " of a thread that was never created" : " of a thread that was already joined or detached"); return; } if (k) i->second = k; }
/* a kernel's notion of priority, per thread */
struct Kernel { int policy, rt, nice; int lo, hi; int deny_nice, deny_rt, deny_get; int calls; }; static thread_local Kernel kern; static std::atomic<bool> fake_kernel(false); static std::function<Kernel()> newborn;
static Kernel plain() { Kernel k; k.policy = SCHED_OTHER; k.rt = 0; k.nice = 0; k.lo = 1; k.hi = 99; k.deny_nice = k.deny_rt = k.deny_get = 0; k.calls = 0; return k; }
extern "C" {
int __real_clock_gettime(clockid_t, timespec*); int __wrap_clock_gettime(clockid_t k, timespec* t) { if (virt && (k == CLOCK_REALTIME || k == CLOCK_MONOTONIC)) { ll v = k == CLOCK_REALTIME ? v_real : v_mono; t->tv_sec = v / G; t->tv_nsec = v % G; return 0; } return __real_clock_gettime(k, t); }
int __real_pthread_mutexattr_init(pthread_mutexattr_t*); int __wrap_pthread_mutexattr_init(pthread_mutexattr_t* a) { if (fail_attr) { int e = fail_attr; fail_attr = 0; return e; } return __real_pthread_mutexattr_init(a); }
int __real_pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*); int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { if (fail_init) { int e = fail_init; fail_init = 0; return e; } return __real_pthread_mutex_init(m, a); }
int __real_pthread_mutex_lock(pthread_mutex_t*); int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (fail_lock) { int e = fail_lock; fail_lock = 0; return e; } return __real_pthread_mutex_lock(m); }
int __real_pthread_mutex_trylock(pthread_mutex_t*); int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (fail_try) { int e = fail_try; fail_try = 0; return e; } return __real_pthread_mutex_trylock(m); }
int __real_pthread_mutex_unlock(pthread_mutex_t*); int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (fail_unlock) { int e = fail_unlock; fail_unlock = 0; return e; } return __real_pthread_mutex_unlock(m); }
int __real_pthread_mutex_timedlock(pthread_mutex_t*, const timespec*); int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { if (!fake_timed) return __real_pthread_mutex_timedlock(m, t); deadline = *t; ++deadlines; if (timed_result) return timed_result; return __real_pthread_mutex_trylock(m) == 0 ? 0 : ETIMEDOUT; }
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*); int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) {
  if (fail_create) { int e = fail_create; fail_create = 0; memset((void*)t, 0x5a, sizeof *t); return e; } if (!watched) return __real_pthread_create(t, a, f, x); int d = PTHREAD_CREATE_JOINABLE; attr_stack = 0; if (a) { pthread_attr_getdetachstate(a, &d); pthread_attr_getstacksize(a, &attr_stack); }
  std::lock_guard<std::mutex> l(book); int r = __real_pthread_create(t, a, f, x); if (r == 0) { ++created; handles[*t] = d == PTHREAD_CREATE_DETACHED ? 2 : 0; } return r; }
int __real_pthread_join(pthread_t, void**); int __wrap_pthread_join(pthread_t t, void** r) { if (watched && !pthread_equal(t, pthread_self())) record(t, 2, "joining"); { std::lock_guard<std::mutex> l(book); if (!misuse.empty()) return ESRCH; } return __real_pthread_join(t, r); }
int __real_pthread_detach(pthread_t); int __wrap_pthread_detach(pthread_t t) { if (watched) { record(t, 2, "detaching"); std::lock_guard<std::mutex> l(book); if (!misuse.empty()) return ESRCH; } return __real_pthread_detach(t); }
int __real_pthread_cancel(pthread_t); int __wrap_pthread_cancel(pthread_t t) { if (watched) { record(t, 0, "cancelling"); std::lock_guard<std::mutex> l(book); if (!misuse.empty()) return ESRCH; } return __real_pthread_cancel(t); }
#define KERNEL() if (kern.lo == 0) kern = newborn ? newborn() : plain(); ++kern.calls
int __real_setpriority(int, id_t, int); int __wrap_setpriority(int w, id_t i, int n) { if (!fake_kernel) return __real_setpriority((__priority_which)w, i, n); KERNEL(); if (n < -20) n = -20; if (n > 19) n = 19; if (kern.deny_nice) { errno = kern.deny_nice; return -1; } kern.nice = n; return 0; }
int __real_getpriority(int, id_t); int __wrap_getpriority(int w, id_t i) { if (!fake_kernel) return __real_getpriority((__priority_which)w, i); KERNEL(); return kern.nice; }
int __real_sched_setscheduler(pid_t, int, const sched_param*); int __wrap_sched_setscheduler(pid_t p, int k, const sched_param* q) { if (!fake_kernel) return __real_sched_setscheduler(p, k, q); KERNEL(); if (kern.deny_rt) { errno = kern.deny_rt; return -1; } bool rt = k == SCHED_RR || k == SCHED_FIFO; if (rt ? q->sched_priority < kern.lo || q->sched_priority > kern.hi : q->sched_priority != 0) { errno = EINVAL; return -1; } kern.policy = k; kern.rt = q->sched_priority; return 0; }
int __real_sched_getscheduler(pid_t); int __wrap_sched_getscheduler(pid_t p) { if (!fake_kernel) return __real_sched_getscheduler(p); KERNEL(); if (kern.deny_get == 1) { errno = EPERM; return -1; } return kern.policy; }
int __real_sched_getparam(pid_t, sched_param*); int __wrap_sched_getparam(pid_t p, sched_param* q) { if (!fake_kernel) return __real_sched_getparam(p, q); KERNEL(); if (kern.deny_get == 2) { errno = ESRCH; return -1; } q->sched_priority = kern.rt; return 0; }
int __real_sched_get_priority_min(int); int __wrap_sched_get_priority_min(int k) { if (!fake_kernel) return __real_sched_get_priority_min(k); KERNEL(); if (kern.deny_get == 3) { errno = EINVAL; return -1; } return k == SCHED_RR || k == SCHED_FIFO ? kern.lo : 0; }
int __real_sched_get_priority_max(int); int __wrap_sched_get_priority_max(int k) { if (!fake_kernel) return __real_sched_get_priority_max(k); KERNEL(); if (kern.deny_get == 4) { errno = EINVAL; return -1; } return k == SCHED_RR || k == SCHED_FIFO ? kern.hi : 0; }
}
int ecl_compat_epoch(timespec* t) { return __wrap_clock_gettime(CLOCK_MONOTONIC, t); } // as upstream
int ecl_compat_realtime(timespec* t) { return __wrap_clock_gettime(CLOCK_REALTIME, t); }
int ecl_compat_cpu(timespec* t) { return __real_clock_gettime(CLOCK_PROCESS_CPUTIME_ID, t); }
int ecl_compat_sleep_until(const timespec* t) { return clock_nanosleep(CLOCK_MONOTONIC, TIMER_ABSTIME, t, 0); }
struct Normal { Normal() { set(); } ~Normal() { set(); } void set() { virt = false; fail_attr = fail_init = fail_lock = fail_try = fail_unlock = fail_create = 0; fake_timed = false; timed_result = 0; deadlines = 0; watched = false; fake_kernel = false; newborn = nullptr; kern = plain(); std::lock_guard<std::mutex> l(book); handles.clear(); misuse.clear(); created = 0; } };
static ll now_ns() { timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * G + t.tv_nsec; }
template <typename F> static bool within(double sec, F f) { ll end = now_ns() + (ll)(sec * G); int n = 0; while (!f()) { if (now_ns() > end) return f(); if (++n < 200) sched_yield(); else usleep(50); } return true; }
/* --------------------------------------------------------------------------------------- mutexes */
struct Worker { // runs one command at a time
  std::mutex m; std::condition_variable cv; std::function<void()> f; std::atomic<bool> busy; bool quit; std::thread t;
  Worker() : busy(false), quit(false), t([this] { std::unique_lock<std::mutex> l(m); for (;;) { cv.wait(l, [this] { return f || quit; }); if (quit) return; l.unlock(); f(); l.lock(); f = nullptr; busy = false; } }) {}
  void send(std::function<void()> g) { { std::lock_guard<std::mutex> l(m); busy = true; f = g; } cv.notify_one(); } bool done(double sec) { return within(sec, [this] { return !busy; }); }
  ~Worker() { { std::lock_guard<std::mutex> l(m); quit = true; } cv.notify_one(); t.join(); } };
template <typename F> static int flagged(F f) { try { f(); } catch (const StandardException& e) { return e.flag(); } return -1; }
PBT_T(mutex_history, 4, 60, "a thread waited for the mutex and got it from its holder") {
  Normal nn; bool locked = s.coin(1, 4); Mutex* mx = nullptr; int T = (int)s.range(1, 3); std::vector<std::unique_ptr<Worker>> w; for (int i = 0; i < T; ++i) w.emplace_back(new Worker); int holder = -1; std::vector<int> waiting; bool handed = false; NOTE(T << " threads" << (locked ? ", born locked" : ""));
  w[0]->send([&] { mx = new Mutex(locked); }); w[0]->done(20); std::unique_ptr<Mutex> own(mx); Mutex& m = *own; if (locked) holder = 0; struct Release { std::function<void()> f; ~Release() { f(); } } rel{[&] { for (int k = 0; k < 2 * T + 2; ++k) { if (holder >= 0) { w[holder]->send([&] { m.unlock(); }); w[holder]->done(5); holder = -1; } for (int i = 0; i < T; ++i) if (std::find(waiting.begin(), waiting.end(), i) != waiting.end() && !w[i]->busy) { holder = i; waiting.erase(std::find(waiting.begin(), waiting.end(), i)); break; } if (holder < 0 && !waiting.empty()) usleep(1000); } }};
  std::vector<char> dirty; for (int i = 0, n = s.len(1, 20); i < n; ++i) {
    unsigned want = (holder >= 0 ? 1 : 0) + (unsigned)waiting.size(); CHECK(within(5, [&] { return m.locks() == want; }), "locks() is " << m.locks() << " with " << (holder >= 0 ? "a holder" : "no holder") << " and " << waiting.size() << " waiting");
    int t = (int)s.below(T); if (std::find(waiting.begin(), waiting.end(), t) != waiting.end()) continue; unsigned op = (unsigned)s.below(8); int flag = -2, ok = -1; bool mine = holder == t, free_ = holder < 0;
    if (op <= 1) { if (mine) { if (!DEBUG_CHECKS) continue; NOTE(t << " locks again"); w[t]->send([&] { flag = flagged([&] { m.lock(); }); }); CHECK(w[t]->done(5), "locking twice is not detected"); CHECK(flag == UsageError, "locking twice gave flag " << flag); }
      else if (free_) { NOTE(t << " locks"); w[t]->send([&] { flag = flagged([&] { m.lock(); }); }); CHECK(w[t]->done(5), "a free mutex cannot be locked"); CHECK(flag == -1, "locking a free mutex threw " << flag); holder = t; }
      else { NOTE(t << " waits"); w[t]->send([&] { m.lock(); }); waiting.push_back(t); if (s.coin()) { usleep(300); CHECK(w[t]->busy, "a locked mutex was locked again"); } } }
    else if (op == 2) { NOTE(t << " tries"); w[t]->send([&] { flag = flagged([&] { ok = m.trylock(); }); }); CHECK(w[t]->done(5), "trylock waits"); CHECK(flag == -1, "trylock threw " << flag); CHECK(ok == (free_ ? 1 : 0), "trylock said " << ok << " on a " << (free_ ? "free" : "locked") << " mutex"); if (ok) holder = t; }
    else if (op == 3) { int us = (int)s.range(0, 2000); NOTE(t << " tries for " << us << "us"); ll t0 = 0, t1 = 0; w[t]->send([&] { Duration d(0, us * 1000L); t0 = now_ns(); flag = flagged([&] { ok = m.trylock(d); }); t1 = now_ns(); }); CHECK(w[t]->done(20), "a timed lock of " << us << "us waits forever"); if (mine && DEBUG_CHECKS) { CHECK(flag == UsageError, "a timed lock of the own mutex gave flag " << flag); continue; } CHECK(flag == -1, "a timed lock threw " << flag); CHECK(ok == (free_ ? 1 : 0), "a timed lock said " << ok << " on a " << (free_ ? "free" : "locked") << " mutex"); if (ok) holder = t; else CHECK(t1 - t0 >= us * 1000LL - 50000, "a timed lock of " << us << "us gave up after " << (t1 - t0) / 1000 << "us"); }
    else if (!mine) { if (!DEBUG_CHECKS) continue; NOTE(t << " unlocks what it does not hold"); w[t]->send([&] { flag = flagged([&] { m.unlock(); }); }); CHECK(w[t]->done(5), "unlock waits"); CHECK(flag == PermissionsError, "unlocking a mutex held by " << (free_ ? "nobody" : "another") << " gave flag " << flag); }
    else { NOTE(t << " unlocks"); w[t]->send([&] { flag = flagged([&] { m.unlock(); }); }); CHECK(w[t]->done(5), "unlock waits"); CHECK(flag == -1, "unlock threw " << flag); holder = -1; if (!waiting.empty()) { int next = -1; CHECK(within(5, [&] { for (int q : waiting) if (!w[q]->busy) { next = q; return true; } return false; }), "nobody got the mutex that was unlocked"); waiting.erase(std::find(waiting.begin(), waiting.end(), next)); holder = next; handed = true; NOTE(next << " got it"); usleep(100); for (int q : waiting) CHECK(w[q]->busy, "two threads got the mutex"); } }
  } c.nontrivial(handed);
}
PBT(mutex_deadline, 2, "the fractions of the clock and the time add up to a second or more, or the wait failed") {
  Normal nn; virt = true; fake_timed = true; v_real = (1500000000LL + (ll)s.below(1000000)) * G + s.of<ll>({0, 999999999, (ll)s.below(G), (ll)s.below(G), 500000000}); v_mono = (ll)s.below(1000000) * G + (ll)s.below(G); ll d = s.coin(1, 3) ? s.of<ll>({0, 1, 999999999, G, 500000000}) : s.coin() ? (ll)s.below(G) : (ll)s.below(100) * G + (ll)s.below(G); if (s.coin(1, 8)) d = G - v_real % G; if (s.coin(1, 10)) d = -(ll)s.below(3 * G);
  Mutex m; int k = (int)s.below(5); bool held = k == 1; if (held) { std::thread t([&] { m.lock(); }); t.join(); } if (k >= 2) timed_result = k == 2 ? EDEADLK : k == 3 ? EINVAL : EAGAIN; NOTE("clock " << v_real << " time " << d << " outcome " << k); Duration t((time_t)(d / G), (long)(d % G)); int ok = -1, flag = flagged([&] { ok = m.trylock(t); });
  CHECK(deadlines == 1, "the wait was asked for " << deadlines << " times"); ll got = deadline.tv_sec * G + deadline.tv_nsec; CHECK(deadline.tv_nsec >= 0 && deadline.tv_nsec < G, "the deadline has " << deadline.tv_nsec << " nanoseconds"); CHECK(got == v_real + d, "the deadline is " << got - v_real << "ns after now, expected " << d); CHECK(t.sec() == d / G && t.nsec() == d % G, "the duration was changed");
  if (k < 2) { CHECK(flag == -1 && ok == (held ? 0 : 1), "said " << ok << " flag " << flag << " on a " << (held ? "locked" : "free") << " mutex"); CHECK(m.locks() == 1, "locks() is " << m.locks()); } else { if (DEBUG_CHECKS) CHECK(flag == (k == 4 ? OutOfRangeError : UsageError), "a failing wait gave flag " << flag); else CHECK(flag == -1, "threw in release mode"); if (DEBUG_CHECKS) CHECK(m.locks() == 0, "a failed lock is counted: " << m.locks()); }
  timed_result = 0; c.nontrivial(k >= 2 || v_real % G + d % G >= G); if (k < 2) { /* leave it as it is: held by a thread that is gone, or by this one */ if (!held) m.unlock(); }
}
PBT(mutex_faults, 2, "always") {
  Normal nn; unsigned k = (unsigned)s.below(5); c.nontrivial(); auto expect = [&](const char* what, int e, int flag, int want) { NOTE(what << " fails with " << e); if (DEBUG_CHECKS) CHECK(flag == want, what << " failing with " << e << " gave flag " << flag << ", expected " << want); else CHECK(flag == -1, what << " threw in release mode"); };
  if (k == 0) { if (!DEBUG_CHECKS) return; int e = fail_attr = s.of<int>({EINVAL, ENOMEM, EIO}); int flag = flagged([&] { Mutex m; }); expect("the attribute", e, flag, e == EINVAL ? InvalidInputError : e == ENOMEM ? MemoryError : UnknownError); return; }
  if (k == 1) { if (!DEBUG_CHECKS) return; int e = fail_init = s.of<int>({EINVAL, EBUSY, EAGAIN, ENOMEM, EPERM, EIO}); int flag = flagged([&] { Mutex m(s.coin()); }); expect("the creation", e, flag, e == EINVAL || e == EBUSY ? InvalidInputError : e == EAGAIN || e == ENOMEM ? MemoryError : e == EPERM ? PermissionsError : UnknownError); return; }
  Mutex m; unsigned before = m.locks(); CHECK(before == 0, "a new mutex has " << before << " locks");
  if (k == 2) { int e = fail_lock = s.of<int>({EINVAL, EAGAIN, EDEADLK}); int flag = flagged([&] { m.lock(); }); expect("the lock", e, flag, e == EINVAL ? InvalidInputError : e == EAGAIN ? OutOfRangeError : UsageError); CHECK(m.locks() == 0, "a failed lock is counted"); CHECK(m.trylock(), "a failed lock locked the mutex"); m.unlock(); }
  else if (k == 3) { int e = fail_try = s.of<int>({EINVAL, EAGAIN, EDEADLK}); int flag = flagged([&] { m.trylock(); }); expect("trylock", e, flag, e == EINVAL ? InvalidInputError : e == EAGAIN ? OutOfRangeError : UsageError); if (DEBUG_CHECKS) CHECK(m.locks() == 0, "a failed lock is counted"); }
  else { m.lock(); int e = fail_unlock = s.of<int>({EINVAL, EAGAIN, EPERM}); int flag = flagged([&] { m.unlock(); }); expect("the unlock", e, flag, e == EINVAL ? InvalidInputError : e == EAGAIN ? OutOfRangeError : PermissionsError); CHECK(m.locks() == 1, "a failed unlock is counted: " << m.locks()); CHECK(!m.trylock(), "a failed unlock unlocked the mutex"); m.unlock(); CHECK(m.locks() == 0, "locks() is " << m.locks()); }
}
PBT_T(mutex_threads, 2, 120, "always") {
  Normal nn; Mutex m; long counter = 0; std::atomic<int> inside(0), bad(0), ready(0); int T = (int)s.range(2, 4), N = (int)s.range(5, 300); unsigned kinds = (unsigned)s.below(1u << 16); NOTE(T << " threads " << N << " rounds"); c.nontrivial(); std::vector<std::thread> th; std::atomic<unsigned> most(0);
  for (int i = 0; i < T; ++i) th.emplace_back([&, i] { ++ready; while (ready < T) {} unsigned r = kinds * 31 + i; for (int n = 0; n < N; ++n) { r = r * 1103515245 + 12345; switch ((r >> 16) % 4) { case 0: while (!m.trylock()) sched_yield(); break; case 1: { Duration d(5, 0); while (!m.trylock(d)) {} break; } default: m.lock(); } if (++inside != 1) ++bad; long v = counter; if ((r >> 20) % 8 == 0) sched_yield(); counter = v + 1; unsigned l = m.locks(); if (l < 1 || l > (unsigned)T) most = l ? l : 999; --inside; m.unlock(); } });
  for (auto& t : th) t.join(); CHECK(bad == 0, "two threads were inside at once " << bad << " times"); CHECK(counter == (long)T * N, "counted " << counter << " of " << (long)T * N); CHECK(most == 0, "locks() was " << most << " while the mutex was held, with " << T << " threads"); CHECK(m.locks() == 0, "locks() is " << m.locks() << " when all are gone");
}
/* --------------------------------------------------------------------------------------- threads */
struct Gate { std::atomic<bool> open, cancellable; std::atomic<int> begun, done, value; pthread_t id; size_t stack; int nice, policy; Gate() : open(false), cancellable(true), begun(0), done(0), value(0), stack(0), nice(99), policy(-1) {} };
static std::atomic<int> alive(0), bodies(0); struct In { In() { ++bodies; } ~In() { --bodies; } }; static Gate* gate = nullptr;
static void body(Gate& g, int v) { In in; g.id = pthread_self(); pthread_attr_t a; if (pthread_getattr_np(pthread_self(), &a) == 0) { pthread_attr_getstacksize(&a, &g.stack); pthread_attr_destroy(&a); } if (fake_kernel) { if (kern.lo == 0) kern = newborn(); g.nice = kern.nice; g.policy = kern.policy == SCHED_RR ? kern.rt : 0; } g.value = v; ++g.begun; while (!g.open) { if (g.cancellable) pthread_testcancel(); sched_yield(); } ++g.done; }
static void free_function() { body(*gate, 1); } static void unary_function(const int& v) { body(*gate, v); } static void by_value(int v) { body(*gate, v); }
struct Object { typedef void result_type; int v; Gate* g; Object(Gate* g_, int v_) : v(v_), g(g_) { ++alive; } Object(const Object& o) : v(o.v), g(o.g) { ++alive; } ~Object() { --alive; } void operator()() { int x = v; v = -1; body(*g, x); } void member() { body(*g, v); } void member_unary(const int& q) { body(*g, v * 1000 + q); } };
enum { FORMS = 8 }; static const char* form_name[] = {"function", "member", "bound function", "function object from a function", "bound member", "bound unary member", "object", "reference to an object"};
template <typename L> static void dispatch(int form, Object& o, int v, L l) { switch (form) { case 0: l(free_function); break; case 2: l(generateFunctionObject(unary_function, v)); break; case 3: l(generateFunctionObject(free_function)); break; case 4: l(generateFunctionObject(&Object::member, o)); break; case 5: l(generateFunctionObject(&Object::member_unary, o, v)); break; case 6: l(o); break; default: l(ref(o)); } }
struct Starter { Thread& t; Priority p; long st; Error r; template <typename F> void operator()(const F& f) { r = t.start(f, p, st); } void operator()(void (*f)()) { r = t.start(f, p, st); } };
struct Builder { std::unique_ptr<Thread>& t; Priority p; long st; template <typename F> void operator()(const F& f) { t.reset(new Thread(f, p, st)); } void operator()(void (*f)()) { t.reset(new Thread(f, p, st)); } };
static Error launch(Thread& t, int form, Object& o, int v, Priority p, long st) { if (form == 1) return t.start(&Object::member, o, p, st); Starter k{t, p, st, Error(NoError)}; dispatch(form, o, v, [&](auto&& f) { k(f); }); return k.r; }
static void construct(std::unique_ptr<Thread>& t, int form, Object& o, int v, Priority p, long st) { if (form == 1) { t.reset(new Thread(&Object::member, o, p, st)); return; } Builder k{t, p, st}; dispatch(form, o, v, [&](auto&& f) { k(f); }); }
static int expected(int form, int objv, int v) { switch (form) { case 0: case 3: return 1; case 2: return v; case 5: return objv * 1000 + v; default: return objv; } }
static std::string books(bool all) { std::lock_guard<std::mutex> l(book); if (!misuse.empty()) return misuse; if (all) for (auto& h : handles) if (h.second != 2) return "a thread was neither joined nor detached"; return ""; }
PBT_T(thread_history, 6, 60, "a thread was joined, cancelled or left behind while it was running") {
  Normal nn; Gate gs[4]; int used = 0; Gate* g = nullptr; int base = alive; { Object* o = nullptr; std::vector<std::unique_ptr<Object>> objs; std::unique_ptr<Thread> t; bool started = false, cancelled = false, joined = false, finished = false, busy = false; int form = 0, vexp = 0; std::vector<Gate*> left; watched = true;
  struct Open { Gate* g; ~Open() { for (int i = 0; i < 4; ++i) g[i].open = true; } } opener{gs};
  auto runs = [&] { return started && !finished && !joined && !cancelled; };
  auto finish = [&] { g->open = true; CHECK(within(10, [&] { return g->done == 1; }), "the thread does not finish"); finished = true; };
  for (int i = 0, n = s.len(1, 14); i < n; ++i) { CHECK(books(false).empty(), books(false));
    unsigned op = (unsigned)s.below(9);
    if (!t || op == 0) { // a new thread object, the old one is left behind
      if (t) { NOTE("destroy" << (runs() ? " while running" : "")); if (runs()) { left.push_back(g); busy = true; } bool was = started && !joined; t.reset(); (void)was; if (started && !finished && !cancelled && g->cancellable && s.coin()) { usleep(200); CHECK(g->done == 0, "the thread finished before its time"); } CHECK(books(true).empty(), books(true)); if (started && !finished) g->open = true; }
      if (used == 4) break; g = &gs[used++]; gate = g; g->cancellable = s.coin(3, 4); started = cancelled = joined = finished = false; objs.emplace_back(new Object(g, (int)s.range(2, 30))); o = objs.back().get(); if (s.coin()) { NOTE("new"); t.reset(new Thread); CHECK(!t->isRunning(), "a thread that was not started is running"); continue; }
      form = (int)s.below(FORMS); int v = (int)s.range(2, 900), e = s.coin(1, 6) ? s.of<int>({EAGAIN, EPERM, EINVAL, EIO}) : 0; long st = s.coin(1, 3) ? 16384L * s.range(1, 64) : -1; if (st == 16384) st = 65536; NOTE("construct with a " << form_name[form] << (e ? " failing " : "") << e << " stack " << st); vexp = expected(form, o->v, v); fail_create = e; int a0 = alive; int flag = flagged([&] { construct(t, form, *o, v, DefaultPriority, st); }); CHECK(fail_create == 0, "no thread was asked for"); int want = e == EAGAIN ? MemoryError : e == EPERM ? PermissionsError : e == EINVAL ? InvalidInputError : UnknownError;
      if (e) { if (DEBUG_CHECKS) { CHECK(flag == want, "a failed construction gave flag " << flag); CHECK(!t, "constructed"); if (!t) { t.reset(new Thread); } } else { CHECK(flag == -1 && t, "threw in release mode"); CHECK(!t->isRunning(), "a thread that failed to start is running"); } CHECK(alive <= a0, "a failed start kept a copy of the function object"); continue; }
      CHECK(flag == -1, "construction threw " << flag); started = true; if (st > 0) CHECK(attr_stack == (size_t)st, "a stack of " << attr_stack << " for " << st); goto began; }
    if (op <= 2) { int f = (int)s.below(FORMS), v = (int)s.range(2, 900), e = s.coin(1, 5) ? s.of<int>({EAGAIN, EPERM, EINVAL, EIO}) : 0; int c0 = created; Error r(NoError); NOTE("start a " << form_name[f] << (e ? " failing " : "") << e);
      if (started) { int a0 = alive; (void)a0; int flag = flagged([&] { r = launch(*t, f, *o, v, DefaultPriority, -1); }); if (DEBUG_CHECKS) CHECK(flag == BusyError, "starting twice gave flag " << flag); else CHECK(flag == -1 && r.flag() == BusyError, "starting twice gave error " << r.flag()); CHECK(created == c0, "a second thread was created"); continue; }
      fail_create = e; int ov = o->v, a0 = alive; int flag = flagged([&] { r = launch(*t, f, *o, v, DefaultPriority, -1); }); CHECK(fail_create == 0, "no thread was asked for"); int want = e == EAGAIN ? MemoryError : e == EPERM ? PermissionsError : e == EINVAL ? InvalidInputError : UnknownError;
      if (e) { if (DEBUG_CHECKS) CHECK(flag == want, "a failed start gave flag " << flag); else CHECK(flag == -1 && r.flag() == want, "a failed start gave error " << r.flag()); CHECK(!t->isRunning(), "a thread that failed to start is running"); CHECK(alive <= a0, "a failed start kept a copy of the function object"); continue; }
      CHECK(flag == -1 && r.flag() == NoError, "start gave flag " << flag << " error " << r.flag()); started = true; form = f; vexp = expected(f, ov, v); goto began; }
    if (op == 3) { bool want = runs(); NOTE("isRunning"); bool is = t->isRunning(); if (want) CHECK(is, "a running thread does not say so"); else if (finished && !joined && !cancelled) CHECK(within(10, [&] { return !t->isRunning(); }), "a finished thread still says it is running"); else CHECK(!is, "running though " << (!started ? "not started" : joined ? "joined" : "cancelled")); continue; }
    if (op == 4) { if (!runs()) continue; NOTE("finish"); finish(); continue; }
    if (op <= 6) { if (started && !joined && !finished && !cancelled) { NOTE("join a running thread"); busy = true; std::thread later([&] { usleep(300); g->open = true; }); int flag = flagged([&] { t->join(); }); int done = g->done; later.join(); CHECK(done == 1, "join did not wait"); CHECK(flag == -1, "join threw " << flag); finished = joined = true; }
      else if (started && !joined) { NOTE("join a " << (cancelled ? "cancelled" : "finished") << " thread"); if (cancelled && !g->cancellable) g->open = true; int flag = flagged([&] { t->join(); }); CHECK(flag == -1, "join threw " << flag); joined = true; if (cancelled && g->cancellable) CHECK(g->done == 0, "a cancelled thread went on to the end"); if (cancelled && !g->cancellable) CHECK(g->done == 1, "a thread was cancelled where it cannot be"); }
      else if (joined) { NOTE("join again"); int flag = flagged([&] { t->join(); }); if (DEBUG_CHECKS) CHECK(flag == InvalidInputError, "joining twice gave flag " << flag); else CHECK(flag == -1, "threw in release mode"); }
      else { NOTE("join a thread that was not started"); flagged([&] { t->join(); }); }
      if (joined) CHECK(!t->isRunning(), "running after it was joined"); continue; }
    if (op == 7) { if (runs()) { NOTE("cancel"); busy = true; int flag = flagged([&] { t->cancel(); }); CHECK(flag == -1, "cancel threw " << flag); CHECK(!t->isRunning(), "running after it was cancelled"); cancelled = true; }
      else if (finished && !joined && !cancelled) { CHECK(within(10, [&] { return !t->isRunning(); }), "a finished thread still says it is running"); NOTE("cancel a finished thread"); int flag = flagged([&] { t->cancel(); }); if (DEBUG_CHECKS) CHECK(flag == InvalidInputError, "cancelling a finished thread gave flag " << flag); else CHECK(flag == -1, "threw in release mode"); if (flag == -1) cancelled = false; }
      else { NOTE("cancel a " << (!started ? "thread that was not started" : joined ? "joined thread" : "cancelled thread")); int flag = flagged([&] { t->cancel(); }); if (DEBUG_CHECKS) CHECK(flag != -1, "cancelled without complaint"); else CHECK(flag == -1, "threw in release mode"); } continue; }
    continue;
  began: CHECK(within(10, [&] { return g->begun == 1; }), "the function is not run"); CHECK(!pthread_equal(g->id, pthread_self()), "run by the caller"); CHECK(g->value == vexp, "a " << form_name[form] << " got " << g->value << ", expected " << vexp); CHECK(t->isRunning(), "a running thread does not say so"); CHECK(books(false).empty(), books(false));
    if (form == 6) CHECK(o->v != -1, "the object itself was run instead of a copy"); else if (form == 7) CHECK(o->v == -1, "a copy of the referenced object was run"); }
  NOTE("end"); if (t) { if (started && !joined && s.coin()) { if (cancelled && !g->cancellable) g->open = true; else if (!cancelled && !finished) finish(); int flag = flagged([&] { t->join(); }); CHECK(flag == -1, "the last join threw " << flag); joined = true; } t.reset(); } CHECK(books(true).empty(), books(true)); for (auto& q : gs) q.open = true;
  for (Gate* q : left) CHECK(within(10, [&] { return q->done == 1; }), "a thread that was left behind did not go on"); for (auto& q : gs) CHECK(q.begun <= 1 && q.done <= 1, "a function was run twice");
  CHECK(within(10, [&] { return bodies == 0; }), "a cancelled thread goes on"); CHECK(within(10, [&] { return alive - base == (int)objs.size(); }), "copies of the function object were not deleted: " << alive - base - (int)objs.size()); c.nontrivial(busy); }
  usleep(100); CHECK(alive == base, "function objects deleted twice");
}
PBT_T(thread_settings, 2, 60, "always") {
  Normal nn; watched = true; fake_kernel = true; newborn = plain; Gate g; gate = &g; g.open = true; Object o(&g, 5); int form = (int)s.below(FORMS); unsigned k = (unsigned)s.below(3); c.nontrivial(); std::unique_ptr<Thread> t; int base = alive; (void)base;
  if (k == 0) { long st = s.of<long>({0, 1, 100, 4096, 16383}); if (!DEBUG_CHECKS) return; bool ctor = s.coin(); NOTE("stack " << st); Thread* raw = nullptr; (void)raw; int flag; if (ctor) flag = flagged([&] { construct(t, form, o, 3, DefaultPriority, st); }); else { t.reset(new Thread); flag = flagged([&] { launch(*t, form, o, 3, DefaultPriority, st); }); CHECK(!t->isRunning(), "a thread that failed to start is running"); } CHECK(flag == ConfigurationError, "a stack of " << st << " gave flag " << flag); CHECK(created == 0, "a thread was created"); if (!ctor) { flag = flagged([&] { launch(*t, form, o, 3, DefaultPriority, -1); t->join(); }); CHECK(flag == -1 && g.done == 1, "could not be started after a failed start"); } t.reset(); CHECK(books(true).empty(), books(true)); return; }
  static const Priority ps[] = {DefaultPriority, UnknownPriority, BackgroundPriority, LowPriority, NormalPriority, HighPriority, CriticalPriority, RealTimePriority1, RealTimePriority2, RealTimePriority3, RealTimePriority4}; Priority p = ps[s.below(11)]; int deny = s.coin(1, 4) ? s.of<int>({EPERM, EACCES}) : 0; NOTE(form_name[form] << " priority " << p << " denied " << deny); newborn = [deny] { Kernel q = plain(); q.nice = 3; q.deny_nice = q.deny_rt = deny; return q; };
  if (s.coin()) construct(t, form, o, 3, p, -1); else { t.reset(new Thread); launch(*t, form, o, 3, p, -1); } t->join(); CHECK(g.done == 1, "did not run"); Kernel want = newborn(); kern = want; { bool threw = flagged([&] { set_priority(p); }) != -1; (void)threw; } want = kern; int wn = want.nice, wp = want.policy == SCHED_RR ? want.rt : 0; CHECK(g.nice == wn && g.policy == wp, "the thread runs at niceness " << g.nice << " real time " << g.policy << ", expected " << wn << " and " << wp); t.reset(); CHECK(books(true).empty(), books(true));
}
struct Work : Threadable { Gate& g; int runs; std::vector<int> data; Work(Gate& g_) : g(g_), runs(0) {} void runnable() { ++runs; data.push_back(runs); body(g, runs); data.push_back(-runs); } };
PBT_T(threadable_history, 3, 60, "it ran twice, or was started while it was running") {
  Normal nn; watched = true; Gate g; Work w(g); bool running = false, again = false; int runs = 0; struct Open { Gate& g; Work& w; ~Open() { g.open = true; within(10, [&] { return !w.isRunning(); }); } } opener{g, w};
  for (int i = 0, n = s.len(1, 14); i < n; ++i) { CHECK(w.isRunning() == running, "isRunning() is " << !running); switch (s.below(4)) {
    case 0: case 1: { int e = s.coin(1, 5) ? s.of<int>({EAGAIN, EPERM, EINVAL}) : 0, c0 = created; NOTE("start" << (running ? " again" : "") << (e ? " failing" : "")); if (!running) { g.open = false; } fail_create = e; int ok = -1, flag = flagged([&] { ok = w.start(); }); bool asked = fail_create == 0; fail_create = 0;
      if (running) { CHECK(ok == 0 && flag == -1, "started twice: " << ok << " flag " << flag); CHECK(created == c0, "a second thread was created"); again = true; } else if (e) { CHECK(asked, "no thread was asked for"); if (DEBUG_CHECKS) CHECK(flag == (e == EAGAIN ? MemoryError : e == EPERM ? PermissionsError : InvalidInputError), "a failed start gave flag " << flag); else CHECK(ok == 0 && flag == -1, "a failed start said " << ok << " flag " << flag); CHECK(!w.isRunning(), "running after a failed start"); } else { CHECK(ok == 1 && flag == -1, "start said " << ok << " flag " << flag); ++runs; running = true; CHECK(w.isRunning(), "not running right after the start"); CHECK(within(10, [&] { return g.begun == runs; }), "the work is not begun"); CHECK(g.value == runs, "run " << g.value << " times"); if (runs > 1) again = true; } break; }
    case 2: if (running) { NOTE("finish"); g.open = true; CHECK(within(10, [&] { return !w.isRunning(); }), "still running after the work was done"); CHECK(g.done == runs && w.runs == runs && (int)w.data.size() == 2 * runs, "the work was not complete when it was said to be"); running = false; } break;
    default: if (running) { usleep(100); CHECK(w.isRunning(), "not running while the work is going on"); } break; } }
  g.open = true; CHECK(within(10, [&] { return !w.isRunning(); }), "does not finish"); CHECK(w.runs == runs && g.begun == runs, "ran " << w.runs << " times, expected " << runs); CHECK(books(true).empty(), books(true)); c.nontrivial(again);
}
PBT_T(threadable_race, 1, 60, "always") {
  Normal nn; Gate g; Work w(g); int T = (int)s.range(2, 4), R = (int)s.range(1, 6); NOTE(T << " starters " << R << " rounds"); c.nontrivial(); std::atomic<int> round(-1), arrived(0), won(0); std::atomic<bool> quit(false); std::vector<std::thread> th; struct End { std::atomic<bool>& q; std::vector<std::thread>& th; Gate& g; Work& w; ~End() { q = true; g.open = true; for (auto& t : th) t.join(); within(10, [&] { return !w.isRunning(); }); usleep(200); } } end{quit, th, g, w};
  for (int i = 0; i < T; ++i) th.emplace_back([&] { int seen = -1; while (!quit) { int r = round; if (r == seen) { sched_yield(); continue; } seen = r; if (w.start()) ++won; ++arrived; } });
  for (int r = 0; r < R; ++r) { g.open = false; arrived = 0; won = 0; int runs0 = g.begun; round = r; CHECK(within(20, [&] { return arrived == T; }), "start waits"); CHECK(won == 1, won << " of " << T << " starters at once were told they started it"); CHECK(within(10, [&] { return g.begun == runs0 + 1; }), "begun " << g.begun - runs0 << " times"); g.open = true; CHECK(within(10, [&] { return !w.isRunning(); }), "does not finish"); CHECK(w.runs == r + 1 && (int)w.data.size() == 2 * (r + 1), "the work was not complete when it was said to be"); }
}
struct Publish { typedef void result_type; int* out; int n; void operator()() { for (int i = 0; i < n; ++i) out[i] = i * i; } };
PBT_T(thread_publish, 1, 60, "always") {
  Normal nn; int n = (int)s.range(1, 200); std::vector<int> out(n, -1); bool poll = s.coin(); NOTE((poll ? "poll " : "join ") << n); c.nontrivial(); Publish p = {out.data(), n}; Thread t(p); if (poll) CHECK(within(20, [&] { return !t.isRunning(); }), "does not finish"); else t.join(); for (int i = 0; i < n; ++i) CHECK(out[i] == i * i, "element " << i << " is " << out[i]); if (poll && s.coin()) t.join();
}
/* ------------------------------------------------------------------------------------ priorities */
static const char* pname[] = {"Default", "Unknown", "Background", "Low", "Normal", "High", "Critical", "RealTime1", "RealTime2", "RealTime3", "RealTime4"};
PBT(priority_history, 3, "a priority was changed between groups, or refused") {
  Normal nn; fake_kernel = true; kern = plain(); if (s.coin(1, 4)) { kern.lo = (int)s.range(1, 10); kern.hi = kern.lo + (int)s.range(30, 120); } bool notable = false; int last = NormalPriority; int rtseen[4] = {-1, -1, -1, -1}, nseen[5] = {99, 99, 99, 99, 99};
  for (int i = 0, n = s.len(1, 15); i < n; ++i) { int p = (int)s.below(11); kern.deny_nice = s.coin(1, 6) ? s.of<int>({EACCES, EPERM, ESRCH, EINVAL}) : 0; kern.deny_rt = s.coin(1, 6) ? s.of<int>({EPERM, ESRCH, EINVAL}) : 0; kern.deny_get = s.coin(1, 12) ? (int)s.range(3, 4) : 0; NOTE("set " << pname[p] << " refusing " << kern.deny_nice << "/" << kern.deny_rt << "/" << kern.deny_get); Kernel k0 = kern; int ok = -1, flag = flagged([&] { ok = set_priority((Priority)p); }); bool rt = p >= RealTimePriority1, none = p < BackgroundPriority, was_rt = k0.policy == SCHED_RR; int e = rt ? kern.deny_rt : none ? 0 : was_rt && kern.deny_rt ? kern.deny_rt : kern.deny_nice;
    if (rt && kern.deny_get) { CHECK(flag == NotSupportedError, "without real time policy: flag " << flag); CHECK(kern.policy == k0.policy && kern.nice == k0.nice, "changed"); notable = true; continue; }
    if (e) { notable = true; int want = e == EPERM || e == EACCES ? PermissionsError : InvalidInputError; if (DEBUG_CHECKS) CHECK(flag == want, "a refusal " << e << " of " << pname[p] << " gave flag " << flag << " value " << ok); else CHECK(flag == -1 && ok == 0, "a refusal " << e << " of " << pname[p] << " said " << ok << " flag " << flag); if (kern.policy == k0.policy && kern.rt == k0.rt && kern.nice == k0.nice) {} else if (!(was_rt && !rt)) FAIL("a refused " << pname[p] << " changed the priority"); else { kern.policy = SCHED_OTHER; kern.nice = 0; last = NormalPriority; } continue; }
    CHECK(flag == -1 && ok == 1, "setting " << pname[p] << " said " << ok << " flag " << flag); if (none) { CHECK(kern.policy == k0.policy && kern.rt == k0.rt && kern.nice == k0.nice, pname[p] << " changed the priority"); } else { if ((last >= RealTimePriority1) != rt) notable = true; last = p; if (rt) { CHECK(kern.policy == SCHED_RR, pname[p] << " uses policy " << kern.policy); rtseen[p - RealTimePriority1] = kern.rt; } else { CHECK(kern.policy == SCHED_OTHER, pname[p] << " leaves policy " << kern.policy); nseen[p - BackgroundPriority] = kern.nice; static const int place[] = {20, 10, 0, -10, -20}; CHECK(std::abs(kern.nice - place[p - BackgroundPriority]) <= 1, pname[p] << " has niceness " << kern.nice); } }
    kern.deny_get = 0; int got = get_priority(); CHECK(got == last, "reads back as " << pname[got] << ", expected " << pname[last]); if (s.coin(1, 4)) { std::string d = print_priority_diagnostics(); CHECK(d.find(std::string(".") + pname[last] + "\n") != std::string::npos, "the diagnostics do not name " << pname[last] << ": " << pbt::quote(d)); CHECK(d.find(kern.policy == SCHED_RR ? "SCHED_RR" : "SCHED_OTHER") != std::string::npos, "the diagnostics do not name the scheduler"); CHECK(d.find("[" + std::to_string(kern.lo) + "," + std::to_string(kern.hi) + "]") != std::string::npos, "the diagnostics do not show the range of real time priorities"); } }
  for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) if (rtseen[i] >= 0 && rtseen[j] >= 0) CHECK(rtseen[i] < rtseen[j], "real time level " << i + 1 << " has " << rtseen[i] << ", level " << j + 1 << " has " << rtseen[j]); c.nontrivial(notable);
}
PBT(priority_read, 1, "always") {
  Normal nn; fake_kernel = true; kern = plain(); c.nontrivial(); unsigned k = (unsigned)s.below(4); NOTE(k); if (k == 0) { kern.policy = s.of<int>({SCHED_FIFO, SCHED_BATCH, SCHED_IDLE}); int got = get_priority(); CHECK(got == UnknownPriority, "policy " << kern.policy << " reads as " << pname[got]); }
  else if (k == 1) { kern.policy = SCHED_RR; kern.rt = (int)s.range(1, 99); kern.deny_get = s.coin() ? 1 : 2; int got = -1, flag = flagged([&] { got = get_priority(); }); if (DEBUG_CHECKS) CHECK(flag == (kern.deny_get == 1 ? PermissionsError : InvalidInputError), "a failing call gave flag " << flag); else CHECK(flag == -1 && got == UnknownPriority, "a failing call gave flag " << flag << " value " << got); }
  else if (k == 2) { kern.policy = SCHED_RR; kern.rt = (int)s.range(1, 99); int a = get_priority(); CHECK(a >= RealTimePriority1 && a <= RealTimePriority4, "a real time priority of " << kern.rt << " reads as " << pname[a]); int x = kern.rt; kern.rt = (int)s.range(x, 99); int b = get_priority(); CHECK(b >= a, "a real time priority of " << kern.rt << " reads as " << pname[b] << ", one of " << x << " as " << pname[a]); }
  else { auto r = pbt::sandbox([&] { Normal q; Priority p = set_priority(LowPriority) ? get_priority() : UnknownPriority; int n1 = getpriority(PRIO_PROCESS, 0); bool ok = set_priority(BackgroundPriority); Priority p2 = get_priority(); int n2 = getpriority(PRIO_PROCESS, 0); return p == LowPriority && n1 == 10 && ok && p2 == BackgroundPriority && n2 == 19 ? 0 : 1; }); CHECK(r.code == 0 && !r.timed_out && r.sig == 0, "the real priorities are not as set (code " << r.code << " signal " << r.sig << ")"); }
}
PBT_MAIN
