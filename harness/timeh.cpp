// Time stamps, watches, sleepers, periodic loops and timing data, on clocks that are generated inputs.
#include "pbt.hpp"
#include <cmath>
#include <functional>
#include <time.h>
#include <unistd.h>
#include <memory>
#include <errno.h>
#include <ecl/time.hpp>
#include <ecl/time/cpuwatch.hpp>
#include <ecl/exceptions/standard_exception.hpp>
using namespace ecl;
#ifdef NDEBUG
enum { DEBUG_CHECKS = 0 };
#else
enum { DEBUG_CHECKS = 1 };
#endif
typedef long long ll; static const ll G = 1000000000LL;
/* ------------------------------------------------------------------------------ generated clocks */
struct Clock { ll now; ll step; std::vector<ll> reads; int get(timespec* t) { now += step; reads.push_back(now); t->tv_sec = now / G; t->tv_nsec = now % G; return 0; } };
static Clock mono, real_, cpu; static std::vector<timespec> sleeps; static ll late = 0;
int ecl_compat_epoch(struct timespec* t) { return mono.get(t); }
int ecl_compat_realtime(struct timespec* t) { return real_.get(t); }
int ecl_compat_cpu(struct timespec* t) { return cpu.get(t); }
int ecl_compat_sleep_until(const struct timespec* t) { sleeps.push_back(*t); if (t->tv_nsec < 0 || t->tv_nsec >= G) { errno = EINVAL; return -1; } ll x = t->tv_sec * G + t->tv_nsec; if (x > mono.now) mono.now = x; mono.now += late; return 0; }
static std::vector<timespec> naps; static int nap_error = 0;
static int rnd_n = 0; static int rnd[4];
extern "C" {
int __wrap_nanosleep(const timespec* r, timespec*) { naps.push_back(*r); if (r->tv_sec < 0 || r->tv_nsec < 0 || r->tv_nsec >= G) { errno = EINVAL; return -1; } if (nap_error) { errno = nap_error; return -1; } return 0; }
int __real_rand(); int __wrap_rand() { if (rnd_n > 0) return rnd[--rnd_n]; return __real_rand(); }
}
static void clocks(pbt::Src& s) { mono.now = s.coin() ? (ll)s.below(5) * G : (ll)s.below(1u << 30) * G + (ll)s.below(G); real_.now = 1500000000LL * G + (ll)s.below(1u << 30) * 1000; cpu.now = (ll)s.below(100) * G / 7; mono.step = real_.step = cpu.step = s.coin() ? 0 : (ll)s.below(900); mono.reads.clear(); real_.reads.clear(); cpu.reads.clear(); sleeps.clear(); late = 0; naps.clear(); nap_error = 0; rnd_n = 0; }
static ll ns(const TimeStampBase& t) { return t.sec() * G + t.nsec(); }
static bool canonical(const TimeStampBase& t) { return t.nsec() > -G && t.nsec() < G && !(t.sec() > 0 && t.nsec() < 0) && !(t.sec() < 0 && t.nsec() > 0); }
static std::string show(const TimeStampBase& t) { std::ostringstream o; o << "(" << t.sec() << "," << t.nsec() << ")"; return o.str(); }
static void expect(const char* what, const TimeStampBase& t, ll want) { if (!canonical(t) || ns(t) != want) { TimeStampBase w((time_t)(want / G), (long)(want % G)); FAIL(what << " is " << show(t) << ", expected " << show(w)); } }
static ll value(pbt::Src& s) { ll sec = s.coin() ? (ll)s.below(4) : s.coin() ? (ll)s.below(100000) : (ll)s.below(2000000000u), n; switch (s.below(4)) { case 0: n = s.of<ll>({0, 1, 999999999, 500000000}); if (s.coin()) { n = 1; for (unsigned k = (unsigned)s.below(9); k; --k) n *= 10; n += (ll)s.below(3) - 1; } break; case 1: n = (ll)s.below(1000) * 1000000; break; default: n = (ll)s.below(G); } ll v = sec * G + n; return s.coin(1, 3) ? -v : v; }
/* ----------------------------------------------------------------------------------- time stamps */
PBT(stamp_arithmetic, 4, "a sum or a difference carried or changed its sign") {
  clocks(s); ll a = value(s); TimeStamp t((time_t)(a / G), (long)(a % G)); bool carried = false; int n = s.len(1, 10); expect("a new time stamp", t, a);
  for (int i = 0; i < n; ++i) {
    ll b = value(s); if (s.coin(1, 4)) b = a; if (s.coin(1, 6)) b = -a; TimeStamp u((time_t)(b / G), (long)(b % G)); if (s.coin(1, 10)) { b = a; u = t; } ll r = a; unsigned k = (unsigned)s.below(7); if (a > 4000000000000000000LL || a < -4000000000000000000LL) k = 6; NOTE("op " << k << " " << show(t) << " " << show(u));
    switch (k) { case 0: { TimeStamp q = t + u; r = a + b; expect("the sum", q, r); expect("the left operand", t, a); t = q; break; } case 1: { TimeStamp q = t - u; r = a - b; expect("the difference", q, r); expect("the left operand", t, a); t = q; break; } case 2: t += u; r = a + b; expect("the sum", t, r); break; case 3: t -= u; r = a - b; expect("the difference", t, r); break;
      case 4: { CHECK((t == u) == (a == b) && (t != u) == (a != b) && (t < u) == (a < b) && (t > u) == (a > b) && (t <= u) == (a <= b) && (t >= u) == (a >= b), "comparing " << show(t) << " with " << show(u) << ": == " << (t == u) << " < " << (t < u) << " > " << (t > u) << " <= " << (t <= u) << " >= " << (t >= u)); break; }
      case 5: if (s.coin(1, 5)) { t += t; r = 2 * a; expect("twice the time", t, r); } else if (s.coin(1, 4)) { t -= t; r = 0; expect("a time minus itself", t, r); } break;
      default: if (s.coin()) { t.stamp((time_t)(b / G), (long)(b % G)); r = b; expect("a stamped time", t, r); } else { TimeStamp q(t); expect("a copy", q, a); Duration d(u); t = d; r = b; expect("an assigned time", t, r); } break; }
    expect("the right operand", u, b); if (k < 4 && ((a < 0) != (r < 0) || ((a % G) + (b % G)) / G != 0 || a % G - b % G < 0)) carried = true; a = r;
    CHECK(t.msec() == t.nsec() / 1000000 && t.usec() == t.nsec() / 1000 && t.msec() == (a % G) / 1000000 && t.usec() == (a % G) / 1000, "parts of " << show(t) << ": " << t.msec() << " " << t.usec());
  }
  c.nontrivial(carried); c.label(a < 0, "negative"); c.label(a / G == 0 && a < 0, "negative below a second");
}
PBT(stamp_text, 2, "a fraction that is not zero") {
  clocks(s); ll a = value(s); TimeStamp t((time_t)(a / G), (long)(a % G)); std::ostringstream o; o << t; std::string x = o.str(); NOTE(x); ll u = a < 0 ? -a : a; char want[64]; snprintf(want, sizeof want, "%s%lld.%09lld", a < 0 ? "-" : "", u / G, u % G); CHECK(x == want, "printed " << x << ", expected " << want);
  double d = t; CHECK(std::fabs((long double)d - (long double)a / G) <= std::fabs((long double)a / G) * 4e-16L, "as a number " << d << " for " << want);
  double v = s.coin() ? d : s.coin() ? s.real(1000) : (double)s.centred(-1000000, 1000000) / 1024; if (s.coin(1, 6)) v = s.real(9e9); if (std::fabs(v) > 9e9) v = 0.5; TimeStamp p(v), q; q.stamp(v); ll near = (ll)llroundl((long double)v * G), tol = 2 + (ll)(std::fabs(v) * 2.3e-16 * G); for (TimeStamp* z : {&p, &q}) CHECK(canonical(*z) && std::llabs(ns(*z) - near) <= tol, v << " became " << show(*z)); CHECK(ns(p) == ns(q), v << " becomes " << show(p) << " or " << show(q));
  c.nontrivial(a % G != 0);
}
PBT(stamp_refused, 1, "always: mixed signs, or a clock reading") {
  clocks(s); if (DEBUG_CHECKS && s.coin()) { long sec = (long)s.range(1, 100), n = (long)s.range(1, 999999999); if (s.coin()) sec = -sec; else n = -n; bool thrown = false; NOTE(sec << " " << n); TimeStamp t(1, 0); try { if (s.coin()) TimeStamp u(sec, n); else t.stamp(sec, n); } catch (const StandardException& e) { thrown = e.flag() == InvalidInputError; } CHECK(thrown, "a time of " << sec << "s and " << n << "ns was accepted"); }
  else { ll m = mono.now; TimeStamp t; CHECK(mono.reads.size() == 1 && ns(t) == m + mono.step, "a new time stamp is " << show(t)); mono.now += (ll)s.below(5 * G); const TimeStamp& r = t.stamp(); CHECK(&r == &t && ns(t) == mono.now, "a renewed time stamp is " << show(t)); TimeStamp w = TimeStamp::realtime_now(); CHECK(ns(w) == real_.now && real_.reads.size() == 1, "realtime " << show(w)); }
  c.nontrivial();
}
/* --------------------------------------------------------------------------------------- watches */
template <typename W> void watch(pbt::Src& s, pbt::Ctx& c, Clock& k) {
  clocks(s); k.reads.clear(); ll lo = k.now; W w; ll hi = k.now; CHECK(!k.reads.empty(), "a new watch did not read its clock"); lo = k.reads.front(); ll slo = lo, shi = hi; bool restarted = false, split = false, after = false; int n = s.len(1, 15);
  for (int i = 0; i < n; ++i) { k.now += s.coin(1, 4) ? 0 : s.coin() ? (ll)s.below(5000) : (ll)s.below(5) * G + (ll)s.below(G); size_t r0 = k.reads.size();
    switch (s.below(3)) { case 0: { TimeStamp t = w.elapsed(); CHECK(k.reads.size() > r0, "the clock was not read"); NOTE("elapsed " << show(t)); CHECK(canonical(t) && ns(t) >= k.now - hi && ns(t) <= k.now - lo, "elapsed " << show(t) << ", expected " << k.now - lo << "ns"); if (restarted) after = true; break; }
      case 1: { TimeStamp t = w.split(); CHECK(k.reads.size() > r0, "the clock was not read"); NOTE("split " << show(t)); CHECK(canonical(t) && ns(t) >= k.now - shi && ns(t) <= k.now - slo, "split " << show(t) << ", expected " << k.now - slo << "ns"); slo = shi = k.now; split = true; break; }
      default: w.restart(); CHECK(k.reads.size() > r0, "the clock was not read"); NOTE("restart"); lo = slo = k.reads[r0]; hi = shi = k.now; restarted = true; break; } }
  c.nontrivial(split && after);
}
PBT(watch_wall, 2, "a split, and the elapsed time after a restart") { watch<StopWatch>(s, c, mono); }
PBT(watch_cpu, 2, "a split, and the elapsed time after a restart") { watch<CpuWatch>(s, c, cpu); }
PBT(watch_snooze, 4, "two periods were slept, or the loop fell behind") {
  clocks(s); ll p = s.coin() ? (ll)s.range(1, 50) * 1000000 : s.coin() ? (ll)s.range(10000, 999999999) : (ll)s.range(1, 3) * G + (ll)s.below(G); bool val = s.coin(), fell = false; if (s.coin(1, 4)) mono.now = (ll)s.below(100) * G + (G - p % G) - mono.step;
  Snooze* made; Snooze dflt; TimeStamp period0 = dflt.period(); CHECK(ns(period0) == 10000000, "the default period is " << show(period0)); mono.reads.clear(); Duration d((time_t)(p / G), (long)(p % G)); if (s.coin(1, 5)) { p = 10000000; val = false; made = new Snooze(); } else if (s.coin()) made = new Snooze(d, val); else { made = new Snooze(); mono.reads.clear(); made->period(d, val); } std::unique_ptr<Snooze> z(made); CHECK(ns(z->period()) == p, "period " << show(z->period()) << " not " << p << "ns"); CHECK(mono.reads.size() >= 1, "the clock was not read");
  NOTE("period " << p << " validate " << val << " start " << mono.now); ll at = mono.reads.back(); int slept = 0, n = s.len(1, 12);
  for (int i = 0; i < n; ++i) {
    ll work = s.coin(1, 4) ? 0 : s.coin(2, 3) ? (ll)s.below((unsigned long)(p * 9 / 10)) : s.coin() ? p * (ll)s.range(1, 4) : p + (ll)s.below((unsigned long)(p * 3)); if (s.coin(1, 4)) work = p - mono.step * 2; late = s.coin() ? 0 : (ll)s.below(2000); if (work < 0) work = 0; mono.now += work;
    if (s.coin(1, 8)) { size_t r = mono.reads.size(); z->initialise(); CHECK(mono.reads.size() == r + 1, "the clock was not read"); at = mono.now; NOTE("initialise"); }
    size_t r0 = mono.reads.size(), s0 = sleeps.size(); (*z)(); CHECK(sleeps.size() == s0 + 1, "slept " << sleeps.size() - s0 << " times"); timespec q = sleeps.back(); CHECK(q.tv_nsec >= 0 && q.tv_nsec < G, "slept until the invalid time (" << q.tv_sec << "," << q.tv_nsec << ")");
    ll t = q.tv_sec * G + q.tv_nsec, first = mono.reads.size() > r0 ? mono.reads[r0] : 0, last = mono.reads.size() > r0 ? mono.reads.back() : 0; NOTE("work " << work << " until " << t);
    bool regular = t == at + p && (!val || mono.reads.size() == r0 || at + p >= first), resync = false; for (size_t k = r0; k < mono.reads.size(); ++k) if (t == mono.reads[k] + p && at + p < last) resync = true; if (at + p < first) fell = true;
    CHECK(regular || resync, "slept until " << t << " with a period of " << p << " after " << at << ", clock " << first << ".." << last); CHECK(!val || mono.reads.size() > r0, "the time was not validated"); at = t; ++slept; }
  c.nontrivial(slept > 1 || fell); c.label(fell, "fell behind"); c.label(val, "validating"); c.label(p >= G, "over a second");
}
PBT(watch_sleep, 3, "a sleeper was used again with another time") {
  clocks(s); unsigned kind = (unsigned)s.below(4); ll unit = kind == 0 ? G : kind == 1 ? 1000000 : kind == 2 ? 1000 : 1; ll top = kind == 0 ? 1000 : kind == 1 ? 1000 : kind == 2 ? 1000000 : G; unsigned long v = s.coin(1, 3) ? (unsigned long)s.below((unsigned long)top) : (unsigned long)s.below((unsigned long)top * 3 + 1); ll cur = (ll)v * unit; int n = s.len(1, 8); bool again = false; static const char* names[] = {"seconds", "milliseconds", "microseconds", "nanoseconds"}; NOTE(v << " " << names[kind]);
  std::unique_ptr<Sleep> a; std::unique_ptr<MilliSleep> b; std::unique_ptr<MicroSleep> m; std::unique_ptr<NanoSleep> d; if (kind == 0) { if (s.coin()) a.reset(new Sleep(v)); else { ll x = value(s); if (x < 0) x = -x; cur = x; a.reset(new Sleep(Duration((time_t)(x / G), (long)(x % G)))); } } else if (kind == 1) b.reset(new MilliSleep(v)); else if (kind == 2) m.reset(new MicroSleep(v)); else d.reset(new NanoSleep(v));
  for (int i = 0; i < n; ++i) {
    ll dur = ns(kind == 0 ? a->duration() : kind == 1 ? b->duration() : kind == 2 ? m->duration() : d->duration()); CHECK(dur == cur, "a sleeper of " << cur << "ns says " << dur << "ns");
    nap_error = s.coin(1, 6) ? s.of<int>({EINTR, EFAULT, ENOSYS}) : 0; bool pre = s.coin(); unsigned long w = s.coin() ? (unsigned long)s.below(20) : s.coin(1, 6) ? (unsigned long)top : (unsigned long)s.below((unsigned long)top); int thrown = -1; naps.clear();
    try { if (pre) { if (kind == 0) (*a)(); else if (kind == 1) (*b)(); else if (kind == 2) (*m)(); else (*d)(); } else { again = true; cur = (ll)w * unit; if (kind == 0) { if (s.coin()) (*a)(w); else { ll x = value(s); if (x < 0) x = -x; cur = x; (*a)(Duration((time_t)(x / G), (long)(x % G))); } } else if (kind == 1) (*b)(w); else if (kind == 2) (*m)(w); else (*d)(w); } } catch (const StandardException& e) { thrown = e.flag(); }
    CHECK(naps.size() == 1, "slept " << naps.size() << " times"); timespec t = naps[0]; NOTE((pre ? "again" : "for ") << cur << "ns"); CHECK(t.tv_nsec >= 0 && t.tv_nsec < G && t.tv_sec * G + t.tv_nsec == cur, "slept (" << t.tv_sec << "," << t.tv_nsec << ") for " << cur << "ns of " << names[kind]);
    int want = !DEBUG_CHECKS || !nap_error ? -1 : nap_error == EINTR ? InterruptedError : nap_error == EFAULT ? MemoryError : UnknownError; CHECK(thrown == want, "flag " << thrown << " for error " << nap_error); nap_error = 0; }
  c.nontrivial(again); c.label(kind == 0, "seconds"); c.label(kind == 3, "nanoseconds");
}
PBT(watch_frequency, 4, "a window with updates and a window without were analysed") {
  clocks(s); if (s.coin()) real_.now = mono.now; float win = s.coin(1, 3) ? 2.0f : (float)s.positive(0.05, 8); bool rt = s.coin(); Clock& k = rt ? real_ : mono; NOTE("window " << win << (rt ? " realtime" : "")); mono.step = real_.step = 0; bool dflt = win == 2.0f && !rt; FrequencyMonitor* p = dflt && s.coin() ? new FrequencyMonitor() : new FrequencyMonitor(win, rt); std::unique_ptr<FrequencyMonitor> f(p);
  { const FrequencyDiagnostics& d = f->diagnostics(); CHECK(!d.has_connection && d.hz == -1 && d.minimum_interval == -1 && d.maximum_interval == -1 && d.std_dev == -1, "new diagnostics: " << d.has_connection << " " << d.hz); }
  ll start = k.now, last = k.now, lo = 0, hi = 0; unsigned cnt = 0; bool conn = false, busy = false, idle = false; float hz = -1, mn = -1, mx = -1; int n = s.len(1, 40); ll period = (ll)((double)win * G);
  auto tick = [&](ll d) { mono.now += d; real_.now += d; };
  auto close = [](float g, double w) { return std::fabs((double)g - w) <= 1e-5 * std::fabs(w) + 1e-8; };
  for (int i = 0; i < n; ++i) {
    tick(s.coin(1, 10) ? 0 : s.coin(1, 6) ? (ll)(win * G * (1 + (double)s.below(20) / 10)) : (ll)s.below((unsigned long)(win * G / 3)));
    if (s.coin(3, 5)) { f->update(); ll d = k.now - last; lo = cnt == 0 ? d : std::min(lo, d); hi = cnt == 0 ? d : std::max(hi, d); ++cnt; last = k.now; conn = true; NOTE("update after " << d); CHECK(f->diagnostics().has_connection, "no connection after an update"); }
    else { ll gap = k.now - start; if (std::llabs(gap - period) < 200) tick(1000), gap = k.now - start; const FrequencyDiagnostics& d = f->analyse(); NOTE("analyse after " << gap); if (gap > period) { if (cnt) { conn = true; hz = (float)((double)cnt / ((double)gap / G)); mn = (float)((double)lo / G); mx = (float)((double)hi / G); busy = true; } else { conn = false; hz = 0; mn = mx = 0; idle = true; } cnt = 0; start = k.now; }
      CHECK(d.has_connection == conn, "has_connection " << d.has_connection << ", expected " << conn); CHECK(close(d.hz, hz), "frequency " << d.hz << ", expected " << hz); CHECK(close(d.minimum_interval, mn) && close(d.maximum_interval, mx), "intervals " << d.minimum_interval << " " << d.maximum_interval << ", expected " << mn << " " << mx); CHECK(close(d.last_incoming, (double)last / G), "last update at " << d.last_incoming << ", expected " << (double)last / G); const FrequencyDiagnostics& e = f->diagnostics(); CHECK(e.hz == d.hz && e.has_connection == d.has_connection && e.minimum_interval == d.minimum_interval, "the getter differs from the analysis"); } }
  c.nontrivial(busy && idle); c.label(busy, "busy window"); c.label(rt, "realtime");
}
/* ------------------------------------------------------------------------------------------ data */
PBT(data_times, 3, "two different durations or more") {
  clocks(s); TimeData d; int n = s.len(1, 30); std::vector<ll> v; bool differ = false, cleared = false; ll scale = s.of<ll>({100, 1000000, G, 100 * G}); for (int i = 0; i < n; ++i) { if (s.coin(1, 25) && !v.empty()) { d.clear(); v.clear(); cleared = true; } ll x = s.coin(1, 5) && !v.empty() ? v.back() : (ll)s.below((unsigned long)scale) + (s.coin(1, 3) ? (ll)s.below(1000) * G : 0); if (!v.empty() && x != v[0]) differ = true; v.push_back(x); d.push_back(Duration((time_t)(x / G), (long)(x % G))); NOTE(x); }
  long double sum = 0, sq = 0; for (ll x : v) sum += x; long double avg = sum / v.size(); for (ll x : v) sq += (x - avg) * (x - avg); long double var = sq / v.size() / G, sd = std::sqrt(sq / v.size()); auto near = [&](const char* w, Duration t, long double want, long double tol) { if (!canonical(t) || std::fabs((long double)ns(t) - want) > tol) FAIL(w << " of " << v.size() << " durations is " << show(t) << ", expected " << (double)want << "ns"); };
  near("average", d.average(), avg, 3 + avg * 1e-14L); near("standard deviation", d.stdDev(), sd, 3 + sd * 1e-13L + avg * 1e-14L); near("variance", d.variance(), var, 3 + var * 1e-12L + 1e-12L * avg * (sd / G + 1)); c.nontrivial(differ); c.label(cleared, "cleared"); c.label(n == 1, "one duration");
}
template <typename T> void random_(pbt::Src& s, pbt::Ctx& c, const char* name) {
  clocks(s); unsigned seed = (unsigned)s.below(1u << 31); T range = (T)s.positive(0.01, 100), sd = (T)s.positive(0.01, 10), mu = (T)s.real(50); NOTE(name << " seed " << seed << " range " << range << " deviation " << sd << " mean " << mu); int pre = (int)s.below(3), n = s.len(1, 40); unsigned kind = (unsigned)s.below(5);
  auto draw = [&](int odd) { RandomNumberGenerator<T> g(seed); std::vector<T> v; for (int i = 0; i < n; ++i) v.push_back(kind == 0 ? g.uniform() : kind == 1 ? g.uniform(range) : kind == 2 ? g.gaussian(sd) : kind == 3 ? g.gaussian(sd, mu) : i % 2 ? g.gaussian(sd, mu) : g.uniform(range)); for (int i = 0; i < odd; ++i) g.gaussian(1); return v; };
  std::vector<T> a = draw(pre), b = draw(0); CHECK(a == b, "the same seed gives different numbers (" << a[0] << ".. and " << b[0] << "..)");
  for (T x : a) { CHECK(std::isfinite(x), "drew " << x); if (kind == 0) CHECK(x >= 0 && x <= 1, "a uniform number outside [0,1]: " << x); if (kind == 1) CHECK(std::fabs(x) <= range, "a uniform number outside the range " << range << ": " << x); }
  if (s.coin(1, 4)) { RandomNumberGenerator<T> g(seed); for (int i = 0; i < 4; ++i) rnd[i] = s.of<int>({0, 1, RAND_MAX, RAND_MAX - 1, RAND_MAX / 2, RAND_MAX / 2 + 1}); rnd_n = 4; T x = kind == 1 ? g.uniform(range) : kind == 0 ? g.uniform() : g.gaussian(sd, mu); rnd_n = 0; CHECK(std::isfinite(x), "drew " << x << " from an extreme sequence"); if (kind == 1) CHECK(std::fabs(x) <= range, "outside the range: " << x); if (kind >= 2) CHECK(std::fabs(x - mu) <= sd * 14, "a gaussian number too far out: " << x); c.label(true, "extreme"); }
  bool big = s.coin(1, 40); if (big) { RandomNumberGenerator<T> g(seed); const int N = 20000; long double m1 = 0, m2 = 0, m3 = 0, pair = 0, last = 0; int in1 = 0; for (int i = 0; i < N; ++i) { long double z = kind < 2 ? ((kind == 0 ? (long double)g.uniform() * 2 - 1 : (long double)g.uniform(range) / range)) * std::sqrt(3.0L) : ((long double)g.gaussian(sd, mu) - mu) / sd; m1 += z; m2 += z * z; m3 += z * z * z; pair += z * last; last = z; if (std::fabs(z) <= 1) ++in1; }
    long double q = 7 / std::sqrt((long double)N), tol = kind < 2 ? 0 : std::fabs(mu) / sd * 1e-6L; CHECK(std::fabs(m1 / N) < q + tol, "mean " << (double)(m1 / N) << " of " << N << " numbers scaled to 0"); CHECK(std::fabs(m2 / N - 1) < 1.5L * q + tol, "variance " << (double)(m2 / N) << " of " << N << " numbers scaled to 1"); CHECK(std::fabs(m3 / N) < 4 * q + tol, "skew " << (double)(m3 / N)); CHECK(std::fabs(pair / N) < q + tol, "successive numbers correlate: " << (double)(pair / N)); long double w = kind < 2 ? 1 / std::sqrt(3.0L) : 0.682689492L; CHECK(std::fabs((long double)in1 / N - w) < q / 2 + 1e-3L, "within one deviation: " << (double)in1 / N); }
  c.nontrivial(n > 1); c.label(big, "distribution"); c.label(kind >= 2, "gaussian");
}
PBT(data_random, 3, "two numbers or more") { if (s.coin()) random_<double>(s, c, "double"); else random_<float>(s, c, "float"); }
PBT_MAIN
