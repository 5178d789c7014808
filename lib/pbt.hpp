// Property-based testing engine: choice-sequence generation, fork isolation, shrinking, replay.
// A case is nothing but the sequence of bounded integers its body drew; every run, shrink step and
// replay re-executes the body on such a sequence, so a sequence in a replay file *is* the failing input.
#ifndef VERIF_PBT_HPP_
#define VERIF_PBT_HPP_
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <new>
#include <string>
#include <utility>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

struct Fail { std::string msg; };
// a child never outlives the process that forked it
inline void die_with_parent() { prctl(PR_SET_PDEATHSIG, SIGKILL); }
struct Discard {};

enum { MAXSEQ = 60000, MSGMAX = 8000 };
struct Shm {
  volatile uint64_t beat;       // advances with every case (watchdog)
  volatile uint64_t case_no;
  volatile int body;
  volatile int nseq;
  volatile int failed;          // 1: msg holds an oracle failure
  uint64_t seq[MAXSEQ];
  char msg[MSGMAX];
};
inline Shm*& shm() { static Shm* p = 0; return p; }

struct Rng {
  uint64_t s[2];
  static uint64_t mix(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  explicit Rng(uint64_t seed) { s[0] = mix(seed); s[1] = mix(seed); if (!s[0] && !s[1]) s[0] = 1; }
  uint64_t next() { uint64_t a = s[0], b = s[1], r = a + b; b ^= a; s[0] = ((a << 55) | (a >> 9)) ^ b ^ (b << 14); s[1] = (b << 36) | (b >> 28); return r; }
};

// The source of choices of one case.
class Src {
public:
  enum Mode { Random, Replay, Bytes };
  explicit Src(uint64_t seed) : mode(Random), rng(seed), in(0), pos(0) { reset(); }
  explicit Src(const std::vector<uint64_t>* seq) : mode(Replay), rng(1), in(seq), pos(0) { reset(); }
  Src(const uint8_t* d, size_t n) : mode(Bytes), rng(1), in(0), pos(0), bytes(d), nbytes(n) { reset(); }

  // uniform in [0,n); n==0 means the whole 64 bit range.  0 is the simplest choice.
  uint64_t below(uint64_t n) {
    uint64_t v;
    if (mode == Random) v = n ? rng.next() % n : rng.next();
    else if (mode == Replay) { v = pos < in->size() ? (*in)[pos] : 0; ++pos; if (n && v >= n) v %= n; }
    else {
      int w = (n && n <= 256) ? 1 : (n && n <= 65536) ? 2 : (n && n <= (1ull << 32)) ? 4 : 8; v = 0;
      for (int i = 0; i < w; ++i) { v = (v << 8) | (pos < nbytes ? bytes[pos] : 0); ++pos; }
      if (n) v %= n;
    }
    rec(v);
    return v;
  }
  bool exhausted() const { return mode == Bytes ? pos > nbytes + 64 : false; }
  // true with probability num/den; false is the simple choice
  bool coin(unsigned num = 1, unsigned den = 2) { return below(den) >= den - num; }
  // integer in [lo,hi], lo simplest
  int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(below(uint64_t(hi) - uint64_t(lo) + 1)); }
  // integer in [lo,hi], the value nearest zero simplest
  int64_t centred(int64_t lo, int64_t hi) {
    if (lo >= 0) return range(lo, hi);
    if (hi <= 0) return hi - int64_t(below(uint64_t(hi) - uint64_t(lo) + 1));
    uint64_t k = below(uint64_t(hi) - uint64_t(lo) + 1);  // zig-zag inside, then the longer tail
    uint64_t m = uint64_t(std::min(-lo, hi)) * 2;
    if (k <= m) return (k & 1) ? int64_t((k + 1) / 2) : -int64_t(k / 2);
    return hi >= -lo ? int64_t(k - uint64_t(-lo)) : -int64_t(k - uint64_t(hi));
  }
  // a length in [lo,hi]: mostly short, sometimes up to the maximum
  int len(int lo, int hi) {
    if (hi <= lo) return lo;
    switch (below(10)) {
      case 0: case 1: case 2: case 3: case 4: return (int)range(lo, std::min(hi, lo + 4));
      case 5: case 6: case 7: return (int)range(lo, std::min(hi, lo + 16));
      case 8: { int k = 0; while ((2 << k) <= hi + 1) ++k; int v = (1 << below((uint64_t)k + 1)) + (int)below(3) - 1; return std::min(hi, std::max(lo, v)); }  // about a power of two
      default: return (int)range(lo, hi);
    }
  }
  template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  template <typename T> T of(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
  // an index, chosen with the given weights
  int weighted(std::initializer_list<int> w) { int t = 0; for (int x : w) t += x; int k = (int)below(t), i = 0; for (int x : w) { if (k < x) return i; k -= x; ++i; } return 0; }
  // integer of type T, biased to the boundaries
  template <typename T> T integer() {
    typedef std::numeric_limits<T> L;
    switch (below(6)) {
      case 0: case 1: return (T)centred(L::is_signed ? -20 : 0, 20);
      case 2: { static const int d[] = {0,1,2,3,9,10,11}; T base = coin() ? L::max() : L::min(); int k = d[below(7)]; return base == L::max() ? T(base - k) : T(base + k); }
      case 3: { int sh = (int)below(sizeof(T) * 8); uint64_t b = uint64_t(1) << sh; return T(b + below(3) - 1); }
      case 4: { uint64_t p = 1; int k = (int)below(19); while (k--) p *= 10; p = p + below(3) - 1; return T(coin() ? p : uint64_t(0) - p); }
      default: return T(below(0));
    }
  }
  // a real in [-m,m]: integers, simple fractions, tiny, and uniform values
  double real(double m) {
    double v;
    switch (below(6)) {
      case 0: v = (double)centred(-10, 10); break;
      case 1: v = (double)centred(-40, 40) / 4.0; break;
      case 2: v = (double)centred(-1000000, 1000000) / 1e6 * m; break;
      case 3: v = (double)centred(-1000000, 1000000) / 1e6; break;
      case 4: { double e = std::pow(10.0, -(double)range(0, 12)); v = (double)centred(-1000, 1000) / 1000.0 * e * m; break; }
      default: v = (double)centred(-(1ll << 40), 1ll << 40) / double(1ll << 40) * m;
    }
    if (v > m) v = m; if (v < -m) v = -m;
    return v;
  }
  double positive(double lo, double hi) { return lo + (hi - lo) * (double)below(1000001) / 1e6; }
  std::string str(const char* alphabet, int lo, int hi) { std::string r; int n = len(lo, hi); size_t k = strlen(alphabet); for (int i = 0; i < n; ++i) r += alphabet[below(k)]; return r; }
  std::string bytes_str(int lo, int hi) { std::string r; int n = len(lo, hi); for (int i = 0; i < n; ++i) r += (char)below(256); return r; }

  std::vector<uint64_t> recorded;
private:
  void reset() { recorded.clear(); if (shm()) shm()->nseq = 0; }
  void rec(uint64_t v) {
    if (recorded.size() >= MAXSEQ) throw Discard();
    recorded.push_back(v);
    if (Shm* p = shm()) { p->seq[p->nseq] = v; p->nseq = p->nseq + 1; }
  }
  Mode mode; Rng rng; const std::vector<uint64_t>* in; size_t pos; const uint8_t* bytes; size_t nbytes;
};

struct Ctx {
  bool logging; bool interesting; std::string text; std::vector<const char*> labels;
  Ctx() : logging(false), interesting(false) {}
  void label(const char* l) { labels.push_back(l); }
  void label(bool c, const char* l) { if (c) labels.push_back(l); }
  void nontrivial(bool b = true) { if (b) interesting = true; }
};
// (the reporting is kept out of line: it never runs while a property holds)
#define NOTE(expr) do { if (c.logging) [&]() __attribute__((noinline, cold)) { std::ostringstream o_; o_.precision(17); o_ << expr; c.text += o_.str(); c.text += "\n"; }(); } while (0)
#define FAIL(expr) [&]() __attribute__((noinline, cold)) { std::ostringstream o_; o_.precision(17); o_ << expr; throw ::pbt::Fail{o_.str()}; }()
#define CHECK(cond, expr) do { if (!(cond)) FAIL("expected " #cond "; " << expr); } while (0)
#define ASSUME(cond) do { if (!(cond)) throw ::pbt::Discard(); } while (0)

inline std::string quote(const std::string& s) {
  std::string r = "\""; char b[8];
  for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch == '\n') r += "\\n"; else if (ch < 32 || ch > 126) { snprintf(b, 8, "\\x%02x", ch); r += b; } else r += ch; }
  return r + "\"";
}

typedef void (*BodyFn)(Src&, Ctx&);
// an object built on top of memory with known garbage, so that reading a member nobody set is visible
template <typename T> struct Dirty {
  alignas(T) unsigned char mem[sizeof(T)]; T* p;
  template <typename... A> explicit Dirty(unsigned fill, A&&... a) { memset(mem, (int)fill, sizeof mem); __asm__ volatile("" : : "r"(mem) : "memory"); p = new (mem) T(std::forward<A>(a)...); }
  ~Dirty() { p->~T(); }
  Dirty(const Dirty&) = delete; void operator=(const Dirty&) = delete;
  T& operator*() { return *p; } T* operator->() { return p; }
};
struct Body { const char* name; int weight; const char* rule; BodyFn fn; int timeout_s; };
inline std::vector<Body>& bodies() { static std::vector<Body> b; return b; }
struct Reg { Reg(const char* n, int w, const char* r, BodyFn f, int t) { bodies().push_back(Body{n, w, r, f, t}); } };
#define PBT(name, weight, rule) static void body_##name(::pbt::Src& s, ::pbt::Ctx& c); \
  static ::pbt::Reg reg_##name(#name, weight, rule, body_##name, 30); static void body_##name(::pbt::Src& s, ::pbt::Ctx& c)
#define PBT_T(name, weight, timeout, rule) static void body_##name(::pbt::Src& s, ::pbt::Ctx& c); \
  static ::pbt::Reg reg_##name(#name, weight, rule, body_##name, timeout); static void body_##name(::pbt::Src& s, ::pbt::Ctx& c)

// ---- known findings: fixed reproductions of listed defects ----
typedef bool (*KnownFn)(std::string& what);   // true: still fails
struct Known { const char* id; KnownFn fn; };
inline std::vector<Known>& knowns() { static std::vector<Known> k; return k; }
struct KReg { KReg(const char* i, KnownFn f) { knowns().push_back(Known{i, f}); } };
#define KNOWN(id, cid) static bool known_##cid(std::string& what); static ::pbt::KReg kreg_##cid(id, known_##cid); static bool known_##cid(std::string& what)
// is the finding listed in the committed file?  (PBT_KNOWN holds the listed ids)
inline bool listed(const char* id) {
  static std::set<std::string>* ids = 0;
  if (!ids) { ids = new std::set<std::string>; const char* e = getenv("PBT_KNOWN"); std::istringstream is(e ? e : ""); std::string t; while (std::getline(is, t, ',')) ids->insert(t); }
  return ids->count(id) != 0;
}

// ---- run something in a child: crash, exit() and output are contained and observed ----
struct Sand { bool timed_out = false; int sig = 0; int code = 0; std::string out, err; };
inline std::string slurp_fd(int fd) { std::string r; lseek(fd, 0, SEEK_SET); char b[8192]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) { r.append(b, n); if (r.size() > (1u << 22)) break; } return r; }
inline Sand sandbox(const std::function<int()>& fn, const std::string* input = 0, int seconds = 20) {
  Sand r; int fo = memfd_create("o", 0), fe = memfd_create("e", 0), fi = -1;
  if (input) { fi = memfd_create("i", 0); if (write(fi, input->data(), input->size()) < 0) {} lseek(fi, 0, SEEK_SET); }
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { close(fo); close(fe); if (fi >= 0) close(fi); throw Discard(); }
  if (p == 0) {
    die_with_parent(); shm() = 0;
    dup2(fo, 1); dup2(fe, 2); if (fi >= 0) dup2(fi, 0);
    close(fo); close(fe); if (fi >= 0) close(fi);
    signal(SIGALRM, SIG_DFL); alarm(seconds);
    int c = 99;
    try { c = fn(); } catch (const Fail& f) { fprintf(stderr, "%s", f.msg.c_str()); fflush(0); _exit(98); } catch (const std::exception& e) { fprintf(stderr, "uncaught: %s", e.what()); fflush(0); _exit(97); } catch (...) { fflush(0); _exit(96); }
    fflush(stdout); fflush(stderr);
    _exit(c);
  }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st)) { r.sig = WTERMSIG(st); r.timed_out = r.sig == SIGALRM; } else r.code = WEXITSTATUS(st);
  r.out = slurp_fd(fo); r.err = slurp_fd(fe); close(fo); close(fe); if (fi >= 0) close(fi);
  return r;
}
// memory shared with sandboxed children
template <typename T> T* shared(size_t n = 1) { void* p = mmap(0, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) throw Discard(); memset(p, 0, sizeof(T) * n); return (T*)p; }
template <typename T> void unshare_mem(T* p, size_t n = 1) { munmap((void*)p, sizeof(T) * n); }
inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline uint64_t hash_seq(int body, const std::vector<uint64_t>& v) { uint64_t h = 1469598103934665603ull ^ (uint64_t)body * 0x9e3779b97f4a7c15ull; for (uint64_t x : v) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 1099511628211ull; } return h; }

// run one case; returns 0 pass, 1 fail, 2 discard
inline int run_case(int bi, Src& src, Ctx& c, std::string& msg) {
  try { bodies()[bi].fn(src, c); return 0; }
  catch (const Fail& f) { msg = f.msg; return 1; }
  catch (const Discard&) { return 2; }
  catch (const std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); return 1; }
  catch (...) { msg = "unexpected exception of unknown type"; return 1; }
}

inline void set_fail(const std::string& m) { if (Shm* p = shm()) { strncpy(p->msg, m.c_str(), MSGMAX - 1); p->msg[MSGMAX - 1] = 0; p->failed = 1; } }

inline std::string json_str(const std::string& s) {
  std::string r = "\""; char b[8];
  for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch == '\n') r += "\\n"; else if (ch < 32 || ch > 126) { snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; }
  return r + "\"";
}

// Cases that run in the same process before the one in question: what a failure needs that depends on state which
// the code under test keeps from one use to the next. Given by the seed of its choices, or by the choices.
struct Before { int bi; bool seeded; uint64_t h; std::vector<uint64_t> seq; };
inline std::vector<Before>& history() { static std::vector<Before> h; return h; }
inline void run_history() {
  for (auto& b : history()) { Ctx c; std::string m; if (b.seeded) { Src s(b.h); run_case(b.bi, s, c, m); b.seeded = false; b.seq = s.recorded; } else { std::vector<uint64_t> copy(b.seq); Src s(&copy); run_case(b.bi, s, c, m); } }
}
// One attempt in a forked child. outcome: 0 pass/discard, 1 oracle failure, 2 crash, 3 hang
inline int attempt(int bi, const std::vector<uint64_t>& seq, std::string& msg, std::string* text, std::vector<uint64_t>* norm, int seconds) {
  Shm* p = shm(); p->failed = 0; p->nseq = 0; p->msg[0] = 0; p->case_no = 0;
  int fe = memfd_create("e", 0), ft = memfd_create("t", 0);
  pid_t k = fork();
  if (k < 0) return 0;
  if (k == 0) {
    die_with_parent(); dup2(fe, 2); signal(SIGPIPE, SIG_IGN); signal(SIGALRM, SIG_DFL); alarm(seconds + (history().empty() ? 0 : 30));
    run_history(); p->nseq = 0; p->case_no = 1; alarm(seconds);
    std::vector<uint64_t> copy(seq); Src src(&copy); Ctx c; c.logging = text != 0; std::string m;
    struct Dump { Ctx& c; int fd; } d{c, ft};
    int r = run_case(bi, src, c, m);
    if (r == 1) set_fail(m);
    if (text) { if (write(ft, c.text.data(), c.text.size()) < 0) {} }
    _exit(r == 1 ? 77 : 0);
  }
  int st; while (waitpid(k, &st, 0) < 0 && errno == EINTR) {}
  int out = 0;
  if (!p->case_no) out = 0;  // it ended before the case in question
  else if (WIFSIGNALED(st)) out = WTERMSIG(st) == SIGALRM ? 3 : 2;
  else if (WEXITSTATUS(st) == 77 && p->failed) out = 1;
  else if (WEXITSTATUS(st) != 0) out = 2;
  if (out == 1) msg = p->msg;
  else if (out == 2) { std::string e = slurp_fd(fe); msg = "crash (status " + std::to_string(st) + "): " + e.substr(0, 3000); }
  else if (out == 3) msg = "hang: no result within " + std::to_string(seconds) + " s";
  if (text) *text = slurp_fd(ft);
  if (norm && out) norm->assign(p->seq, p->seq + p->nseq);
  close(fe); close(ft);
  return out;
}

inline bool write_case(const char* path, int bi, const std::vector<uint64_t>& seq, const std::string& msg, const std::string& text) {
  FILE* f = fopen(path, "w"); if (!f) return false;
  for (auto& b : history()) { fprintf(f, "before %s", bodies()[b.bi].name); for (uint64_t v : b.seq) fprintf(f, " %llu", (unsigned long long)v); fprintf(f, "\n"); }
  fprintf(f, "body %s\nseq", bodies()[bi].name);
  for (uint64_t v : seq) fprintf(f, " %llu", (unsigned long long)v);
  fprintf(f, "\n\n# failure\n%s\n\n# case\n%s\n", msg.c_str(), text.c_str());
  fclose(f); return true;
}
inline bool read_case(const char* path, int& bi, std::vector<uint64_t>& seq) {
  FILE* f = fopen(path, "r"); if (!f) return false;
  std::string all; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) all.append(b, n); fclose(f);
  std::istringstream is(all); std::string line; bi = -1; bool got = false; history().clear();
  while (std::getline(is, line)) {
    if (line.compare(0, 5, "body ") == 0) { std::string nm = line.substr(5); for (size_t i = 0; i < bodies().size(); ++i) if (nm == bodies()[i].name) bi = (int)i; }
    else if (line.compare(0, 7, "before ") == 0) { std::istringstream ls(line.substr(7)); std::string nm; uint64_t v; Before b; b.bi = -1; b.seeded = false; b.h = 0; ls >> nm; while (ls >> v) b.seq.push_back(v); for (size_t i = 0; i < bodies().size(); ++i) if (nm == bodies()[i].name) b.bi = (int)i; if (b.bi < 0) return false; history().push_back(b); }
    else if (line.compare(0, 3, "seq") == 0) { std::istringstream ls(line.substr(3)); uint64_t v; seq.clear(); while (ls >> v) seq.push_back(v); got = true; break; }
  }
  return bi >= 0 && got;
}

// fewer cases before it, as long as it still fails
inline void shrink_history(int bi, const std::vector<uint64_t>& seq, double budget) {
  double t0 = now(); std::string m; int tmo = bodies()[bi].timeout_s;
  for (size_t blk = std::max<size_t>(1, history().size() / 2); ; blk /= 2) {
    for (size_t at = 0; at < history().size() && now() - t0 < budget;) {
      std::vector<Before> keep = history(); history().erase(history().begin() + (long)at, history().begin() + (long)std::min(history().size(), at + blk));
      if (!attempt(bi, seq, m, 0, 0, tmo)) { history() = keep; at += blk; }
    }
    if (blk <= 1) break;
  }
}
inline void shrink(int bi, std::vector<uint64_t>& seq, std::string& msg, double budget) {
  double t0 = now(); if (!history().empty()) shrink_history(bi, seq, budget / 3); int kind0; int tmo = 4; std::string m; std::vector<uint64_t> nrm;
  kind0 = attempt(bi, seq, m, 0, &nrm, bodies()[bi].timeout_s);
  if (!kind0) return;
  msg = m; if (kind0 != 3 && nrm.size() <= seq.size() + 64) seq = nrm;
  if (kind0 == 3) { return; }  // hangs are reported unshrunk
  auto tryit = [&](const std::vector<uint64_t>& cand) {
    if (now() - t0 > budget) return false;
    std::string mm; std::vector<uint64_t> nn; int k = attempt(bi, cand, mm, 0, &nn, tmo);
    if (k != kind0) return false;
    if (nn.size() > cand.size()) nn.resize(cand.size());
    if (nn.size() > seq.size() || (nn.size() == seq.size() && !(nn < seq))) { if (!(cand.size() < seq.size())) return false; nn = cand; }
    seq = nn; msg = mm; return true;
  };
  bool progress = true;
  while (progress && now() - t0 < budget) {
    progress = false;
    for (size_t blk = std::max<size_t>(1, seq.size() / 2); blk >= 1; blk /= 2) {
      for (size_t i = seq.size(); i >= blk && i > 0;) {
        if (now() - t0 > budget) return;
        size_t at = i - blk; std::vector<uint64_t> cnd(seq); cnd.erase(cnd.begin() + at, cnd.begin() + at + blk);
        if (tryit(cnd)) { progress = true; i = std::min(seq.size(), at + blk); if (i < blk) break; } else { if (i <= blk) break; i -= std::max<size_t>(1, blk / 2); if (i < blk) i = blk; if (at == 0) break; }
      }
      if (blk == 1) break;
    }
    for (size_t i = 0; i < seq.size(); ++i) {
      if (now() - t0 > budget) return;
      if (!seq[i]) continue;
      std::vector<uint64_t> cnd(seq); cnd[i] = 0; if (tryit(cnd)) { progress = true; continue; }
      if (i >= seq.size()) break;
      uint64_t lo = 0, hi = seq[i];
      for (int g = 0; g < 24 && i < seq.size() && hi - lo > 1; ++g) { uint64_t mid = lo + (hi - lo) / 2; std::vector<uint64_t> cc(seq); cc[i] = mid; if (tryit(cc)) { progress = true; if (i >= seq.size()) break; hi = seq[i]; if (hi <= lo) break; } else lo = mid; }
    }
  }
}

// what the case n of a worker is: its body and the seed of its choices
inline int body_of(uint64_t n, const std::vector<int>& sel, int total) { int slot = int(n % (uint64_t)total), bi = sel[0]; for (int b : sel) { if (slot < bodies()[b].weight) { bi = b; break; } slot -= bodies()[b].weight; } return bi; }
inline uint64_t seed_of(uint64_t n, uint64_t seed, int worker) { uint64_t x = seed * 0x100000001b3ull + (uint64_t)worker * 0x1000193ull + 77; uint64_t h = Rng::mix(x); return h ^ (n * 0xda942042e4dd58b5ull); }
// Does the failure of case n repeat when the cases before it run first? Leaves the shortest such history.
inline bool with_history(uint64_t start, uint64_t n, uint64_t seed, int worker, const std::vector<int>& sel, int bi, const std::vector<uint64_t>& seq, double budget) {
  int total = 0; for (int b : sel) total += bodies()[b].weight;
  double t0 = now(); std::string m;
  for (uint64_t k = 1; ; k *= 4) {
    uint64_t from = n - start > k ? n - k : start; history().clear();
    for (uint64_t i = from; i < n; ++i) { Before b; b.bi = body_of(i, sel, total); b.seeded = true; b.h = seed_of(i, seed, worker); history().push_back(b); }
    if (attempt(bi, seq, m, 0, 0, bodies()[bi].timeout_s)) {
      shrink_history(bi, seq, budget);
      // from here on by their choices
      int fd = memfd_create("h", 0); pid_t p = fork();
      if (p == 0) { die_with_parent(); run_history(); std::string t; for (auto& b : history()) { t += std::to_string(b.bi); for (uint64_t v : b.seq) t += " " + std::to_string(v); t += "\n"; } size_t o = 0; while (o < t.size()) { ssize_t w = write(fd, t.data() + o, t.size() - o); if (w <= 0) break; o += (size_t)w; } _exit(0); }
      int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
      std::string t; char buf[65536]; ssize_t r; lseek(fd, 0, SEEK_SET); while ((r = read(fd, buf, sizeof buf)) > 0) t.append(buf, (size_t)r); close(fd);
      history().clear(); std::istringstream is(t); std::string line;
      while (std::getline(is, line)) { std::istringstream ls(line); Before b; b.seeded = false; b.h = 0; uint64_t v; ls >> b.bi; while (ls >> v) b.seq.push_back(v); history().push_back(b); }
      if (attempt(bi, seq, m, 0, 0, bodies()[bi].timeout_s)) return true;
    }
    if (from == start || now() - t0 > budget) break;
  }
  history().clear(); return false;
}

struct Stats { uint64_t evals = 0, nontriv = 0, discards = 0; std::map<std::string, uint64_t> labels; std::vector<std::string> samples; };

inline int worker_child(uint64_t seed, int worker, const std::vector<int>& sel, double deadline, uint64_t start, const char* outprefix, int part) {
  std::vector<Stats> st(bodies().size()); std::unordered_set<uint64_t> seen; int total = 0;
  for (int b : sel) total += bodies()[b].weight;
  struct rusage ru; uint64_t n = start; bool recycle = false; std::vector<uint64_t> per(bodies().size(), 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = SIG_IGN; sigaction(SIGPIPE, &sa, 0);
  while (now() < deadline) {
    // weighted round robin, deterministic in n
    int bi = body_of(n, sel, total);
    shm()->body = bi; shm()->case_no = n; shm()->beat = shm()->beat + 1;
    Src src(seed_of(n, seed, worker)); Ctx c; Stats& S = st[bi]; uint64_t k = per[bi]++;
    c.logging = S.samples.size() < 2 && (k >= 3 || S.samples.empty()) && k < 2000;
    std::string m; int r = run_case(bi, src, c, m);
    if (r == 1) { set_fail(m); _exit(77); }
    ++n;
    if (r == 2) { S.discards++; continue; }
    S.evals++;
    for (const char* l : c.labels) S.labels[l]++;
    if (c.interesting) { S.nontriv++; if (seen.size() < 250000) seen.insert(hash_seq(bi, src.recorded)); if (c.logging && !c.text.empty()) S.samples.push_back(c.text.substr(0, 1500)); }
    if ((n & 255) == 0) { getrusage(RUSAGE_SELF, &ru); if (ru.ru_maxrss > 1600000) { recycle = true; break; } }
  }
  char path[1024]; snprintf(path, sizeof path, "%s.part%d.json", outprefix, part); FILE* f = fopen(path, "w");
  if (!f) _exit(78);
  fprintf(f, "{\"next\":%llu,\"bodies\":[", (unsigned long long)n); bool first = true;
  for (int b : sel) {
    Stats& S = st[b]; fprintf(f, "%s{\"name\":%s,\"evals\":%llu,\"nontrivial\":%llu,\"discards\":%llu,\"labels\":{", first ? "" : ",", json_str(bodies()[b].name).c_str(), (unsigned long long)S.evals, (unsigned long long)S.nontriv, (unsigned long long)S.discards); first = false;
    bool fl = true; for (auto& kv : S.labels) { fprintf(f, "%s%s:%llu", fl ? "" : ",", json_str(kv.first).c_str(), (unsigned long long)kv.second); fl = false; }
    fprintf(f, "},\"samples\":["); fl = true; for (auto& t : S.samples) { fprintf(f, "%s%s", fl ? "" : ",", json_str(t).c_str()); fl = false; } fprintf(f, "]}");
  }
  fprintf(f, "]}\n"); fclose(f);
  snprintf(path, sizeof path, "%s.part%d.hash", outprefix, part); f = fopen(path, "wb"); if (f) { for (uint64_t hh : seen) fwrite(&hh, 8, 1, f); fclose(f); }
  _exit(recycle ? 10 : 0);
}

inline int main_(int argc, char** argv) {
  std::string mode = argc > 1 ? argv[1] : ""; uint64_t seed = 1; int worker = 0; double budget = 5; std::string out = "/tmp/pbt", only, file; int reps = 1, unrepeated = 0; bool racy = false;
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--worker") worker = atoi(nx().c_str()); else if (a == "--budget") budget = atof(nx().c_str());
    else if (a == "--out") out = nx(); else if (a == "--only") only = nx(); else if (a == "--file") file = nx(); else if (a == "--reps") reps = atoi(nx().c_str()); else if (a == "--racy") racy = true;
  }
  shm() = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<int> sel;
  for (size_t i = 0; i < bodies().size(); ++i) {
    if (only.empty()) { sel.push_back((int)i); continue; }
    std::istringstream is(only); std::string t; while (std::getline(is, t, ',')) if (t == bodies()[i].name) { sel.push_back((int)i); break; }
  }
  if (mode == "list") { for (int b : sel) printf("%s\t%d\t%s\n", bodies()[b].name, bodies()[b].weight, bodies()[b].rule); return 0; }
  if (mode == "known") {  // every registered reproduction, one per line: id, state, what
    for (auto& k : knowns()) { std::string what; Sand r = sandbox([&]() { std::string w; bool f = k.fn(w); printf("%s", w.c_str()); return f ? 1 : 0; }); bool fails = r.code != 0 || r.sig != 0; what = r.out; if (r.code > 1 || r.sig) what += " [status " + std::to_string(r.code) + " signal " + std::to_string(r.sig) + "]"; for (auto& ch : what) if (ch == '\n') ch = ' '; printf("%s\t%d\t%s\n", k.id, fails ? 1 : 0, what.c_str()); }
    return 0;
  }
  if (mode == "replay") {
    int bi; std::vector<uint64_t> seq; if (!read_case(file.c_str(), bi, seq)) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 2; }
    int fails = 0; std::string m, text; for (int i = 0; i < reps; ++i) { std::string mm; if (attempt(bi, seq, mm, &text, 0, bodies()[bi].timeout_s)) { ++fails; m = mm; } }
    printf("%d/%d failed\n%s\n%s\n", fails, reps, m.c_str(), text.c_str()); return fails == reps ? 1 : fails ? 3 : 0;
  }
  if (mode == "shrink") {
    int bi; std::vector<uint64_t> seq; if (!read_case(file.c_str(), bi, seq)) return 2;
    std::string msg, text; shrink(bi, seq, msg, budget); int k = attempt(bi, seq, msg, &text, 0, bodies()[bi].timeout_s);
    if (!k) msg = "(not reproduced after shrinking)"; write_case(out.c_str(), bi, seq, msg, text); printf("%d\n", k); return 0;
  }
  if (mode != "run") { fprintf(stderr, "modes: list run replay shrink known\n"); return 2; }
  if (sel.empty()) { fprintf(stderr, "no such body\n"); return 2; }
  double deadline = now() + budget; uint64_t start = 0; int part = 0; int fe = memfd_create("e", 0);
  for (;;) {
    shm()->failed = 0; uint64_t lastbeat = shm()->beat; double lasttime = now();
    pid_t p = fork();
    if (p < 0) { perror("fork"); return 2; }
    if (p == 0) { setpgid(0, 0); die_with_parent(); dup2(fe, 2); worker_child(seed, worker, sel, deadline, start, out.c_str(), part); }
    setpgid(p, p);
    int st = 0; bool hang = false;
    for (;;) {
      pid_t w = waitpid(p, &st, WNOHANG);
      if (w == p) break;
      usleep(20000);
      if (shm()->beat != lastbeat) { lastbeat = shm()->beat; lasttime = now(); }
      else if (now() - lasttime > bodies()[shm()->body].timeout_s) { hang = true; kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); break; }
    }
    kill(-p, SIGKILL);  // anything a case left behind
    bool bad = hang || WIFSIGNALED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 10);
    if (bad) {
      std::string e = slurp_fd(fe), m = shm()->failed ? std::string(shm()->msg) : hang ? "hang" : "crash: " + e.substr(e.size() > 6000 ? e.size() - 6000 : 0, 3000);
      std::vector<uint64_t> seq(shm()->seq, shm()->seq + shm()->nseq);
      int bi = shm()->body; uint64_t n = shm()->case_no; std::string mm;
      history().clear(); write_case((out + ".fail").c_str(), bi, seq, m, "");
      for (int i = 0; i < (racy ? 20 : 2); ++i) if (attempt(bi, seq, mm, 0, 0, bodies()[bi].timeout_s)) return 3;
      if (!racy && with_history(start, n, seed, worker, sel, bi, seq, 15)) { write_case((out + ".fail").c_str(), bi, seq, m, ""); return 3; }
      // it does not repeat: noted, and the search goes on behind it
      rename((out + ".fail").c_str(), (out + ".unrepeated" + std::to_string(unrepeated)).c_str()); start = n + 1; ++part;
      if (++unrepeated >= 40 || now() >= deadline) return 0;
      if (lseek(fe, 0, SEEK_SET) || ftruncate(fe, 0)) {}
      continue;
    }
    if (WEXITSTATUS(st) == 10 && now() < deadline) { std::string pj = out + ".part" + std::to_string(part) + ".json"; FILE* f = fopen(pj.c_str(), "r"); unsigned long long nx = 0; if (f) { if (fscanf(f, "{\"next\":%llu", &nx) != 1) nx = start + 1; fclose(f); } start = nx; ++part; continue; }
    return 0;
  }
}

#ifdef PBT_LIBFUZZER
// coverage-guided mode: the first byte selects the body, the rest are its choices
extern "C" void __sanitizer_set_death_callback(void (*)(void));
inline std::vector<uint64_t>*& cur() { static std::vector<uint64_t>* p = 0; return p; }
inline int& curb() { static int b = 0; return b; }
inline std::string& curmsg() { static std::string m = "crash under coverage-guided fuzzing"; return m; }
inline void on_death() { const char* f = getenv("PBT_FAILFILE"); if (f && shm()) { std::vector<uint64_t> v(shm()->seq, shm()->seq + shm()->nseq); write_case(f, curb(), v, curmsg(), ""); } }
inline int fuzz_one(const uint8_t* d, size_t n) {
  static bool init = false; static std::vector<int> sel;
  if (!init) { init = true; shm() = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); __sanitizer_set_death_callback(on_death);
    const char* o = getenv("PBT_ONLY"); for (size_t i = 0; i < bodies().size(); ++i) { if (!o || !*o) { sel.push_back((int)i); continue; } std::istringstream is(o); std::string t; while (std::getline(is, t, ',')) if (t == bodies()[i].name) sel.push_back((int)i); } }
  if (n < 2) return 0;
  int bi = sel[d[0] % sel.size()]; curb() = bi; Src src(d + 1, n - 1); Ctx c; std::string m; int r = run_case(bi, src, c, m);
  if (r == 1) { curmsg() = m; on_death(); fprintf(stderr, "PBT failure: %s\n", m.c_str()); abort(); }
  return r == 2 ? -1 : 0;
}
#endif
}  // namespace pbt

#ifdef PBT_LIBFUZZER
#define PBT_MAIN extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) { return ::pbt::fuzz_one(d, n); }
#else
#define PBT_MAIN int main(int argc, char** argv) { return ::pbt::main_(argc, argv); }
#endif
#endif
