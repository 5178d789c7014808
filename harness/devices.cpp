// Files, shared files and the console: generated histories and injected faults; the oracle is the bytes that
// end up on the disk (or the terminal), which have to be everything that was reported as written.
#include "pbt.hpp"
#include <atomic>
#include <climits>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <memory>
#include <sstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
#include <ecl/containers/array.hpp>
#include <ecl/containers/stencil.hpp>
#include <ecl/devices.hpp>
#include <ecl/streams.hpp>

using namespace ecl;
#ifdef NDEBUG
enum { DEBUG_CHECKS = 0 };
#else
enum { DEBUG_CHECKS = 1 };
#endif
static std::string slurp(const std::string& f) { std::ifstream i(f.c_str(), std::ios::binary); std::stringstream o; o << i.rdbuf(); return o.str(); }
static bool exists(const std::string& f) { struct stat st; return stat(f.c_str(), &st) == 0; }
static std::string dir() { const char* d = getenv("PBT_SCRATCH"); return d ? d : "/tmp"; }
static std::string tmp(const char* n) { static int k = 0; return dir() + "/" + n + std::to_string(getpid()) + "_" + std::to_string(k++); }
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
static size_t heap() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
static int open_fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (d && readdir(d)) ++n; if (d) closedir(d); return n; }
// text in which no part looks like another
static std::string run_of(size_t n, unsigned k) { std::string t(n, ' '); unsigned x = 2463534242u + k * 7919u; for (size_t i = 0; i < n; ++i) { x ^= x << 13; x ^= x >> 17; x ^= x << 5; t[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"[(x >> 9) & 63]; } return t; }
static std::string chunk(pbt::Src& s) { switch (s.weighted({5, 3, 1})) { case 0: return s.bytes_str(0, 30); case 1: return run_of(s.below(700), (unsigned)s.below(60)); default: return run_of(4000 + s.below(6000), (unsigned)s.below(60)); } }
// often enough to bring the bytes that may still wait in a buffer to just before, onto or just after a power of two
static std::string chunk_after(pbt::Src& s, size_t waiting) { if (!s.coin(1, 3)) return chunk(s);
  static const char special[] = {0, '\n', (char)255, 0x1a, 'a', 0}; size_t m = (size_t)1 << (s.coin() ? 12 : s.range(6, 13)), n = (m - waiting % m + m + (size_t)s.range(0, 2) - 1) % m; if (n <= 1 || s.coin(1, 8)) return std::string(1, special[s.below(6)]); std::string t = run_of(n, (unsigned)s.below(60)); if (s.coin(1, 3)) t.back() = special[s.below(6)]; return t; }

/* ---------------------------------------------------------------------------------------- files */
enum Style { Plain, Stream };
struct File { std::unique_ptr<OFile> f; std::unique_ptr<OFileStream> st; OFile& d() { return f ? *f : st->device(); } };
// Writes t in one of the ways a file can be written; returns what the call returned.
static long write_some(pbt::Src& s, OFile& f, const std::string& t, pbt::Ctx& c) {
  long r = 0; size_t n = t.size();
  switch (n == 1 ? s.below(7) : n == 4 ? s.below(6) : s.below(5)) {
    case 0: case 1: r = f.write(t.data(), n); break;
    case 2: { std::vector<char> v(t.begin(), t.end()); r = f.write(v); break; }
    case 3: { std::vector<unsigned char> v(t.begin(), t.end()); r = f.write(v); break; }
    case 4: { ecl::Array<unsigned char> a(n); for (size_t i = 0; i < n; ++i) a[i] = (unsigned char)t[i]; if (n > 0 && s.coin()) { ecl::Stencil<ecl::Array<unsigned char>> w = a.stencil(0, n); r = f.write(w); } else r = f.write(a); break; }
    case 5: if (n == 4) { ecl::Array<char, 4> a; for (size_t i = 0; i < n; ++i) a[i] = t[i]; r = f.write(a); break; }  // fall through
    default: r = f.write(t[0]); break;
  }
  (void)c; return r;
}
PBT(file_history, 4, "something was written, and a file was opened again") {
  int names = (int)s.range(1, 3); std::vector<std::string> name; std::vector<std::string> disk; std::vector<bool> there;
  for (int i = 0; i < names; ++i) { name.push_back(tmp("f")); disk.push_back(""); there.push_back(false); if (s.coin(1, 3)) { disk[i] = s.bytes_str(1, 40); there[i] = true; std::ofstream(name[i].c_str(), std::ios::binary) << disk[i]; } }
  File f; int cur = -1; bool wrote = false; int opens = 0; int n = s.len(2, 25); int fds = open_fds();
  auto make = [&] { f.f.reset(); f.st.reset(); };
  auto opened = [&](int k, WriteMode m) { if (m == New) disk[k] = ""; there[k] = true; cur = k; ++opens; NOTE("open file " << k << (m == New ? " new" : " append")); };
  f.f.reset(new OFile());
  for (int i = 0; i < n; ++i) {
    bool open_now = cur >= 0;
    switch (s.below(10)) {
      case 0: { // another object
        make(); cur = -1; open_now = false; int k = (int)s.below(names); WriteMode m = s.coin() ? New : Append;
        switch (s.below(5)) { case 0: f.f.reset(new OFile()); break; case 1: f.st.reset(new OFileStream()); break; case 2: if (s.coin()) f.f.reset(new OFile(name[k])); else { f.f.reset(new OFile(name[k], New)); } opened(k, New); break; case 3: f.f.reset(new OFile(name[k], m)); opened(k, m); break; default: f.st.reset(new OFileStream(name[k], m)); CHECK(!f.st->fail(), "stream failed"); opened(k, m); }
        break; }
      case 1: case 2: { int k = (int)s.below(names); WriteMode m = s.coin() ? New : Append; bool r = m == New && s.coin() ? f.d().open(name[k]) : f.d().open(name[k], m); CHECK(r, "open returned false"); opened(k, m); break; }
      case 3: { bool r = f.d().close(); CHECK(r, "close returned false"); CHECK(f.d().error().flag() == NoError, "error after close"); cur = -1; break; }
      case 4: if (open_now) { CHECK(f.d().flush(), "flush returned false"); std::string got = slurp(name[cur]); CHECK(got == disk[cur], "after a flush the file holds " << pbt::quote(got) << " instead of " << pbt::quote(disk[cur])); } break;
      case 5: if (f.st && open_now) { int v = s.integer<int>(); *f.st << v << "\n"; disk[cur] += std::to_string(v) + "\n"; wrote = true; break; }  // fall through
      default: { std::string t = chunk_after(s, open_now ? disk[cur].size() : 0); bool th = false; long r = 0;
        try { r = write_some(s, f.d(), t, c); } catch (const StandardException& e) { th = true; CHECK(!open_now, "writing " << t.size() << " bytes to an open file threw " << e.what()); CHECK(e.flag() == OpenError, "another kind of error"); }
        if (open_now) { CHECK(r == (long)t.size(), "writing " << t.size() << " bytes returned " << r); CHECK(f.d().error().flag() == NoError, "error after a write"); disk[cur] += t; wrote = wrote || !t.empty(); }
        else { CHECK(th == (DEBUG_CHECKS != 0), "writing to a closed file " << (th ? "threw" : "did not throw")); if (!th) CHECK(r == -1 && f.d().error().flag() == OpenError, "writing to a closed file returned " << r << " with error " << f.d().error().flag()); } }
    }
    CHECK(f.d().open() == (cur >= 0), "open() says " << f.d().open()); if (cur >= 0) CHECK(f.d().filename() == name[cur], "filename() is " << f.d().filename());
    for (int k = 0; k < names; ++k) if (k != cur) { CHECK(exists(name[k]) == there[k], "file " << k << (there[k] ? " is gone" : " appeared")); std::string got = slurp(name[k]); CHECK(got == disk[k], "file " << k << " holds " << pbt::quote(got) << " instead of " << pbt::quote(disk[k])); }
    else { std::string got = slurp(name[k]); CHECK(got.size() <= disk[k].size() && disk[k].compare(0, got.size(), got) == 0, "file " << k << " holds " << pbt::quote(got) << " which is not the beginning of " << pbt::quote(disk[k])); }
  }
  make(); CHECK(open_fds() == fds, open_fds() - fds << " file handles were left open");
  for (int k = 0; k < names; ++k) { std::string got = slurp(name[k]); ::unlink(name[k].c_str()); CHECK(got == disk[k], "file " << k << " holds " << pbt::quote(got) << " instead of " << pbt::quote(disk[k])); }
  c.nontrivial(wrote && opens > 1);
}
static std::string bad_path(pbt::Src& s, int& flag) {
  switch (s.below(5)) {
    case 0: flag = NotFoundError; return tmp("none") + "/file"; case 1: flag = InvalidObjectError; return dir(); case 2: { std::string f = tmp("plain"); std::ofstream(f.c_str()) << "x"; flag = InvalidObjectError; return f + "/below"; }
    case 3: flag = InvalidArgError; return dir() + "/" + std::string(300, 'n'); default: flag = NotFoundError; return "";
  }
}
PBT(file_refused, 2, "always") {
  // what cannot be opened is refused, leaves nothing open, and the object goes on working
  int flag = 0; std::string bad = bad_path(s, flag); WriteMode m = s.coin() ? New : Append; int fds = open_fds(); c.nontrivial(); NOTE("path " << pbt::quote(bad)); std::string good = tmp("good"); { OFile f; int reps = (int)s.range(1, 3); bool before = s.coin(); if (before) { f.open(good); f.write("12", 2); }
    for (int i = 0; i < reps; ++i) { bool th = false; try { switch (s.below(3)) { case 0: f.open(bad, m); break; case 1: { OFile g(bad, m); break; } default: { OFileStream g(bad, m); } } } catch (const StandardException& e) { th = true; CHECK(e.flag() == flag, "opening " << pbt::quote(bad) << " reported " << e.what()); } CHECK(th, "opening " << pbt::quote(bad) << " succeeded"); }
    bool still = f.open(); if (!before) CHECK(!still, "the file is open after a refused open");
    f.open(good, Append); CHECK(f.open(), "a refused open broke the next one"); CHECK(f.write("ab", 2) == 2, "a refused open broke the next write"); f.close(); CHECK(slurp(good) == std::string(before ? "12ab" : "ab"), "the file holds " << pbt::quote(slurp(good))); }
  ::unlink(good.c_str()); CHECK(open_fds() == fds, "handles were left open");
}
PBT_T(file_full, 2, 60, "the space ran out") {
  // no silent loss: without any report of an error, everything written is on the disk
  std::string name = tmp("lim"); long limit = (long)s.below(s.coin() ? 12000 : 200); std::vector<std::string> parts; int n = s.len(1, 12); size_t total = 0; for (int i = 0; i < n; ++i) { parts.push_back(chunk_after(s, total)); total += parts.back().size(); } std::vector<int> fl; for (int i = 0; i < n; ++i) fl.push_back(s.coin(1, 4)); bool full = s.coin(1, 3); bool explicit_close = s.coin(3, 4); bool app = s.coin(); if (full) explicit_close = true; NOTE(n << " writes, " << total << " bytes, limit " << limit << (full ? " (full device)" : "")); c.nontrivial((long)total > limit || full); c.label((long)total > limit || full, "out of space");
  pbt::Src* src = &s; (void)src; std::vector<int> how; for (int i = 0; i < n; ++i) how.push_back((int)s.below(3));
  pbt::Sand r = pbt::sandbox([&] {
    signal(SIGXFSZ, SIG_IGN); struct rlimit rl; rl.rlim_cur = rl.rlim_max = limit; if (!full) setrlimit(RLIMIT_FSIZE, &rl);
    bool reported = false; std::string accepted;
    { OFile f(full ? "/dev/full" : name, app ? Append : New);
      for (int i = 0; i < n && !reported; ++i) {
        try { long w = how[i] == 0 && parts[i].size() == 1 ? f.write(parts[i][0]) : how[i] == 1 ? f.write(std::vector<char>(parts[i].begin(), parts[i].end())) : f.write(parts[i].data(), parts[i].size()); if (w == (long)parts[i].size()) { CHECK(f.error().flag() == NoError, "error state after success"); accepted += parts[i]; } else { CHECK(w == -1 && f.error().flag() != NoError, "a short write returned " << w << " with error " << f.error().flag()); CHECK(!DEBUG_CHECKS, "a failed write did not throw"); reported = true; } if (!reported && fl[i]) { if (!f.flush()) { CHECK(!DEBUG_CHECKS && f.error().flag() != NoError, "a failed flush"); reported = true; } } }
        catch (const StandardException& e) { CHECK(DEBUG_CHECKS, "an exception in a release build: " << e.what()); reported = true; }
      }
      if (explicit_close) { try { if (!f.close()) reported = true; } catch (const StandardException& e) { reported = true; } CHECK(!f.open(), "the file is still open after close()"); bool second = f.close(); CHECK(second, "closing a closed file failed"); }
    }
    if (full) { CHECK(reported || accepted.empty(), accepted.size() << " bytes were lost on a full device without a report"); return 0; }
    rl.rlim_cur = rl.rlim_max; std::string got = slurp(name), all; for (auto& p : parts) all += p;
    CHECK(got.size() <= all.size() && all.compare(0, got.size(), got) == 0, "the file holds bytes that were not written in that order");
    if (!reported && explicit_close) CHECK(got == accepted && accepted == all, "lost " << accepted.size() - got.size() << " of " << accepted.size() << " bytes without a report"); if ((long)total <= limit) CHECK(!reported && got == all, "an error was reported although there was space");
    return 0; }, 0, 20);
  ::unlink(name.c_str()); CHECK(r.code == 0 && r.sig == 0, r.err << " [status " << r.code << " signal " << r.sig << "]");
}

/* ---------------------------------------------------------------------------------------- shared files */
struct Share { std::unique_ptr<SharedFile> f; std::unique_ptr<SharedFileStream> st; int file; std::string pend; SharedFile& d() { return f ? *f : st->device(); } };
PBT(shared_history, 4, "two instances on one file were written") {
  int names = (int)s.range(1, 2), fds = open_fds(); std::vector<std::string> name, disk(names); std::vector<int> users(names, 0); for (int i = 0; i < names; ++i) { name.push_back(tmp("s")); if (s.coin(1, 3)) { disk[i] = s.bytes_str(1, 20); std::ofstream(name[i].c_str(), std::ios::binary) << disk[i]; } }
  std::vector<Share> v; bool two = false; int n = s.len(3, 35);
  auto take = [&](Share& x, int k, WriteMode m) { for (auto& y : v) if (&y != &x && y.file == k && y.pend.size() + 30 > 3900) { y.d().flush(); disk[k] += y.pend; y.pend.clear(); } if (users[k] == 0 && m == New) disk[k].clear(); ++users[k]; x.file = k; };
  auto drop = [&](Share& x) { if (x.file >= 0) { disk[x.file] += x.pend; x.pend.clear(); --users[x.file]; x.file = -1; } };
  for (int i = 0; i < n; ++i) {
    size_t k = v.empty() ? 0 : s.below(v.size());
    switch (v.empty() ? 0 : s.below(9)) {
      case 0: { if (v.size() >= 4) break; Share x; x.file = -1; int q = (int)s.below(names); WriteMode m = s.coin() ? New : Append; NOTE("instance on file " << q << (m == New ? " new" : " append")); switch (s.below(5)) { case 0: x.f.reset(new SharedFile()); break; case 1: x.st.reset(new SharedFileStream()); break; case 2: x.st.reset(new SharedFileStream(name[q], m)); CHECK(!x.st->fail(), "stream failed"); take(x, q, m); break; default: x.f.reset(new SharedFile(name[q], m)); take(x, q, m); } v.push_back(std::move(x)); break; }
      case 1: { Share& x = v[k]; int q = (int)s.below(names); WriteMode m = s.coin() ? New : Append; NOTE("instance " << k << " opens file " << q << (m == New ? " new" : " append")); drop(x); bool r = x.d().open(name[q], m); CHECK(r, "open returned false"); take(x, q, m); break; }
      case 2: NOTE("instance " << k << " destroyed"); drop(v[k]); v.erase(v.begin() + k); break;
      case 3: case 4: { Share& x = v[k]; if (x.file < 0) break; CHECK(x.d().flush(), "flush of " << x.pend.size() << " bytes returned false"); disk[x.file] += x.pend; x.pend.clear(); CHECK(x.d().error().flag() == NoError, "error after a flush"); break; }
      default: { Share& x = v[k]; if (x.file < 0) break; std::string t = users[x.file] > 1 ? s.bytes_str(0, 30) : chunk_after(s, x.pend.size()); long r; if (users[x.file] > 1 && x.pend.size() + t.size() > 3900) { CHECK(x.d().flush(), "flush failed"); disk[x.file] += x.pend; x.pend.clear(); } if (t.size() == 1 && s.coin()) r = x.d().write(t[0]); else r = x.d().write(t.data(), t.size()); CHECK(r == (long)t.size(), "writing " << t.size() << " bytes returned " << r); x.pend += t; two = two || users[x.file] > 1; if (users[x.file] == 1 && s.coin(1, 3)) { x.d().flush(); disk[x.file] += x.pend; x.pend.clear(); } }
    }
    for (auto& x : v) { CHECK(x.d().open() == (x.file >= 0), "open() says " << x.d().open()); if (x.file >= 0) CHECK((int)x.d().count() == users[x.file], "count() is " << x.d().count() << " with " << users[x.file] << " users"); else CHECK(x.d().count() == 0, "count() of a closed instance is " << x.d().count()); }
    for (int q = 0; q < names; ++q) if (users[q] == 0) CHECK(slurp(name[q]) == disk[q], "file " << q << " holds " << pbt::quote(slurp(name[q])) << " instead of " << pbt::quote(disk[q]));
  }
  while (!v.empty()) { drop(v.back()); v.pop_back(); } c.nontrivial(two); CHECK(open_fds() == fds, "handles were left open");
  for (int q = 0; q < names; ++q) { std::string got = slurp(name[q]); ::unlink(name[q].c_str()); CHECK(got == disk[q], "file " << q << " holds " << pbt::quote(got) << " instead of " << pbt::quote(disk[q])); }
}
PBT_T(shared_refused, 1, 60, "always") {
  int flag = 0; std::string bad = bad_path(s, flag); WriteMode m = s.coin() ? New : Append; c.nontrivial(); NOTE("path " << pbt::quote(bad)); std::string good = tmp("sg"); int reps = (int)s.range(1, 3), fds = open_fds();
  { SharedFile f; for (int i = 0; i < reps; ++i) { bool th = false; try { switch (s.below(3)) { case 0: f.open(bad, m); break; case 1: { SharedFile g(bad, m); break; } default: { SharedFileStream g(bad, m); } } } catch (const StandardException& e) { th = true; } CHECK(th, "opening " << pbt::quote(bad) << " succeeded"); CHECK(!f.open(), "open after a refused open"); }
    CHECK(f.open(good, New) && f.open() && f.count() == 1, "a refused open broke the next one"); f.write("ab", 2); SharedFile g(good); CHECK(g.count() == 2, "count " << g.count()); }
  CHECK(slurp(good) == "ab", "the file holds " << pbt::quote(slurp(good))); ::unlink(good.c_str()); CHECK(open_fds() == fds, "handles were left open");
  int way = (int)s.below(3); size_t held = 0; for (int i = 0; i < 4; ++i) { try { if (way == 0) { SharedFile g(bad, m); } else if (way == 1) { SharedFileStream g(bad, m); } else { SharedFile g; g.open(bad, m); } } catch (const StandardException&) {} if (i == 1) held = heap(); }
  CHECK(heap() <= held, heap() - held << " bytes of memory were lost by two refused opens");
}
PBT_T(shared_full, 1, 60, "always") {
  // a full device is noticed: by a flush or a write, at the latest when more than any buffer holds was written
  bool bych = s.coin(); size_t block = 1 + s.below(5000); c.nontrivial(); NOTE("blocks of " << block);
  auto fill = [&](SharedFile& f) { std::string t(block, 'x'); size_t sent = 0; while (sent < 70000) { try { if (bych) { for (size_t i = 0; i < block; ++i) if (f.write('x') < 0) return 1; } else if (f.write(t.data(), t.size()) < 0) return 1; if (!f.flush()) return 1; } catch (const StandardException& e) { return 100 + (int)e.flag(); } sent += block; } return 0; };
  pbt::Sand r = pbt::sandbox([&] { { SharedFile f("/dev/full", Append); int how = fill(f); CHECK(how, "70000 bytes were lost on a full device without a report"); if (!DEBUG_CHECKS) CHECK(f.error().flag() != NoError, "no error state after a failure");
    { SharedFile g; CHECK(g.open("/dev/full", Append) && g.error().flag() == NoError, "a shared file that was just opened reports error " << (int)g.error().flag()); int again = fill(g); CHECK(again == how, "the first failure was answered " << how << ", the second, of another instance, " << again); }
    std::string n = tmp("next"); CHECK(f.open(n, New), "the file could not be opened after a failure"); f.write("hello", 5); CHECK(f.flush(), "flushed to a new file"); f.open(tmp("other"), New); std::ifstream is(n, std::ios::binary); std::string got((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>()); CHECK(got == "hello", "the file opened after a failure holds " << got.size() << " bytes instead of 5"); }
    SharedFile g(tmp("after")); g.write("x", 1); g.flush(); return 0; }, 0, 20);
  CHECK(r.code == 0 && r.sig == 0, r.err << " [status " << r.code << " signal " << r.sig << "]");
}
PBT_T(shared_parallel, 1, 60, "always") {
  // threads open, write, flush and close instances of one file; every line arrives whole and in its thread's order
  const int T = (int)s.range(2, 4), N = (int)s.range(5, 40); std::string name = tmp("sp"); { std::ofstream o(name.c_str()); } bool keep = s.coin(); std::unique_ptr<SharedFile> first(keep ? new SharedFile(name, Append) : 0); int life = (int)s.range(1, 8); bool fl = s.coin(); std::atomic<int> go(0), bad(0); std::vector<std::thread> th; c.nontrivial();
  for (int i = 0; i < T; ++i) th.emplace_back([&, i] { ++go; while (go < T) {} std::unique_ptr<SharedFile> f; for (int k = 0; k < N; ++k) { if (!f || k % life == 0) { f.reset(); f.reset(new SharedFile(name, Append)); } std::string l = "T" + std::to_string(i) + " " + std::to_string(k) + "\n"; if (f->write(l.data(), l.size()) != (long)l.size()) ++bad; if (fl && !f->flush()) ++bad; } });
  for (auto& t : th) t.join(); first.reset(); std::string got = slurp(name); ::unlink(name.c_str()); CHECK(bad == 0, "a write or flush failed"); std::vector<int> next(T, 0); std::istringstream in(got); std::string l; int total = 0;
  while (std::getline(in, l)) { int i = -1, k = -1; char x; CHECK(sscanf(l.c_str(), "T%d %d%c", &i, &k, &x) == 2 && i >= 0 && i < T, "torn line " << pbt::quote(l)); CHECK(k == next[i], "line " << pbt::quote(l) << " of thread " << i << " came instead of " << next[i]); ++next[i]; ++total; }
  CHECK(total == T * N, total << " lines instead of " << T * N);
}

/* ---------------------------------------------------------------------------------------- the console */
PBT_T(console_output, 3, 60, "more than one write") {
  int n = s.len(1, 14); struct Op { int dev, how; std::string t; }; std::vector<Op> ops; std::string wo, we; size_t wait[2] = {0, 0}; int single = 0; static const char special[] = {0, '\n', (char)255, 'a'}; for (int i = 0; i < n; ++i) { Op o; o.dev = (int)s.below(2); o.how = (int)s.below(5); o.t = s.coin(1, 3) ? s.bytes_str(0, 40) : chunk_after(s, wait[o.dev]); if (single > 0) { --single; o.dev = ops.back().dev; o.how = 1; o.t = std::string(1, special[s.below(4)]); } else if (s.coin(1, 6)) { size_t m = 4096, r = wait[o.dev] % m; o.how = 0; o.t = run_of(2 * m - 1 - r - s.below(3), (unsigned)s.below(60)); if (o.t.size() > m) o.t.resize(o.t.size() - m); single = 1 + (int)s.below(4); } if (o.how == 1) o.t = o.t.substr(0, 1); if (o.how == 3) o.t = std::to_string(s.integer<long>()); if (o.how == 4) o.t = ""; (o.dev ? we : wo) += o.t; wait[o.dev] = o.how == 4 ? 0 : wait[o.dev] + o.t.size(); ops.push_back(o); } c.nontrivial(n > 1); NOTE(n << " writes");
  pbt::Sand r = pbt::sandbox([&] { OConsoleStream out; EConsoleStream err; CHECK(out.device().open() && err.device().open(), "the console is not open"); std::string so, se;
    for (auto& o : ops) { long w = (long)o.t.size();
      if (o.how == 0 || o.how == 2) w = o.dev ? err.device().write(o.t.data(), o.t.size()) : out.device().write(o.t.data(), o.t.size()); else if (o.how == 1 && !o.t.empty()) w = o.dev ? err.device().write(o.t[0]) : out.device().write(o.t[0]); else if (o.how == 3) { long v = atol(o.t.c_str()); if (o.dev) err << v; else out << v; } else if (o.how == 4) { if (o.dev) err.flush(); else out.flush(); }
      if (w != (long)o.t.size()) return 3; (o.dev ? se : so) += o.t;
      if (o.how == 4) { int fd = o.dev ? 2 : 1; struct stat st; fstat(fd, &st); if (st.st_size != (off_t)(o.dev ? se : so).size()) return 4; } }
    out.flush(); err.flush(); return 0; }, 0, 20);
  CHECK(r.code == 0 && r.sig == 0, (r.code == 3 ? "a write did not return the number of characters" : r.code == 4 ? "after a flush the terminal did not have everything" : "failed ") << " [status " << r.code << " signal " << r.sig << "]");
  CHECK(r.out == wo, "standard output got " << pbt::quote(r.out) << " instead of " << pbt::quote(wo)); CHECK(r.err == we, "standard error got " << pbt::quote(r.err) << " instead of " << pbt::quote(we));
}
PBT_T(console_full, 1, 30, "always") {
  bool e = s.coin(); size_t n = 1 + s.below(3000); c.nontrivial(); pbt::Sand r = pbt::sandbox([&] { int fd = ::open("/dev/full", O_WRONLY); dup2(fd, e ? 2 : 1); bool th = false; std::string t(n, 'x'); try { if (e) { EConsole d; d.write(t.data(), n); d.flush(); } else { OConsole d; d.write(t.data(), n); d.flush(); } } catch (const StandardException& x) { th = x.flag() == WriteError; } _exit(th == (DEBUG_CHECKS != 0) || e ? 0 : 5); return 0; }, 0, 20); CHECK(r.code == 0 && r.sig == 0, "a full terminal was " << (DEBUG_CHECKS ? "not " : "") << "reported");
}
PBT_T(console_input, 3, 60, "more than one read") {
  struct Op { int how; unsigned long n; }; std::string in = s.coin() ? s.str("abc \n", 0, 60) : s.bytes_str(0, 60); std::vector<Op> ops; int n = s.len(1, 15); bool text = in.find('\0') == std::string::npos; for (int i = 0; i < n; ++i) { Op o; o.how = text ? (int)s.below(2) : 0; o.n = 2 + s.below(20); ops.push_back(o); } c.nontrivial(n > 1 && in.size() > 1); NOTE("input " << pbt::quote(in));
  pbt::Sand r = pbt::sandbox([&] { IConsole d; size_t pos = 0; if (!d.open()) return 3;
    for (auto& o : ops) { std::string want; long got = 0; bool th = false; std::string b(o.n + 1, '~');
      if (o.how == 0) want = in.substr(std::min(pos, in.size()), 1); else { while (want.size() < o.n - 1 && pos + want.size() < in.size()) { want += in[pos + want.size()]; if (want.back() == '\n') break; } }
      try { if (o.how == 0) { char ch = '~'; got = d.read(ch); b[0] = ch; } else got = d.read(&b[0], o.n); } catch (const StandardException& x) { th = true; CHECK(x.flag() == ReadError, "another kind of error"); }
      if (want.empty()) { CHECK(th == (DEBUG_CHECKS != 0), "the end of the input " << (th ? "raised" : "did not raise") << " an exception"); CHECK(th || got == 0, "reading at the end of the input returned " << got); }
      else { CHECK(!th, "reading " << pbt::quote(want) << " threw"); CHECK(got == (long)want.size(), "reading " << pbt::quote(want) << " returned " << got); CHECK(b.substr(0, want.size()) == want, "read " << pbt::quote(b.substr(0, want.size())) << " instead of " << pbt::quote(want)); }
      pos += want.size(); }
    return 0; }, &in, 20);
  CHECK(r.code == 0 && r.sig == 0, r.err << " [status " << r.code << " signal " << r.sig << "]");
}
PBT_T(console_values, 1, 60, "more than one value") {
  std::vector<long> v; std::string in; int n = s.len(1, 8); for (int i = 0; i < n; ++i) { v.push_back(s.integer<long>()); in += std::to_string(v.back()) + (s.coin() ? " " : "\n"); } c.nontrivial(n > 1); NOTE("input " << pbt::quote(in));
  pbt::Sand r = pbt::sandbox([&] { IConsoleStream st; for (long w : v) { long x = 0; st >> x; CHECK(!st.fail() && x == w, "read " << x << " instead of " << w); } return 0; }, &in, 20); CHECK(r.code == 0 && r.sig == 0, r.err);
}
PBT_MAIN
