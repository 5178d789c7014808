// Text streams, the string device, character buffers and log streams: generated texts, values, faults and
// histories against independent readers, std::string models and the bytes that end up in the log files.
#include "pbt.hpp"
#include <atomic>
#include <climits>
#include <cmath>
#include <fstream>
#include <memory>
#include <sstream>
#include <thread>
#include <unistd.h>
#include <ecl/streams.hpp>
#include <ecl/devices/detail/character_buffer.hpp>

using namespace ecl;
#ifdef NDEBUG
enum { DEBUG_CHECKS = 0 };
#else
enum { DEBUG_CHECKS = 1 };
#endif

static std::atomic<long> clock_sec(0), clock_nsec(0);
int ecl_compat_epoch(struct timespec* t) { t->tv_sec = clock_sec; t->tv_nsec = clock_nsec; return 0; }
int ecl_compat_realtime(struct timespec* t) { return ecl_compat_epoch(t); }
int ecl_compat_cpu(struct timespec* t) { return ecl_compat_epoch(t); }
int ecl_compat_sleep_until(const struct timespec*) { return 0; }

// A device whose every call is observed and whose reads can be made to fail.
struct Fake {
  std::string in, out; size_t pos; long calls, fault; int flushes; bool is_open; long short_at;
  Fake() : pos(0), calls(0), fault(-1), flushes(0), is_open(true), short_at(-1) {}
  bool open() { return is_open; }
  bool isOpen() { return is_open; }
  long read(char& c) { if (calls++ == fault) return -1; if (pos >= in.size()) return 0; c = in[pos++]; return 1; }
  long read(char* s, unsigned long n) { unsigned long k = 0; for (; k < n; ++k) { long r = read(s[k]); if (r < 0) return r; if (r == 0) break; } return (long)k; }
  long write(char c) { out.push_back(c); return 1; }
  long write(const char* s, unsigned long n) { out.append(s, n); return (long)n; }
  void flush() { ++flushes; }
};
namespace ecl { template <> class is_source<Fake> : public True {}; template <> class is_sink<Fake> : public True {}; template <> class is_sourcesink<Fake> : public True {}; }

/* ---------------------------------------------------------------------------------------- reading */
typedef __int128 Big;
static std::string big_text(Big v) { bool n = v < 0; std::string r; do { int d = (int)(v % 10); r.insert(r.begin(), (char)('0' + (d < 0 ? -d : d))); v /= 10; } while (v); return n ? "-" + r : r; }
template <typename T> const char* tname();
#define TN(T) template <> const char* tname<T>() { return #T; }
TN(short) TN(int) TN(long) TN(long long) TN(unsigned char) TN(unsigned short) TN(unsigned int) TN(unsigned long) TN(unsigned long long)

enum Kind { KShort, KInt, KLong, KLLong, KUChar, KUShort, KUInt, KULong, KULLong, KFloat, KDouble, KBool, KString, KChar, KRaw, KINDS };
struct Tok { int kind = 0; std::string lead, text, tail; bool ok = true; int err = 0; Big val = 0; double real = 0; bool b = false; std::string str; char ch = 0; };
static bool integral(int k) { return k <= KULLong; }
template <typename T> void gen_int(pbt::Src& s, Tok& t, bool& fatal) {
  Big lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(), v;
  switch (s.below(4)) { case 0: v = s.integer<T>(); break; case 1: v = (s.coin() ? lo : hi) + s.centred(-12, 12); break; case 2: { v = s.integer<T>(); v = v * 10 + (int)s.below(10); break; } default: v = s.integer<T>(); }
  if (!std::numeric_limits<T>::is_signed && v < 0) v = -v;
  bool hex = v >= 0 && s.coin(1, 4);
  if (hex) {
    char b[40]; std::string h; Big x = v; do { int d = (int)(x & 15); h.insert(h.begin(), "0123456789abcdef"[d]); x >>= 4; } while (x);
    for (auto& ch : h) if (s.coin()) ch = (char)toupper(ch); (void)b;
    if (s.coin(1, 4)) h.insert(0, std::string(s.below(s.coin(1, 4) ? 60 : 4), '0'));
    t.text = (s.coin(1, 3) ? "x" : "0x") + h;
  } else {
    std::string d = big_text(v < 0 ? -v : v);
    if (s.coin(1, 4)) d.insert(0, std::string(s.below(s.coin(1, 4) ? 60 : 25 - d.size()), '0'));
    t.text = (v < 0 ? "-" : s.coin(1, 5) ? "+" : "") + d;
    if (v == 0 && std::numeric_limits<T>::is_signed && s.coin(1, 5)) t.text = "-0";
  }
  if (s.coin(1, 16)) { bool neg = std::numeric_limits<T>::is_signed && s.coin(); hex = !neg && s.coin(); t.text = (neg ? "-" : hex ? "0x" : "") + std::string(1, (char)('1' + s.below(9))) + s.str(hex ? "0123456789abcdefABCDEF" : "0123456789", 20, 60); v = neg ? lo - 1 : hi + 1; }  // far beyond any range
  t.ok = v >= lo && v <= hi; t.err = t.ok ? NoError : OutOfRangeError; t.val = v;
  if (s.coin(1, 30)) {  // not a number at all
    static const std::vector<std::string> bad = {"abc", "--1", "+-1", "%", "z9", "+", "-", ".5", "+ 1"}; t.text = s.pick(bad); t.ok = false; t.err = -1; fatal = true;
    if (!std::numeric_limits<T>::is_signed && s.coin()) t.text = "-7";
  }
}
static void gen_tok(pbt::Src& s, Tok& t, bool& fatal, bool last) {
  t.kind = (int)s.below(KINDS); t.ok = true; t.err = NoError; t.val = 0; t.real = 0; t.b = false; t.ch = 0;
  bool word = t.kind == KBool || t.kind == KString;
  t.lead = t.kind == KRaw ? "" : s.str(" \n", 0, 2);
  if (!s.coin(1, 3)) t.lead = "";
  switch (t.kind) {
    case KShort: gen_int<short>(s, t, fatal); break; case KInt: gen_int<int>(s, t, fatal); break; case KLong: gen_int<long>(s, t, fatal); break; case KLLong: gen_int<long long>(s, t, fatal); break;
    case KUChar: gen_int<unsigned char>(s, t, fatal); break; case KUShort: gen_int<unsigned short>(s, t, fatal); break; case KUInt: gen_int<unsigned int>(s, t, fatal); break; case KULong: gen_int<unsigned long>(s, t, fatal); break; case KULLong: gen_int<unsigned long long>(s, t, fatal); break;
    case KFloat: case KDouble: {
      int w = s.weighted({3, 3, 1}); size_t most = s.coin(1, 6) ? 45 : 18; std::string a = w == 2 ? "" : s.str("0123456789", 1, t.kind == KFloat ? 18 : most), b = w == 0 ? "" : s.str("0123456789", 1, most); if (t.kind == KFloat && s.coin(1, 6)) a = s.str("0123456789", 1, 37);
      t.text = (s.coin(1, 3) ? "-" : s.coin(1, 5) ? "+" : "") + a + (w == 0 ? "" : "." + b); t.real = strtod(t.text.c_str(), 0);
      if (s.coin(1, 30)) { static const std::vector<std::string> bad = {"abc", "--1", "+-1", "-", "%", "e5", "inf"}; t.text = s.pick(bad); t.ok = false; t.err = -1; fatal = true; }
      break; }
    case KBool: { static const std::vector<std::string> yes = {"true", "TRUE", "True"}, no = {"false", "FALSE", "False"}, bad = {"tRue", "1", "truee", "fals", "yes", "TRue"};
      t.b = s.coin(); t.text = t.b ? s.pick(yes) : s.pick(no); if (s.coin(1, 10)) { t.text = s.pick(bad); t.ok = false; t.err = ConversionError; } break; }
    case KString: do { t.text = s.coin(1, 10) ? s.bytes_str(1, s.coin(1, 3) ? 1100 : 60) : s.str("abcXYZ019.,-\t\"", 1, s.coin(1, 8) ? 600 : 12); for (auto& ch : t.text) if (ch == ' ' || ch == '\n') ch = '_'; } while (t.text.empty()); t.str = t.text; break;
    case KChar: t.ch = s.coin(1, 5) ? (char)s.below(256) : (char)s.range(33, 126); if (t.ch == ' ' || t.ch == '\n') t.ch = 'q'; t.text = std::string(1, t.ch); break;
    case KRaw: t.ch = s.coin(1, 3) ? s.of({' ', '\n', '\0'}) : (char)s.range(33, 126); t.text = std::string(1, t.ch); break;
  }
  if (t.kind == KChar || t.kind == KRaw) t.tail = "";
  else if (last && s.coin()) t.tail = "";
  else if (word) t.tail = s.coin() ? " " : "\n";
  else t.tail = std::string(1, s.of({' ', '\n', ',', ';', '/', ':'}));
}
struct Got { Big val; double real; bool b; std::string str; char ch; };
template <typename T, typename S> Big get_int(S& st) { T v = 77; st >> v; return (Big)v; }
template <typename S> void get(S& st, int kind, Got& g) {
  g.val = 0; g.real = 0; g.b = false; g.ch = 0;
  switch (kind) {
    case KShort: g.val = get_int<short>(st); break; case KInt: g.val = get_int<int>(st); break; case KLong: g.val = get_int<long>(st); break; case KLLong: g.val = get_int<long long>(st); break;
    case KUChar: g.val = get_int<unsigned char>(st); break; case KUShort: g.val = get_int<unsigned short>(st); break; case KUInt: g.val = get_int<unsigned int>(st); break; case KULong: g.val = get_int<unsigned long>(st); break; case KULLong: g.val = get_int<unsigned long long>(st); break;
    case KFloat: { float f = -1; st >> f; g.real = f; break; } case KDouble: { double d = -1; st >> d; g.real = d; break; }
    case KBool: st >> g.b; break; case KString: st >> g.str; break; case KChar: st.disableRawCharReads(); st >> g.ch; break; case KRaw: st.enableRawCharReads(); st >> g.ch; st.disableRawCharReads(); break;
  }
}
static const char* kname(int k) { static const char* n[] = {"short", "int", "long", "long long", "unsigned char", "unsigned short", "unsigned int", "unsigned long", "unsigned long long", "float", "double", "bool", "string", "char", "raw char"}; return n[k]; }
// "" if the value is the expected one
static std::string differs(const Tok& t, const Got& g) {
  if (integral(t.kind)) return g.val == t.val ? "" : big_text(g.val);
  if (t.kind == KFloat || t.kind == KDouble) { double eps = t.kind == KFloat ? 1.2e-7 : 2.3e-16, tol = (20 + 2.0 * t.text.size()) * eps * std::fabs(t.real) + (t.kind == KFloat ? 1e-42 : 0); return std::fabs(g.real - t.real) <= tol ? "" : pbt::quote(std::to_string(g.real)); }
  if (t.kind == KBool) return g.b == t.b ? "" : (g.b ? "true" : "false");
  if (t.kind == KString) return g.str == t.str ? "" : pbt::quote(g.str);
  return g.ch == t.ch ? "" : pbt::quote(std::string(1, g.ch));
}
template <typename S> void read_all(S& st, const std::vector<Tok>& toks, pbt::Ctx& c) {
  for (size_t i = 0; i < toks.size(); ++i) {
    const Tok& t = toks[i]; Got g; get(st, t.kind, g); int flag = st.errorStatus().flag();
    CHECK(st.fail() == (flag != NoError), "fail() and errorStatus() disagree");
    if (t.ok) { CHECK(flag == NoError, "reading " << kname(t.kind) << " from " << pbt::quote(t.lead + t.text + t.tail) << " failed with error " << flag); std::string d = differs(t, g); CHECK(d.empty(), "reading " << kname(t.kind) << " from " << pbt::quote(t.lead + t.text + t.tail) << " gave " << d); }
    else { CHECK(flag != NoError, "reading " << kname(t.kind) << " from " << pbt::quote(t.text) << " was accepted"); if (t.err >= 0) CHECK(flag == t.err, "reading " << kname(t.kind) << " from " << pbt::quote(t.text) << " failed with error " << flag << " instead of " << t.err); }
  }
}
static void gen_text(pbt::Src& s, std::vector<Tok>& toks, std::string& text, bool& fatal) {
  int n = s.len(1, 8); fatal = false;
  for (int i = 0; i < n && !fatal; ++i) { Tok t; gen_tok(s, t, fatal, i == n - 1); toks.push_back(t); text += t.lead + t.text + t.tail; }
}
PBT(read_values, 6, "at least two values, or one that has to be refused") {
  std::vector<Tok> toks; std::string text; bool fatal; gen_text(s, toks, text, fatal); NOTE("input " << pbt::quote(text));
  bool bad = false; for (auto& t : toks) bad = bad || !t.ok; c.nontrivial(toks.size() > 1 || bad); c.label(bad, "value to refuse");
  if (s.coin()) { TextStream<Fake> st; st.device().in = text; read_all(st, toks, c); if (!fatal) { CHECK(st.device().pos == text.size(), "left " << pbt::quote(text.substr(st.device().pos)) << " unread or read past it"); Got g; g.str = "x"; int k = (int)s.below(KINDS); get(st, k, g); CHECK(st.fail(), "reading " << kname(k) << " past the end succeeded"); } }
  else { StringStream st; st << text; read_all(st, toks, c); if (!fatal) CHECK(st.device().remaining() == 0, "left " << st.device().remaining() << " characters unread"); }
}
PBT(read_faults, 3, "a read fails before the input is used up") {
  std::vector<Tok> toks; std::string text; bool fatal; gen_text(s, toks, text, fatal); if (fatal) toks.pop_back();
  TextStream<Fake> st; st.device().in = text; long fault = (long)s.below(text.size() + 1); st.device().fault = fault; NOTE("input " << pbt::quote(text) << " with read " << fault << " failing"); c.nontrivial(!toks.empty());
  long at = 0;
  for (auto& t : toks) {
    // the calls this value needs: leading space, text, and the one that finds the end of the text
    bool chr = t.kind == KChar || t.kind == KRaw; long need = (long)(t.lead.size() + t.text.size()) + (chr ? 0 : 1); Got g; get(st, t.kind, g);
    if (fault >= at && fault < at + need) { CHECK(st.fail(), "the device failed while reading " << kname(t.kind) << " from " << pbt::quote(t.lead + t.text + t.tail) << " and nothing was reported"); CHECK(st.errorStatus().flag() == ReadError, "a device failure was reported as error " << st.errorStatus().flag()); return; }
    if (t.ok) { CHECK(!st.fail(), "reading " << kname(t.kind) << " from " << pbt::quote(t.text + t.tail) << " failed before the device did"); CHECK(differs(t, g).empty(), "reading " << pbt::quote(t.text) << " gave " << differs(t, g)); }
    at += need;
  }
}
PBT(read_closed, 1, "always") {
  TextStream<Fake> st; st.device().in = "1 "; st.device().is_open = false; c.nontrivial(); int k = (int)s.below(KINDS + 4); bool th = false; Got g;
  try { if (k < KINDS) get(st, k, g); else if (k == KINDS) st << "a"; else if (k == KINDS + 1) st << std::string("b"); else if (k == KINDS + 2) st.flush(); else st << 5; } catch (const StandardException& e) { th = true; CHECK(e.flag() == OpenError, "another kind of error"); }
  CHECK(th == (DEBUG_CHECKS != 0), "operation " << k << " on a closed device " << (th ? "threw" : "did not throw"));
}

/* ---------------------------------------------------------------------------------------- writing */
static std::string fixed6(double v) { char b[400]; snprintf(b, sizeof b, "%f", v); return b; }
template <typename S> void write_one(pbt::Src& s, S& st, std::string& want, int& flushes) {
  switch (s.below(18)) {
    case 0: { char ch = (char)s.below(256); st << ch; want += ch; break; }
    case 1: { std::string t = s.str("abc \n%d", 0, 300); st << t.c_str(); want += t; break; }
    case 2: { std::string t = s.bytes_str(0, 300); st << t; want += t; break; }
    case 3: { short v = s.integer<short>(); st << v; want += std::to_string(v); break; }
    case 4: { int v = s.integer<int>(); st << v; want += std::to_string(v); break; }
    case 5: { long v = s.integer<long>(); st << v; want += std::to_string(v); break; }
    case 6: { long long v = s.integer<long long>(); st << v; want += std::to_string(v); break; }
    case 7: { unsigned short v = s.integer<unsigned short>(); st << v; want += std::to_string(v); break; }
    case 8: { unsigned v = s.integer<unsigned>(); st << v; want += std::to_string(v); break; }
    case 9: { unsigned long v = s.integer<unsigned long>(); st << v; want += std::to_string(v); break; }
    case 10: { unsigned long long v = s.integer<unsigned long long>(); st << v; want += std::to_string(v); break; }
    case 11: { bool v = s.coin(); st << v; want += v ? "true" : "false"; break; }
    case 12: { float v = (float)(s.coin() ? s.real(1000) : std::ldexp(s.real(1), (int)s.centred(-100, 120))); st << v; want += fixed6(v); break; }
    case 13: { double v = s.coin() ? s.real(1000) : std::ldexp(s.real(1), (int)s.centred(-100, 1000)); st << v; want += fixed6(v); break; }
    case 14: st << ecl::endl; want += "\n"; ++flushes; break;
    case 15: if (s.coin(1, 4)) { st << ecl::clrscr; want += std::string(80, '\n'); } break;
    case 16: st.flush(); ++flushes; break;
    default: { int v = (int)s.below(10); st << "v" << v << ',' << true; want += "v" + std::to_string(v) + ",true"; break; }
  }
}
PBT(write_values, 4, "at least two writes") {
  int n = s.len(1, 12), fl = 0; std::string want; c.nontrivial(n > 1); bool fake = s.coin(); TextStream<Fake> f; StringStream st;
  for (int i = 0; i < n; ++i) {
    if (fake) { write_one(s, f, want, fl); CHECK(f.device().out == want, "the device got " << pbt::quote(f.device().out) << " instead of " << pbt::quote(want)); CHECK(f.device().flushes == fl, f.device().flushes << " flushes instead of " << fl); }
    else { write_one(s, st, want, fl); CHECK(st.str() == want && !memcmp(st.c_str(), want.c_str(), want.size() + 1), "the stream holds " << pbt::quote(st.str()) << " instead of " << pbt::quote(want)); if (s.coin(1, 20)) { st.clear(); want.clear(); } }
  }
}
PBT(write_then_read, 2, "at least two values") {
  // what a stream writes, a stream reads back
  StringStream st; int n = s.len(1, 8); c.nontrivial(n > 1); std::vector<Tok> toks;
  for (int i = 0; i < n; ++i) {
    Tok t; t.ok = true; t.err = NoError; t.ch = 0;
    switch (s.below(9)) {
      case 8: { t.kind = KDouble; double v = std::ldexp(s.real(1), (int)s.centred(-40, 900)); t.text = fixed6(v); t.real = strtod(t.text.c_str(), 0); st << v; break; }
      case 0: { t.kind = KInt; int v = s.integer<int>(); t.val = v; st << v; break; } case 1: { t.kind = KShort; short v = s.integer<short>(); t.val = v; st << v; break; }
      case 2: { t.kind = KLong; long v = s.integer<long>(); t.val = v; st << v; break; } case 3: { t.kind = KULLong; unsigned long long v = s.integer<unsigned long long>(); t.val = v; st << v; break; }
      case 4: { t.kind = KBool; t.b = s.coin(); st << t.b; break; } case 5: { t.kind = KString; t.str = s.str("abz09", 1, 8); st << t.str; break; }
      case 6: { t.kind = KDouble; double v = s.real(1e6); t.real = strtod(fixed6(v).c_str(), 0); st << v; break; } default: { t.kind = KFloat; float v = (float)s.real(1e6); t.real = strtod(fixed6(v).c_str(), 0); st << v; break; }
    }
    st << (s.coin() ? " " : "\n"); toks.push_back(t);
    if (s.coin(1, 3)) { read_all(st, toks, c); toks.clear(); }
  }
  NOTE("stream " << pbt::quote(st.str())); read_all(st, toks, c);
}
PBT_T(read_parallel, 1, 60, "always") {
  // streams of different threads have nothing to do with each other
  const int T = 3; std::vector<std::string> text(T); std::vector<std::vector<long>> vals(T); c.nontrivial();
  for (int i = 0; i < T; ++i) for (int k = 0; k < 200; ++k) { long v = (long)s.integer<int>() * 1000; vals[i].push_back(v); text[i] += (k % 3 == 0 && v >= 0 ? [&] { char b[40]; snprintf(b, sizeof b, "0x%lx", v); return std::string(b); }() : std::to_string(v)) + (k % 2 ? " " : "\n"); }
  std::atomic<int> wrong(0), go(0); std::vector<std::thread> th;
  for (int i = 0; i < T; ++i) th.emplace_back([&, i] { TextStream<Fake> st; st.device().in = text[i]; ++go; while (go < T) {} for (size_t k = 0; k < vals[i].size(); ++k) { if (k % 5 == 4 && vals[i][k] < 0) { double d = 0; st >> d; if (st.fail() || std::fabs(d - (double)vals[i][k]) > 1) ++wrong; continue; } long v = 0; st >> v; if (st.fail() || v != vals[i][k]) ++wrong; } });
  for (auto& t : th) t.join(); CHECK(wrong == 0, wrong << " values were read wrongly while other threads read other streams");
}

/* ---------------------------------------------------------------------------------------- the string device */
struct Model { std::string all; size_t pos; };
static void same(ecl::String& d, const Model& m, pbt::Ctx& c, const char* op) {
  CHECK(d.size() == m.all.size(), op << ": size " << d.size() << " instead of " << m.all.size()); CHECK(d.remaining() == m.all.size() - m.pos, op << ": " << d.remaining() << " remaining instead of " << m.all.size() - m.pos);
  CHECK(d.str() == m.all, op << ": contents " << pbt::quote(d.str()) << " instead of " << pbt::quote(m.all)); CHECK(!memcmp(d.c_str(), m.all.c_str(), m.all.size() + 1), op << ": c_str() " << pbt::quote(d.c_str())); CHECK(d.open() && d.isOpen(), "the string device is not open");
}
PBT(string_device, 4, "more is written than was there at first, and some of it is read") {
  std::string init = s.coin() ? s.str("abc def", 0, 40) : ""; bool wrote = false, got = false; std::vector<std::unique_ptr<ecl::String>> d; std::vector<Model> m;
  if (init.empty() && s.coin()) d.emplace_back(new ecl::String()); else d.emplace_back(new ecl::String(init.c_str())); m.push_back(Model{init, 0}); same(*d[0], m[0], c, "created");
  int n = s.len(1, 30);
  for (int i = 0; i < n; ++i) {
    size_t k = s.below(d.size()); ecl::String& x = *d[k]; Model& y = m[k]; const char* op = "";
    switch (s.below(9)) {
      case 0: case 1: { op = "write(char)"; int reps = s.coin(1, 3) ? (int)s.below(600) : 1; for (int r = 0; r < reps; ++r) { char ch = (char)s.below(256); CHECK(x.write(ch) == 1, "write(char) failed"); y.all += ch; } wrote = wrote || reps; break; }
      case 2: case 3: { op = "write(text)"; std::string t = s.coin(1, 3) ? std::string(s.below(700), 'x') : s.bytes_str(0, 30); long r = x.write(t.data(), t.size()); CHECK(r == (long)t.size(), "write of " << t.size() << " returned " << r); y.all += t; wrote = wrote || !t.empty(); break; }
      case 4: { op = "read(char)"; char ch = 'Q'; long r = x.read(ch); if (y.pos < y.all.size()) { CHECK(r == 1 && ch == y.all[y.pos], "read(char) gave " << r << " and " << (int)ch); ++y.pos; got = true; } else CHECK(r == 0, "read(char) with nothing left returned " << r); break; }
      case 5: { op = "read(text)"; size_t want = s.coin(1, 4) ? s.below(1200) : s.below(20), have = std::min(want, y.all.size() - y.pos); std::string b(want + 1, '~'); long r = x.read(&b[0], want); CHECK(r == (long)have, "read of " << want << " with " << y.all.size() - y.pos << " left returned " << r); CHECK(b.substr(0, have) == y.all.substr(y.pos, have), "read gave " << pbt::quote(b.substr(0, have))); CHECK(b.substr(have) == std::string(want + 1 - have, '~'), "read wrote past what it reports"); y.pos += have; got = got || have; break; }
      case 6: { op = "clear"; if (s.coin(1, 3)) { x.clear(); y.all.clear(); y.pos = 0; } else x.flush(); break; }
      case 7: { op = "copy"; if (d.size() < 4) { Model cp = y; d.emplace_back(new ecl::String(x)); m.push_back(cp); } break; }
      default: { op = "assign"; size_t j = s.below(d.size()); *d[j] = x; if (j != k) m[j] = m[k]; break; }
    }
    for (size_t j = 0; j < d.size(); ++j) same(*d[j], m[j], c, op);
    if (d.size() > 1 && s.coin(1, 8)) { size_t j = s.below(d.size()); d.erase(d.begin() + j); m.erase(m.begin() + j); }
  }
  c.nontrivial(wrote && got);
}
template <typename B> void buffer_ops(pbt::Src& s, pbt::Ctx& c, std::function<std::string(B&)> text) {
  std::unique_ptr<B> b(new B); std::string m; const size_t cap = B::buffer_size; int n = s.len(1, 20); bool filled = false;
  for (int i = 0; i < n; ++i) {
    switch (s.below(4)) {
      case 0: { char ch = (char)s.below(256); long r = b->append(ch); CHECK(r == (m.size() < cap ? 1 : 0), "append(char) returned " << r << " with " << m.size() << " stored"); if (m.size() < cap) m += ch; break; }
      case 1: case 2: { std::string t = s.coin() ? s.bytes_str(0, 40) : std::string(s.coin() ? cap - m.size() + s.below(5) - (m.size() < cap && s.coin() ? 1 : 0) : s.below(5000), (char)('a' + i % 26)); size_t k = std::min(t.size(), cap - m.size()); long r = b->append(t.data(), t.size()); CHECK(r == (long)k, "append of " << t.size() << " with " << m.size() << " stored returned " << r); m.append(t, 0, k); break; }
      default: if (s.coin()) { b->clear(); m.clear(); }
    }
    filled = filled || m.size() == cap; CHECK(b->remaining() == cap - m.size() && b->full() == (m.size() == cap), "remaining " << b->remaining() << " with " << m.size() << " stored"); CHECK(text(*b) == m, "the buffer does not hold what was appended");
  }
  c.nontrivial(n > 1); c.label(filled, "full");
}
PBT(string_buffers, 2, "at least two operations") {
  if (s.coin()) buffer_ops<devices::CharBuffer>(s, c, [](devices::CharBuffer& b) { return std::string(b.c_ptr(), b.size()); });
  else buffer_ops<devices::CharStringBuffer>(s, c, [](devices::CharStringBuffer& b) { size_t n = b.buffer_size - b.remaining(); const char* p = b.c_str(); return p[n] == 0 ? std::string(p, n) : std::string("not terminated"); });
}

/* ---------------------------------------------------------------------------------------- log streams */
static std::string slurp(const std::string& f) { std::ifstream i(f.c_str(), std::ios::binary); std::stringstream o; o << i.rdbuf(); return o.str(); }
static std::string tmp(const char* n) { const char* d = getenv("PBT_SCRATCH"); static int k = 0; return std::string(d ? d : "/tmp") + "/" + n + std::to_string(getpid()) + "_" + std::to_string(k++); }
static std::string stamp_text() { char b[60]; snprintf(b, sizeof b, "%ld.%09ld", clock_sec.load(), clock_nsec.load()); return b; }
struct Logger { std::unique_ptr<LogStream> st; int file; std::map<int, std::string> modes; bool header, stamp; std::string pend; };
PBT(log_messages, 3, "at least one message of an enabled mode and one of a disabled one") {
  int files = (int)s.range(1, 2); std::vector<std::string> name, want(files); for (int i = 0; i < files; ++i) name.push_back(tmp("log"));
  std::vector<bool> used(files, false); std::vector<Logger> logs; bool on = false, off = false; int n = s.len(2, 40); std::vector<int> count(files, 0);
  auto flush = [&](Logger& l) { if (s.coin()) { FLUSH((*l.st)) if (!l.modes.empty()) { want[l.file] += l.pend; l.pend.clear(); } } else { l.st->flush(); want[l.file] += l.pend; l.pend.clear(); } };
  for (int i = 0; i < n; ++i) {
    if (logs.empty() || (logs.size() < 4 && s.coin(1, 8))) {
      Logger l; l.file = (int)s.below(files); l.header = l.stamp = true;
      // New truncates when nobody has the file open
      bool fresh = count[l.file] == 0; bool app = used[l.file] ? s.coin(3, 4) : s.coin(); if (fresh && !app) want[l.file].clear();
      if (s.coin(2, 3)) l.st.reset(new LogStream(name[l.file], app ? Append : New)); else { l.st.reset(new LogStream()); l.st->device().open(name[l.file], app ? Append : New); }
      NOTE("stream " << logs.size() << " on file " << l.file << (app ? " appending" : " new")); used[l.file] = true; ++count[l.file]; CHECK(!l.st->fail(), "the log file could not be opened"); CHECK(l.st->device().open(), "the log file is not open"); CHECK((int)l.st->device().count() == count[l.file], l.st->device().count() << " users of the file instead of " << count[l.file]); logs.push_back(std::move(l)); continue;
    }
    size_t k = s.below(logs.size()); Logger& l = logs[k]; int mode = (int)s.centred(-2, 3);
    switch (s.below(12)) {
      case 0: l.st->enableHeader(); l.header = true; break; case 1: l.st->disableHeader(); l.header = false; break;
      case 2: l.st->enableTimeStamp(); l.stamp = true; break; case 3: l.st->disableTimeStamp(); l.stamp = false; break;
      case 4: case 5: { std::string h = s.str("ABC:] ", 0, 6); if (h.empty() && s.coin()) l.st->enableMode(mode); else l.st->enableMode(mode, h); l.modes[mode] = h; break; }
      case 6: l.st->disableMode(mode); l.modes.erase(mode); break;
      case 7: flush(l); break;
      case 8: if (s.coin(1, 3)) { NOTE("stream " << k << " destroyed"); want[l.file] += l.pend; --count[l.file]; logs.erase(logs.begin() + k); } break;
      default: {
        if (!l.modes.empty() && s.coin(2, 3)) { auto it = l.modes.begin(); std::advance(it, s.below(l.modes.size())); mode = it->first; }
        clock_sec = s.coin() ? (long)s.below(5) : 1700000000L + (long)s.below(1000); clock_nsec = s.coin() ? (long)s.below(100) : (long)s.below(1000000000); int v = s.integer<int>(); std::string t = s.str("hello %\n", 0, 12); int calls = 0;
        auto val = [&] { ++calls; return v; }; LOG((*l.st), mode) << t << val() << "\n"; bool en = l.modes.count(mode) > 0; on = on || en; off = off || !en; CHECK(calls == (en ? 1 : 0), "the message of a " << (en ? "n enabled" : "disabled") << " mode was evaluated " << calls << " times");
        if (en) { l.pend += (l.stamp ? stamp_text() + " " : "") + (l.header ? "[" + l.modes[mode] + "] " : "") + (l.stamp || l.header ? ": " : "") + t + std::to_string(v) + "\n"; NOTE("stream " << k << " logs " << pbt::quote(t)); }
        if (l.pend.size() > 3500) { l.st->flush(); want[l.file] += l.pend; l.pend.clear(); } } }
    if (k < logs.size()) { LogStream& q = *logs[k].st; CHECK(q.isEnabled() == !logs[k].modes.empty(), "isEnabled() with " << logs[k].modes.size() << " modes"); for (int x = -2; x <= 3; ++x) CHECK(q.isModeEnabled(x) == (logs[k].modes.count(x) > 0), "mode " << x); }
  }
  while (!logs.empty()) { want[logs.back().file] += logs.back().pend; logs.pop_back(); }
  for (int i = 0; i < files; ++i) { std::string got = slurp(name[i]); ::unlink(name[i].c_str()); if (used[i]) CHECK(got == want[i], "file " << i << " holds " << pbt::quote(got) << " instead of " << pbt::quote(want[i])); }
  c.nontrivial(on && off);
}
PBT_T(log_parallel, 1, 60, "always") {
  // every thread has its own stream on the one file; messages arrive whole, and those of a thread in order
  const int T = (int)s.range(2, 4), N = (int)s.range(5, 60); std::string name = tmp("par"); size_t pad = s.below(60); int every = (int)s.range(1, 3); bool keep = s.coin(); std::unique_ptr<LogStream> first(keep ? new LogStream(name) : 0); clock_sec = 12; clock_nsec = 5; c.nontrivial(); std::atomic<int> go(0), bad(0); std::vector<std::thread> th; if (!keep) { std::ofstream o(name.c_str()); }
  for (int i = 0; i < T; ++i) th.emplace_back([&, i] { ++go; while (go < T) {} LogStream st(name, Append); if (st.fail()) ++bad; st.enableMode(i, "T" + std::to_string(i)); for (int k = 0; k < N; ++k) { LOG(st, i) << std::string(pad, (char)('a' + i)) << k << "\n"; if (k % every == 0) FLUSH(st); } });
  for (auto& t : th) t.join(); first.reset(); std::string got = slurp(name); ::unlink(name.c_str()); CHECK(bad == 0, "a stream failed");
  std::vector<int> next(T, 0); std::istringstream in(got); std::string line; int total = 0;
  while (std::getline(in, line)) { int i = -1; for (int q = 0; q < T; ++q) { std::string head = "12.000000005 [T" + std::to_string(q) + "] : " + std::string(pad, (char)('a' + q)); if (line.compare(0, head.size(), head) == 0) { i = q; CHECK(line.substr(head.size()) == std::to_string(next[q]), "message " << pbt::quote(line) << " of thread " << q << " came instead of its message " << next[q]); ++next[q]; break; } } CHECK(i >= 0, "torn message " << pbt::quote(line)); ++total; }
  CHECK(total == T * N, total << " messages arrived instead of " << T * N);
}
PBT(log_faults, 1, "always") {
  std::string bad = s.coin() ? tmp("nodir") + "/x.log" : std::string(getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp"); WriteMode mode = s.coin() ? Append : New; c.nontrivial(); NOTE("log file " << bad);
  bool th = false; bool failed = false; int reps = (int)s.range(1, 2);
  for (int i = 0; i < reps; ++i) { th = failed = false; try { LogStream st(bad, mode); failed = st.fail() && !st.device().open(); } catch (const StandardException&) { th = true; }
#ifdef ECL_DISABLE_EXCEPTIONS
    CHECK(!th && failed, "a log file that cannot be opened was not reported");
#else
    CHECK(th, "a log file that cannot be opened raised no exception"); (void)failed;
#endif
  }
  std::string good = tmp("ok"); { LogStream st(good); CHECK(!st.fail() && st.device().open() && st.device().count() == 1, "a failed log file broke the next one"); st.enableMode(1, "A"); st.disableTimeStamp(); LOG(st, 1) << "x"; } CHECK(slurp(good) == "[A] : x", "log after a failed one holds " << pbt::quote(slurp(good))); ::unlink(good.c_str());
}
PBT_MAIN
