// Formatters of numbers, floats and strings against padding done by hand.
#include <atomic>
#include <cmath>
#include <functional>
#include <iomanip>
#include <limits>
#include <memory>
#include <thread>
#include <pbt.hpp>
#include <ecl/formatters/common.hpp>
#include <ecl/formatters/number.hpp>
#include <ecl/formatters/floats.hpp>
#include <ecl/formatters/strings.hpp>
using namespace ecl;
namespace {
const Alignment AL[] = {NoAlign, LeftAlign, RightAlign, CentreAlign};
const char* an(Alignment a) { return a == NoAlign ? "none" : a == LeftAlign ? "left" : a == RightAlign ? "right" : "centre"; }
std::string padded(const std::string& t, int w, Alignment a) {
  int n = w - (int)t.size(); if (n <= 0 || a == NoAlign) return t;
  if (a == LeftAlign) return t + std::string(n, ' '); if (a == RightAlign) return std::string(n, ' ') + t;
  int before = n - n / 2; return std::string(before, ' ') + t + std::string(n - before, ' ');
}
// a stream that is not a std::ostream
struct Sink { std::string s; Sink& operator<<(char ch) { s += ch; return *this; } Sink& operator<<(const char* t) { s += t; return *this; } Sink& operator<<(const std::string& t) { s += t; return *this; } void flush() {} };
template <typename F> std::string print(bool std_stream, F& f) { if (std_stream) { std::ostringstream o; o << f; return o.str(); } Sink k; k << f; return k.s; }
template <typename F> void reuse(F& f, bool std_stream) {   // nothing new to print
#if defined(NDEBUG) || defined(ECL_DISABLE_EXCEPTIONS)
  std::string r = print(std_stream, f); CHECK(r.empty(), "without a fresh value the formatter printed " << pbt::quote(r));
#else
  bool thrown = false; std::string r; try { r = print(std_stream, f); } catch (const StandardException& e) { thrown = true; CHECK(e.flag() == UsageError, "printing without a fresh value raised another kind of error"); }
  CHECK(thrown, "printing without a fresh value went unnoticed, printed " << pbt::quote(r));
#endif
}
template <typename N> std::string bin(N v) { std::string r; unsigned long long u = (unsigned long long)v; for (int i = (int)sizeof(N) * 8 - 1; i >= 0; --i) r += ((u >> i) & 1) ? '1' : '0'; return "0b" + r; }
template <typename N> std::string hex(N v) { static const char* H = "0123456789abcdef"; std::string r; unsigned long long u = (unsigned long long)v; for (int i = (int)sizeof(N) * 2 - 1; i >= 0; --i) r += H[(u >> (4 * i)) & 15]; return "0x" + r; }
template <typename N> std::string dec(N v) { return v < 0 ? std::to_string((long long)v) : std::to_string((unsigned long long)v); }
const IntegralBase BA[] = {Bin, Hex, Dec}; const char* BN[] = {"bin", "hex", "dec"};
template <typename N> std::string digits(N v, int b) { return b == 0 ? bin(v) : b == 1 ? hex(v) : dec(v); }
int gen_w(pbt::Src& s) { return s.coin(1, 8) ? -1 : (int)s.range(0, s.coin(1, 6) ? 90 : 24); }

// a copy starts with the same settings and then lives its own life
template <typename F, typename N, typename G> void copied(pbt::Src& s, F& f, bool st, N v, std::string want, const char* type, G change) {
  F other(1), *held = s.coin() ? new F(f) : 0; std::unique_ptr<F> cp(held); if (!cp) { cp.reset(new F(3)); *cp = f; } std::string got = print(st, (*cp)(v)); CHECK(got == want, "a copied formatter for " << type << " prints " << pbt::quote(got) << " expected " << pbt::quote(want));
  change(*cp); got = print(st, f(v)); CHECK(got == want, "after changing the settings of its copy a formatter for " << type << " prints " << pbt::quote(got) << " expected " << pbt::quote(want));
  { std::unique_ptr<F> a(new F(f)), b; (*a)(v); b.reset(new F(*a)); a.reset(); got = print(st, *b); CHECK(got == want, "a formatter copied while holding a value prints " << pbt::quote(got) << " expected " << pbt::quote(want)); }
}
// a copy made while a value waits with settings of its own prints that value with those settings, and so does the original afterwards
template <typename F, typename P, typename V> void copied_waiting(pbt::Src& s, pbt::Ctx& c, F& f, bool st, P prepare, const std::string& once, V next, const std::string& later, const char* type) {
  prepare(f); std::unique_ptr<F> g; if (s.coin()) g.reset(new F(f)); else { g.reset(new F(5)); if (s.coin()) prepare(*g); *g = f; } F* who[2] = {&f, g.get()}; size_t first = s.below(2); NOTE("copied while a value waits");
  for (size_t k = 0; k < 2; ++k) { F& x = *who[(first + k) % 2]; const char* w = &x == &f ? "original" : "copy"; std::string got = print(st, x); CHECK(got == once, "the " << w << " of a formatter for " << type << " copied while a value waited prints " << pbt::quote(got) << " expected " << pbt::quote(once)); }
  for (size_t k = 0; k < 2; ++k) { F& x = *who[(first + k) % 2]; const char* w = &x == &f ? "original" : "copy"; std::string got = print(st, x(next)); CHECK(got == later, "the " << w << " of a formatter for " << type << " copied while a value waited then prints " << pbt::quote(got) << " expected " << pbt::quote(later)); }
}
template <typename N> void number(pbt::Src& s, pbt::Ctx& c, const char* type) {
  int w = -1, b = 2; Alignment a = NoAlign; int na = (int)s.below(4); if (na > 0) w = gen_w(s); if (na > 1) a = AL[s.below(4)]; if (na > 2) b = (int)s.below(3);
  pbt::Dirty<Format<N>> d(s.below(256), w, a, BA[b]); Format<N>& f = *d; NOTE("Format<" << type << ">(" << w << "," << an(a) << "," << BN[b] << ")");
  bool st = s.coin(); int ops = (int)s.len(1, 8); bool nt = false;
  if (s.coin(1, 6)) reuse(f, st);
  for (int i = 0; i < ops; ++i) switch (s.below(10)) {
    case 8: { N v = s.integer<N>(), x = s.integer<N>(); int tw = gen_w(s), tb = (int)s.below(3); Alignment ta = AL[s.below(4)]; if (s.coin(1, 3)) copied_waiting(s, c, f, st, [&](Format<N>& g) { g(v); }, padded(digits(v, b), w, a), x, padded(digits(x, b), w, a), type); else copied_waiting(s, c, f, st, [&](Format<N>& g) { g(v, tw, ta, BA[tb]); }, padded(digits(v, tb), tw, ta), x, padded(digits(x, b), w, a), type); c.label("copied while waiting"); break; }
    case 0: { w = gen_w(s); f.width(w); if (w > 0 && a == NoAlign) a = RightAlign; NOTE("width(" << w << ")"); break; }
    case 1: { a = AL[s.below(4)]; f.align(a); if (a == NoAlign) w = 0; NOTE("align(" << an(a) << ")"); break; }
    case 2: { b = (int)s.below(3); f.base(BA[b]); NOTE("base(" << BN[b] << ")"); break; }
    case 3: { w = gen_w(s); a = AL[s.below(4)]; b = (int)s.below(3); f(w, a, BA[b]); if (a == NoAlign) w = 0; NOTE("(" << w << "," << an(a) << "," << BN[b] << ")"); break; }
    case 4: { N v = s.integer<N>(); int tw = gen_w(s), tb = (int)s.below(3); Alignment ta = a; if (tw > 0 && ta == NoAlign) ta = RightAlign; std::string want = padded(digits(v, tb), tw, ta), got = print(st, f(v, tw, BA[tb]));
      NOTE("temporary (" << dec(v) << "," << tw << "," << BN[tb] << ") -> " << pbt::quote(got)); CHECK(got == want, type << " " << dec(v) << " with temporary width " << tw << " base " << BN[tb] << " (kept alignment " << an(a) << ") prints " << pbt::quote(got) << " expected " << pbt::quote(want)); nt |= tw > 0; c.label("temporary width"); break; }
    case 5: { N v = s.integer<N>(); int tw = gen_w(s), tb = (int)s.below(3); Alignment ta = AL[s.below(4)]; std::string want = padded(digits(v, tb), tw, ta), got = print(st, f(v, tw, ta, BA[tb]));
      NOTE("temporary (" << dec(v) << "," << tw << "," << an(ta) << "," << BN[tb] << ") -> " << pbt::quote(got)); CHECK(got == want, type << " " << dec(v) << " with temporary width " << tw << " " << an(ta) << " base " << BN[tb] << " prints " << pbt::quote(got) << " expected " << pbt::quote(want)); nt |= tw > 0; c.label("temporary settings"); break; }
    case 6: { N v = s.integer<N>(); std::string want = padded(digits(v, b), w, a), got = print(st, f(v)); NOTE("(" << dec(v) << ") -> " << pbt::quote(got));
      CHECK(got == want, type << " " << dec(v) << " with width " << w << " " << an(a) << " base " << BN[b] << " prints " << pbt::quote(got) << " expected " << pbt::quote(want)); nt |= w > 0; if (s.coin(1, 4)) { reuse(f, st); c.label("reused without a value"); } c.label(b == 0, "binary"); c.label(b == 1, "hexadecimal"); c.label((int)want.size() > w && w > 0, "wider than the width"); break; }
    case 7: { N v = s.integer<N>(); copied<Format<N>, N>(s, f, st, v, padded(digits(v, b), w, a), type, [](Format<N>& g) { g.width(17); g.align(LeftAlign); g.base(Bin); }); c.label("copied"); break; }
    default: { N v = s.integer<N>(), x = s.integer<N>(); f(v); std::string got = print(st, f(x)), want = padded(digits(x, b), w, a); CHECK(got == want, "the last value given must be printed, got " << pbt::quote(got) << " expected " << pbt::quote(want)); break; }
  }
  c.nontrivial(nt);
}
double gen_f(pbt::Src& s) { switch (s.below(8)) { case 0: return (double)s.centred(-100, 100); case 1: return s.real(1); case 2: return (double)s.centred(-2000, 2000) / 8; case 3: return s.real(1e6); case 4: return s.real(1e18); case 5: return std::ldexp(s.real(1), (int)s.centred(-1040, 1023)); case 6: return s.of<double>({0.0, -0.0, 0.5, -0.5, 0.05, 9.9999999, INFINITY, -INFINITY, NAN, 1e22, -1e-9, 99.995, 1e308}); default: return s.real(1000); } }
std::string fixed_text(double v, int p) { std::ostringstream o; o << std::fixed << std::setprecision(p) << v; return o.str(); }
template <typename N> void floats(pbt::Src& s, pbt::Ctx& c, const char* type) {
  int w = -1, p = 4; Alignment a = NoAlign; int na = (int)s.below(4); if (na > 0) w = gen_w(s); if (na > 1) p = (int)s.range(0, 20); if (na > 2) a = AL[s.below(4)];
  pbt::Dirty<Format<N>> d(s.below(256), w, p, a); Format<N>& f = *d; NOTE("Format<" << type << ">(" << w << "," << p << "," << an(a) << ")");
  bool st = s.coin(); int ops = (int)s.len(1, 8); bool nt = false;
  if (s.coin(1, 6)) reuse(f, st);
  for (int i = 0; i < ops; ++i) { switch (s.below(11)) {
    case 9: { N v = (N)gen_f(s), x = (N)gen_f(s); int tw = gen_w(s), tp = (int)s.range(0, 20); Alignment ta = AL[s.below(4)]; if (s.coin(1, 3)) copied_waiting(s, c, f, st, [&](Format<N>& g) { g(v); }, padded(fixed_text(v, p), w, a), x, padded(fixed_text(x, p), w, a), type); else copied_waiting(s, c, f, st, [&](Format<N>& g) { g(v, (unsigned)tp, tw, ta, Fixed); }, padded(fixed_text(v, tp), tw, ta), x, padded(fixed_text(x, p), w, a), type); c.label("copied while waiting"); break; }
    case 0: { w = gen_w(s); f.width(w); if (w > 0 && a == NoAlign) a = RightAlign; NOTE("width(" << w << ")"); break; }
    case 1: { a = AL[s.below(4)]; f.align(a); if (a == NoAlign) w = 0; NOTE("align(" << an(a) << ")"); break; }
    case 2: { p = (int)s.range(0, 20); f.precision(p); NOTE("precision(" << p << ")"); break; }
    case 3: { w = gen_w(s); p = (int)s.range(0, 20); f((unsigned)p, w); if (w > 0 && a == NoAlign) a = RightAlign; NOTE("(" << p << "," << w << ")"); break; }
    case 4: { w = gen_w(s); p = (int)s.range(0, 20); a = AL[s.below(4)]; f((unsigned)p, w, a, Fixed); if (a == NoAlign) w = 0; NOTE("(" << p << "," << w << "," << an(a) << ")"); break; }
    case 5: { N v = (N)gen_f(s); int tw = gen_w(s), tp = (int)s.range(0, 20); Alignment ta = a; if (tw > 0 && ta == NoAlign) ta = RightAlign; std::string want = padded(fixed_text(v, tp), tw, ta), got = print(st, f(v, (unsigned)tp, tw));
      NOTE("temporary (" << v << "," << tp << "," << tw << ") -> " << pbt::quote(got)); CHECK(got == want, type << " " << v << " with temporary precision " << tp << " width " << tw << " (kept alignment " << an(a) << ") prints " << pbt::quote(got) << " expected " << pbt::quote(want)); nt |= tw > 0; c.label("temporary width"); break; }
    case 6: { N v = (N)gen_f(s); int tw = gen_w(s), tp = (int)s.range(0, 20); Alignment ta = AL[s.below(4)]; std::string want = padded(fixed_text(v, tp), tw, ta), got = print(st, f(v, (unsigned)tp, tw, ta, Fixed));
      NOTE("temporary (" << v << "," << tp << "," << tw << "," << an(ta) << ") -> " << pbt::quote(got)); CHECK(got == want, type << " " << v << " with temporary precision " << tp << " width " << tw << " " << an(ta) << " prints " << pbt::quote(got) << " expected " << pbt::quote(want)); nt |= tw > 0; c.label("temporary settings"); break; }
    case 8: { N v = (N)gen_f(s); copied<Format<N>, N>(s, f, st, v, padded(fixed_text(v, p), w, a), type, [](Format<N>& g) { g.width(17); g.precision(1); g.align(LeftAlign); }); c.label("copied"); break; }
    default: { N v = (N)gen_f(s); std::string want = padded(fixed_text(v, p), w, a), got = print(st, f(v)); NOTE("(" << v << ") -> " << pbt::quote(got));
      CHECK(got == want, type << " " << v << " with precision " << p << " width " << w << " " << an(a) << " prints " << pbt::quote(got) << " expected " << pbt::quote(want)); nt |= w > 0; if (s.coin(1, 4)) { reuse(f, st); c.label("reused without a value"); } c.label(want.size() > 30, "more than 30 characters"); break; }
    }
    CHECK(f.width() == w && f.precision() == p, "the formatter reports width " << f.width() << " precision " << f.precision() << ", set were " << w << " and " << p); }
  c.nontrivial(nt);
}
}
PBT(format_number, 5, "a positive width is in force for some value") { switch (s.below(9)) { case 0: number<int>(s, c, "int"); break; case 1: number<short>(s, c, "short"); break; case 2: number<long>(s, c, "long"); break; case 3: number<char>(s, c, "char"); break; case 4: number<signed char>(s, c, "signed char"); break; case 5: number<unsigned char>(s, c, "unsigned char"); break; case 6: number<unsigned short>(s, c, "unsigned short"); break; case 7: number<unsigned int>(s, c, "unsigned int"); break; default: number<unsigned long>(s, c, "unsigned long"); } }
PBT(format_float, 4, "a positive width is in force for some value") { if (s.coin()) floats<double>(s, c, "double"); else floats<float>(s, c, "float"); }
PBT(format_string, 2, "a positive width is in force for some text") {
  int w = -1; Alignment a = NoAlign; int na = (int)s.below(3); if (na > 0) w = gen_w(s); if (na > 1) a = AL[s.below(4)];
  pbt::Dirty<Format<std::string>> d(s.below(256), w, a); Format<std::string>& f = *d; NOTE("Format<string>(" << w << "," << an(a) << ")"); bool st = s.coin(), nt = false; int ops = (int)s.len(1, 8);
  if (s.coin(1, 3)) reuse(f, st);
  for (int i = 0; i < ops; ++i) switch (s.below(7)) {
    case 5: { std::string t = s.str("ab cd%", 0, 40), x = s.str("ab cd%", 0, 40); int tw = gen_w(s); Alignment ta = AL[s.below(4)]; if (s.coin(1, 3)) copied_waiting(s, c, f, st, [&](Format<std::string>& g) { g(t); }, padded(t, w, a), x, padded(x, w, a), "text"); else copied_waiting(s, c, f, st, [&](Format<std::string>& g) { g(t, tw, ta); }, padded(t, tw, ta), x, padded(x, w, a), "text"); break; }
    case 0: w = gen_w(s); f.width(w); NOTE("width(" << w << ")"); break;
    case 1: a = AL[s.below(4)]; f.align(a); NOTE("align(" << an(a) << ")"); break;
    case 2: w = gen_w(s); a = AL[s.below(4)]; f(w, a); NOTE("(" << w << "," << an(a) << ")"); break;
    case 3: { std::string t = s.str("ab cd\xc3\xa9%", 0, 40); int tw = gen_w(s); std::string got = print(st, f(t, tw)), want = padded(t, tw, a); NOTE("temporary (" << pbt::quote(t) << "," << tw << ")"); CHECK(got == want, "text with temporary width " << tw << " " << an(a) << " prints " << pbt::quote(got) << " expected " << pbt::quote(want)); nt |= tw > 0; break; }
    case 4: { std::string t = s.str("ab cd\xc3\xa9%", 0, 40); int tw = gen_w(s); Alignment ta = AL[s.below(4)]; std::string got = print(st, f(t, tw, ta)), want = padded(t, tw, ta); NOTE("temporary (" << pbt::quote(t) << "," << tw << "," << an(ta) << ")"); CHECK(got == want, "text with temporary width " << tw << " " << an(ta) << " prints " << pbt::quote(got) << " expected " << pbt::quote(want)); nt |= tw > 0; break; }
    default: { std::string t = s.str("ab cd\xc3\xa9%", 0, 40); std::string got = print(st, f(t)), want = padded(t, w, a); NOTE("(" << pbt::quote(t) << ")"); CHECK(got == want, "text with width " << w << " " << an(a) << " prints " << pbt::quote(got) << " expected " << pbt::quote(want)); nt |= w > 0; if (s.coin(1, 4)) reuse(f, st); }
  }
  c.nontrivial(nt);
}
namespace {
// a stream that prints something else of its own half way through: what it prints and what it was asked to print must both come out whole
struct Busy { std::string s; std::function<void()> other; int left; Busy(int n, std::function<void()> f) : other(f), left(n) {} void tick() { if (left-- == 0) other(); }
  Busy& operator<<(char ch) { tick(); s += ch; return *this; } Busy& operator<<(const char* t) { tick(); s += t; return *this; } Busy& operator<<(const std::string& t) { tick(); s += t; return *this; } void flush() {} };
struct Job { int kind, w, p; Alignment a; double d; long n; std::string want; };
Job gen_job(pbt::Src& s) { Job j; j.kind = (int)s.below(5); j.w = gen_w(s); j.p = (int)s.range(0, 20); j.a = AL[1 + s.below(3)]; j.d = gen_f(s); j.n = s.integer<long>(); j.want = padded(j.kind == 0 ? fixed_text(j.d, j.p) : j.kind == 1 ? fixed_text((float)j.d, j.p) : j.kind == 2 ? dec(j.n) : j.kind == 3 ? dec((int)j.n) : hex(j.n), j.w, j.a); return j; }
template <typename S> void run(const Job& j, S& o) { switch (j.kind) { case 0: { Format<double> f(j.w, j.p, j.a); o << f(j.d); break; } case 1: { Format<float> f(j.w, j.p, j.a); o << f((float)j.d); break; } case 2: { Format<long> f(j.w, j.a, Dec); o << f(j.n); break; } case 3: { Format<int> f(j.w, j.a, Dec); o << f((int)j.n); break; } default: { Format<long> f(j.w, j.a, Hex); o << f(j.n); } } }
}
PBT(format_interleaved, 2, "two formatters of the same type are at work at the same time") {
  Job a = gen_job(s), b = gen_job(s); if (s.coin()) { b.kind = a.kind; b.want = padded(b.kind == 0 ? fixed_text(b.d, b.p) : b.kind == 1 ? fixed_text((float)b.d, b.p) : b.kind == 2 ? dec(b.n) : b.kind == 3 ? dec((int)b.n) : hex(b.n), b.w, b.a); }
  int at = (int)s.range(0, 24); Sink in; Busy out(at, [&] { run(b, in); }); run(a, out); NOTE("kinds " << a.kind << " and " << b.kind << ", interrupted at piece " << at);
  CHECK(out.s == a.want, "a value printed while its stream printed another one came out as " << pbt::quote(out.s) << " expected " << pbt::quote(a.want)); if (out.left < 0) CHECK(in.s == b.want, "the value printed in between came out as " << pbt::quote(in.s) << " expected " << pbt::quote(b.want));
  c.nontrivial(out.left < 0 && a.kind == b.kind);
}
PBT(format_threads, 1, "at least two threads print values of the same type") {
  size_t n = s.len(2, 4); std::vector<std::vector<Job>> jobs(n); int kind = (int)s.below(6);
  for (auto& v : jobs) { size_t m = s.len(20, 120); for (size_t i = 0; i < m; ++i) { Job j = gen_job(s); while (kind < 5 && j.kind != kind) { j.kind = kind; j.want = padded(kind == 0 ? fixed_text(j.d, j.p) : kind == 1 ? fixed_text((float)j.d, j.p) : kind == 2 ? dec(j.n) : kind == 3 ? dec((int)j.n) : hex(j.n), j.w, j.a); } v.push_back(j); } }
  std::vector<std::string> wrong(n); std::atomic<size_t> ready(0); std::vector<std::thread> ts;
  for (size_t t = 0; t < n; ++t) ts.emplace_back([&, t] { ++ready; while (ready < n) {} for (auto& j : jobs[t]) { Sink k; run(j, k); if (k.s != j.want && wrong[t].empty()) wrong[t] = pbt::quote(k.s) + " expected " + pbt::quote(j.want); } });
  for (auto& t : ts) t.join(); NOTE(n << " threads, kind " << kind);
  for (auto& w : wrong) CHECK(w.empty(), "a formatter used by one thread only printed " << w << " while other threads used theirs");
  c.nontrivial(true);
}
PBT_MAIN
