// C13: expression text against an independent reader (recursive descent, 128-bit integers), and printed polynomials and rational functions
// against the value of the polynomial: the text is read by the independent reader and parsed by the real parser.
#include "vh.hpp"
#include "firefly/FFInt.hpp"
#include "firefly/HornerGenerator.hpp"
#include "firefly/Polynomial.hpp"
#include "firefly/PolynomialFF.hpp"
#include "firefly/RationalFunction.hpp"
#include "firefly/RationalFunctionFF.hpp"
#include "firefly/ReconstHelper.hpp"
#include "firefly/ShuntingYardParser.hpp"
#include <csignal>
#include <cmath>
#include <fstream>
#include <unistd.h>
using namespace firefly;
using namespace vh;
typedef std::vector<uint64_t> Vals;
typedef std::vector<std::string> Strs;
static Strs VARS;
static std::string in_now;
static bool inside = false;
static std::string cut(const std::string& s) { return s.size() > 500 ? s.substr(0, 500) + str("... (", s.size(), " characters)") : s; }
static void died(int s) { printf("FAIL crash :: %s: %s\n", s == SIGALRM ? "does not stop" : "stops the process", cut(in_now).c_str()); fflush(stdout); _Exit(3); }
static void leave() { if (inside) { fail("stops the process", cut(in_now)); finish(); fflush(stdout); _Exit(3); } }
static std::string text(const Vals& v) { std::string s; for (size_t i = 0; i < v.size() && i < VARS.size(); ++i) s += (i ? "," : "") + VARS[i] + "=" + str(v[i]); return s; }
// ---- the independent reader: usual precedence and associativity, a sign applies to the term it precedes
struct Read {
  const std::string& s; const Vals& v; uint64_t P; size_t i = 0; bool bad = false, undef = false;
  Read(const std::string& t, const Vals& w, uint64_t p) : s(t), v(w), P(p) {}
  char c() const { return i < s.size() ? s[i] : '\0'; }
  uint64_t expr() {
    bool neg = false; if (c() == '+' || c() == '-') neg = sign();
    uint64_t x = term(); if (neg && x) x = P - x;
    while (!bad && (c() == '+' || c() == '-')) { neg = sign(); uint64_t y = term(); x = (uint64_t)(((u128)x + (neg ? P - y : y)) % P); }
    return x;
  }
  bool sign() { bool neg = c() == '-'; ++i; if (!neg && c() == '-') { neg = true; ++i; } else if (neg && c() == '+') ++i; return neg; }
  uint64_t term() {
    uint64_t x = factor();
    while (!bad && (c() == '*' || c() == '/')) { char o = s[i++]; uint64_t y = factor(); if (o == '*') x = mulmod(x, y, P); else { if (!y) undef = true; x = mulmod(x, invmod(y, P), P); } }
    return x;
  }
  uint64_t factor() {
    uint64_t x = base();
    if (c() == '^') {
      ++i; bool neg = false, par = c() == '('; if (par) { ++i; if (c() == '-') { neg = true; ++i; } }
      u128 e = 0; bool any = false; while (isdigit(c())) { e = e * 10 + (s[i++] - '0'); any = true; }
      while (par && c() == '+' && !neg) { ++i; u128 k = 0; while (isdigit(c())) k = k * 10 + (s[i++] - '0'); e += k; }
      if (!any || (e >> 62)) bad = true;
      if (par) { if (c() != ')') bad = true; ++i; }
      if (c() == '^') bad = true;
      if (neg) { if (!x && e) undef = true; x = invmod(x, P); }
      x = e ? powmod(x, (uint64_t)e, P) : 1 % P;
    }
    return x;
  }
  uint64_t base() {
    if (c() == '(') { ++i; uint64_t x = expr(); if (c() != ')') bad = true; ++i; return x; }
    size_t b = i; while (isalnum(c()) || c() == '_') ++i;
    std::string t = s.substr(b, i - b);
    for (size_t k = 0; k < VARS.size(); ++k) if (VARS[k] == t) return v[k];
    if (t.empty()) { bad = true; return 0; }
    uint64_t x = 0; for (char d : t) { if (!isdigit(d)) { bad = true; return 0; } x = (uint64_t)(((u128)x * 10 + (d - '0')) % P); }
    return x;
  }
};
// 0: value, 1: not in the grammar, 2: no value at this point
static int value(const std::string& t, const Vals& v, uint64_t P, uint64_t& out) { Read r(t, v, P); out = r.expr(); if (r.bad || r.i != t.size()) return 1; return r.undef ? 2 : 0; }
static Vals point(Rng& r, uint64_t P) { Vals v(VARS.size()); bool sm = r.below(4) == 0; for (auto& x : v) x = sm ? 2 + r.below(50) : r() % P; return v; }
static std::vector<FFInt> ff(const Vals& v) { std::vector<FFInt> w; for (auto x : v) { FFInt f; f.n = x; w.push_back(f); } return w; }
static void check(const char* way, const std::string& t, const std::vector<FFInt>& got, size_t at, const Vals& v, uint64_t P) {
  uint64_t want; int k = value(t, v, P, want);
  if (k == 1) { fail("harness", "text outside the grammar: " + cut(t)); return; }
  if (at >= got.size()) { fail(way, str("no value for '", cut(t), "'")); return; }
  if (k == 2) return;
  mark(way, hash(t + text(v)));
  if (got[at].n != want) fail(way, str("'", cut(t), "' evaluates to ", got[at].n, " instead of ", want, " at ", text(v), " modulo ", P));
}
static const uint64_t P0 = 9223372036854775783ull;
static bool is_singular(const std::string& t, Rng& r, uint64_t P) { uint64_t o; for (int k = 0; k < 4; ++k) if (value(t, point(r, P), P, o) != 2) return false; return true; }
static ShuntingYardParser* blank = nullptr;
// the parser's reading of one text
static void one(const char* way, const std::string& t, Rng& r, int points = 2) {
  uint64_t P = FFInt::p; in_now = t; alarm(20);
  std::string c = t; ShuntingYardParser s = *blank; s.parse_function(c, VARS, true);
  for (int k = 0; k < points; ++k) {
    Vals v = point(r, P); uint64_t o;
    for (int j = 0; j < 20 && value(t, v, P, o) == 2; ++j) v = point(r, P);
    if (value(t, v, P, o) == 2) return;                       // nowhere defined
    check(way, t, s.evaluate(ff(v)), 0, v, P);
  }
  alarm(0);
}
static void whole(Strs ts, Rng& r, int mode) {               // constructors, added functions, search for equal functions
  uint64_t P = FFInt::p;
  Strs us; for (auto& t : ts) if (!is_singular(t, r, P) && !is_singular(t, r, primes()[1])) us.push_back(t); if (us.empty()) return;
  in_now = us[0] + " ; ..."; alarm(30);
  bool eq = mode & 1, file = mode & 2, otf = mode & 4;
  Strs first = us; size_t n = us.size(); if (otf) first.resize((n + 1) / 2);
  const char* way = file ? (eq ? "file, equal functions" : "file") : otf ? (eq ? "added, equal functions" : "added") : eq ? "list, equal functions" : "list";
  ShuntingYardParser s;
  if (file) {
    std::string name = str("vh13.", getpid()); { std::ofstream o(name); for (auto& t : first) { for (char c : t) { if (r.below(6) == 0) o << " "; if (r.below(40) == 0) o << "\n"; if (r.below(40) == 0) o << "\t"; o << c; } o << (r.coin() ? ";\n" : " ; "); } }
    s = ShuntingYardParser(name, VARS, eq, true); std::remove(name.c_str());
  } else s = ShuntingYardParser(first, VARS, eq, true);
  for (size_t i = first.size(); i < n; ++i) { std::string c = us[i]; s.add_otf(c); }
  if (otf) s.precompute_tokens(true);
  if (FFInt::p != P) { fail("modulus", "parsing leaves another modulus behind: " + cut(in_now)); FFInt::set_new_prime(P); return; }
  for (int k = 0; k < 2; ++k) {
    Vals v = point(r, P); uint64_t o; bool ok = true; for (auto& t : us) ok = ok && value(t, v, P, o) != 2; if (!ok) continue;
    auto a = s.evaluate(ff(v)), b = s.evaluate_pre(ff(v));
    if (a.size() != n || b.size() != n) fail(way, str("returns ", a.size(), "/", b.size(), " values for ", n, " texts: ", cut(in_now)));
    else for (size_t i = 0; i < n; ++i) { check(way, us[i], a, i, v, P); check(way, us[i], b, i, v, P); }
  }
  alarm(0);
}
// ---- texts of the grammar, by number of tokens: complete enumeration for one variable and two numbers
struct Enum {
  std::map<int, Strs> e, t, f, b;
  const Strs& base(int n) { auto it = b.find(n); if (it != b.end()) return it->second; Strs o; if (n == 1) o = {"x", "2", "y"}; if (n >= 3) for (auto& x : expr(n - 2)) o.push_back("(" + x + ")"); return b[n] = o; }
  const Strs& factor(int n) { auto it = f.find(n); if (it != f.end()) return it->second; Strs o = base(n); if (n >= 3) for (auto& x : base(n - 2)) o.push_back(x + "^3"); if (n >= 5) for (auto& x : base(n - 4)) o.push_back(x + "^(3)"); if (n >= 6) for (auto& x : base(n - 5)) o.push_back(x + "^(-3)"); return f[n] = o; }
  const Strs& term(int n) { auto it = t.find(n); if (it != t.end()) return it->second; Strs o = factor(n); for (int k = 1; k + 2 <= n; ++k) for (auto& x : term(k)) for (auto& y : factor(n - k - 1)) { o.push_back(x + "*" + y); o.push_back(x + "/" + y); } return t[n] = o; }
  const Strs& sum(int n) { auto it = e.find(n); if (it != e.end()) return it->second; Strs o = term(n); for (int k = 1; k + 2 <= n; ++k) { for (auto& x : expr(k)) for (auto& y : term(n - k - 1)) { o.push_back(x + "+" + y); o.push_back(x + "-" + y); } } if (n > 1) { for (auto& y : term(n - 1)) { o.push_back("-" + y); o.push_back("+" + y); } } return e[n] = o; }
  const Strs& expr(int n) { return sum(n); }
};
static std::string number(Rng& r) { switch (r.below(6)) { case 0: return str(r.below(3)); case 1: case 2: return str(1 + r.below(99)); case 3: return str(r()); case 4: { std::string s = str(1 + r.below(9)); size_t n = 15 + r.below(30); while (s.size() < n) s += (char)('0' + r.below(10)); return s; } default: return str(1 + r.below(1000000000)); } }
static std::string gexpr(Rng& r, int size);
static std::string gbase(Rng& r, int size) { if (size <= 1) return r.below(5) < 2 ? number(r) : VARS[r.below(VARS.size())]; std::string s = "(" + gexpr(r, size - 1) + ")"; while (r.below(6) == 0) s = "(" + s + ")"; return s; }
static std::string gfactor(Rng& r, int size) { std::string s = gbase(r, size); switch (r.below(12)) { case 0: case 1: return s + "^" + str(r.below(r.coin() ? 5 : 60)); case 2: return s + "^(-" + str(1 + r.below(9)) + ")"; case 3: return s + "^(" + str(1 + r.below(9)) + ")"; case 4: return r.below(3) ? s : s + "^(" + str(1 + r.below(9)) + "+" + str(r.below(9)) + ")"; default: return s; } }
static std::string gterm(Rng& r, int size) { if (size <= 1 || r.below(3) == 0) return gfactor(r, size); int a = 1 + (int)r.below(size - 1); std::string x = gterm(r, size - a); return x + (r.below(3) ? "*" : "/") + gfactor(r, a); }
static std::string gexpr(Rng& r, int size) {
  static const char* lead[] = {"", "", "", "", "", "-", "-", "+", "+-", "-+"}; static const char* mid[] = {"+", "+", "-", "-", "+", "-", "+-", "-+"};
  std::string s = lead[r.below(10)]; int n = 1 + (int)r.below(std::min(4, size)); for (int i = 0; i < n; ++i) s += (i ? mid[r.below(8)] : "") + gterm(r, std::max(1, size / n)); return s;
}
// a sign in front of a parenthesis inside a sign run, e.g. x+-(y), is in the grammar: validate() turns it into x-(y)
// ---- printing
static mpz_class bigz(Rng& r) { mpz_class z; switch (r.below(6)) { case 0: case 1: z = 1; break; case 2: z = (unsigned long)(1 + r.below(20)); break; case 3: z = zz(1 + r.below(1000000)); break; case 4: z = zz(r() | 1); break; default: z = zz(r() | 1) * zz(r() | 1) * zz(r() | 1); } return r.coin() ? z : mpz_class(-z); }
static RationalNumber rat(Rng& r) { mpz_class d = r.coin() ? mpz_class(1) : abs(bigz(r)); if (d == 0) d = 1; mpz_class q; for (uint64_t p : {primes()[0], primes()[1]}) while (d % zz(p) == 0) ++d; return RationalNumber(bigz(r), d); }
static uint64_t ratval(const RationalNumber& q, uint64_t P) { mpz_class p = zz(P), a = q.numerator % p; if (a < 0) a += p; mpz_class b = q.denominator % p; if (b < 0) b += p; return mulmod(uu(a), invmod(uu(b), P), P); }
static std::vector<uint32_t> powers(Rng& r, size_t n) { std::vector<uint32_t> e(n); for (auto& x : e) switch (r.below(6)) { case 0: case 1: case 2: x = 0; break; case 3: x = 1; break; case 4: x = (uint32_t)r.below(5); break; default: x = (uint32_t)r.below(14); } return e; }
static rn_map rnpoly(Rng& r, size_t n) { rn_map m; size_t k = r.below(7); if (r.below(9) == 0) k = 30; for (size_t i = 0; i < k; ++i) m[powers(r, n)] = rat(r); return m; }
static ff_map ffpoly(Rng& r, size_t n, uint64_t P) { ff_map m; size_t k = r.below(7); if (r.below(9) == 0) k = 30; for (size_t i = 0; i < k; ++i) { FFInt c; c.n = r.coin() ? 1 + r.below(3) : r() % P; if (!c.n) c.n = P - 1; m[powers(r, n)] = c; } return m; }
static uint64_t mon(const std::vector<uint32_t>& e, const Vals& v, uint64_t P) { uint64_t x = 1 % P; for (size_t i = 0; i < e.size(); ++i) x = mulmod(x, powmod(v[i], e[i], P), P); return x; }
static uint64_t rnval(const rn_map& m, const Vals& v, uint64_t P) { uint64_t s = 0; for (auto& t : m) s = (uint64_t)(((u128)s + mulmod(ratval(t.second, P), mon(t.first, v, P), P)) % P); return s; }
static uint64_t ffval(const ff_map& m, const Vals& v, uint64_t P) { uint64_t s = 0; for (auto& t : m) s = (uint64_t)(((u128)s + mulmod(t.second.n, mon(t.first, v, P), P)) % P); return s; }
static void printed(const char* way, const std::string& t, const Vals& v, bool defined, uint64_t want, Rng& r) {
  uint64_t P = FFInt::p, got; mark(way, hash(t + text(v)));
  in_now = t;
  int k = value(t, v, P, got);
  if (k == 1) { fail(way, "prints '" + cut(t) + "', which is not an expression"); return; }
  if (!defined || k == 2) { if (defined != (k != 2)) fail(way, str("'", cut(t), "' ", k == 2 ? "has no value" : "has a value", " at ", text(v), " modulo ", P, ", unlike the function")); return; }
  if (got != want) { fail(way, str("prints '", cut(t), "', which denotes ", got, " instead of ", want, " at ", text(v), " modulo ", P)); return; }
  alarm(20); std::string c = t; ShuntingYardParser s = *blank; s.parse_function(c, VARS, true); auto res = s.evaluate(ff(v)).at(0); alarm(0);
  if (res.n != want) fail(str(way, ", parsed again"), str("'", cut(t), "' is parsed to a function with value ", res.n, " instead of ", want, " at ", text(v), " modulo ", P));
}
static void printing(Rng& r) {
  uint64_t P = FFInt::p; size_t n = VARS.size(); Vals v = point(r, P); for (auto& x : v) if (!x) x = 1;
  {
    rn_map m = rnpoly(r, n); uint64_t w = rnval(m, v, P); Polynomial p(m); in_now = "printing a polynomial";
    if (!m.empty()) { p.sort(); printed("Polynomial::to_string", p.to_string(VARS), v, true, w, r); printed("Polynomial::generate_horner", p.generate_horner(VARS), v, true, w, r); }
    printed("generate_horner_rn", generate_horner_rn(m, VARS), v, true, w, r);
    std::vector<Monomial> ms; for (auto& t : m) ms.emplace_back(t.first, t.second);
    printed("generate_horner_mon", generate_horner_mon(ms, VARS), v, true, w, r);
  }
  {
    ff_map m = ffpoly(r, n, P); uint64_t w = ffval(m, v, P); PolynomialFF p(n, m); in_now = "printing a polynomial over the field";
    printed("PolynomialFF::to_string", p.to_string(VARS), v, true, w, r);
    printed("generate_horner_ff", generate_horner_ff(m, VARS), v, true, w, r);
    ff_map d = ffpoly(r, n, P); uint64_t wd = d.empty() ? 1 % P : ffval(d, v, P); RationalFunctionFF f(p, PolynomialFF(n, d));
    printed("RationalFunctionFF::to_string", f.to_string(VARS), v, wd != 0, wd ? mulmod(w, invmod(wd, P), P) : 0, r);
  }
  {
    rn_map a = rnpoly(r, n), b = rnpoly(r, n);
    RationalFunction f(a.empty() ? Polynomial() : Polynomial(a), b.empty() ? Polynomial() : Polynomial(b));
    Vals u = v; in_now = "printing a rational function";
    if (r.coin()) { std::vector<uint32_t> o(n); for (size_t i = 0; i < n; ++i) o[i] = (uint32_t)i; for (size_t i = n; i > 1; --i) std::swap(o[i - 1], o[r.below(i)]); std::unordered_map<uint32_t, uint32_t> om; for (size_t i = 0; i < n; ++i) { om[(uint32_t)i] = o[i]; u[i] = v[o[i]]; } f.set_var_order(om); }
    uint64_t num = rnval(a, u, P), den = b.empty() ? 1 % P : rnval(b, u, P);
    for (size_t k = r.below(4); k > 0; --k) {
      size_t pos = r.below(n); bool uni = r.below(4) != 0; Vals w = uni ? Vals{v[pos]} : v; size_t vars = uni ? 1 : n;
      rn_map x = rnpoly(r, vars), y = rnpoly(r, vars); Polynomial px, py; if (!x.empty()) { px = Polynomial(x); if (uni) px.set_var_pos((int)pos); num = mulmod(num, rnval(x, w, P), P); } if (!y.empty()) { py = Polynomial(y); if (uni) py.set_var_pos((int)pos); den = mulmod(den, rnval(y, w, P), P); }
      f.add_factor(RationalFunction(px, py));
    }
    uint64_t w = den ? mulmod(num, invmod(den, P), P) : 0;
    printed("RationalFunction::to_string", f.to_string(VARS), v, den != 0, w, r);
    printed("RationalFunction::generate_horner", f.generate_horner(VARS), v, den != 0, w, r);
  }
}
int main() {
  Clock c(budget(6));
  Rng r(13);
  sample("-x^(-3)-(2+-(y))/3*x"); mark("start", 0); fails(); nfail(); cur();
  std::atexit(leave); std::signal(SIGSEGV, died); std::signal(SIGABRT, died); std::signal(SIGFPE, died); std::signal(SIGALRM, died);
  std::cerr.setstate(std::ios::failbit); std::cout.setstate(std::ios::failbit);
  FFInt::set_new_prime(primes()[0]);
  blank = new ShuntingYardParser();
  inside = true;
  VARS = {"x", "y"};
  { Enum en; for (int n = 1; n <= 7 && nfail() < 30; ++n) { for (auto& t : en.expr(n)) { one("every short text", t, r, 1); if (nfail() > 30) break; } } 
    // signs and parentheses around every short text
    for (int n = 1; n <= 5; ++n) for (auto& t : en.expr(n)) for (const char* w : {"-(#)", "-(#)^3", "x-(#)", "x+-(#)", "x-+(#)*y", "((#))", "(((#)))^2", "(-(#))", "(-((#)))", "2*(-(#)*y)", "((#)+y)", "(x*(#))", "(y^2-((#)))/((#)^(-3))", "(-(#)^(-3))", "x^(-3)*(#)", "-x^(-3)*(#)", "(#)/(#)/x", "(#)-(#)-(#)", "-((#)-x)", "+(#)"}) { std::string u; for (const char* q = w; *q; ++q) if (*q == '#') u += t; else u += *q; one("wrapped short text", u, r, 1); if (nfail() > 30) break; } }
  static const std::vector<Strs> sets = {{"x"}, {"x", "y"}, {"x", "y1", "zz"}, {"abcdefghijklmnopq", "s", "t2", "S", "mu_f"}};
  uint64_t rounds = 0;
  while ((c.left() || rounds < 12) && nfail() < 30) {
    VARS = sets[rounds % 4];
    FFInt::set_new_prime(primes()[r.below(4) == 0 ? 1 : 0]);
    for (int k = 0; k < 200; ++k) one("random text", gexpr(r, 1 + (int)r.below(k % 10 == 0 ? 60 : 10)), r);
    for (int m = 0; m < 6; ++m) { Strs ts; size_t n = 1 + r.below(5); for (size_t i = 0; i < n; ++i) ts.push_back(!ts.empty() && r.below(4) == 0 ? ts[r.below(ts.size())] : gexpr(r, 1 + (int)r.below(8))); whole(ts, r, m); }
    for (int k = 0; k < 40; ++k) printing(r);
    ++rounds;
  }
  inside = false;
  return finish();
}
