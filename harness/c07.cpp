// C07: polynomial objects against an independent dictionary of terms (128-bit arithmetic); histories of operations on one object.
#include "vh.hpp"
#include "firefly/FFInt.hpp"
#include "firefly/PolynomialFF.hpp"
#include "firefly/ReconstHelper.hpp"
#include <csignal>
using namespace firefly;
using namespace vh;
static uint64_t P;
typedef std::map<std::vector<uint32_t>, uint64_t> Pol;
static uint64_t add(uint64_t a, uint64_t b) { return (uint64_t)(((u128)a + b) % P); }
static uint64_t sub(uint64_t a, uint64_t b) { return (uint64_t)(((u128)a + P - b % P) % P); }
static uint64_t mul(uint64_t a, uint64_t b) { return mulmod(a, b, P); }
static uint64_t value(const Pol& p, const std::vector<uint64_t>& x, size_t o, size_t n) {
  uint64_t s = 0;
  for (auto& t : p) { uint64_t w = t.second % P; for (size_t i = 0; i < n; ++i) w = mul(w, powmod(x[i], t.first[i + o], P)); s = add(s, w); }
  return s;
}
static std::string text(const Pol& p) { std::string s; int k = 0; for (auto& t : p) { if (++k > 6) { s += str(" ... (", p.size(), " terms)"); break; } s += str(" + ", t.second, "*x^("); for (auto e : t.first) s += str(e, " "); s += ")"; } return s.empty() ? " 0" : s; }
static PolynomialFF obj(uint32_t n, const Pol& p) { ff_map m; for (auto& t : p) m.emplace(t.first, FFInt(t.second)); return PolynomialFF(n, m); }
static uint64_t coef(Rng& r) { switch (r.below(6)) { case 0: return r.below(4); case 1: return 1; case 2: return P - 1 - r.below(3); case 3: return 0; default: return r() % P; } }
static Pol gen(Rng& r, uint32_t n, size_t terms, uint32_t emax) {
  Pol p;
  for (size_t t = 0; t < terms; ++t) { std::vector<uint32_t> k(n); for (auto& e : k) e = r.below(3) ? r.below(emax + 1) : r.below(2); if (r.below(12) == 0) k[r.below(n)] = r.below(70); p[k] = coef(r); }
  return p;
}
static std::vector<uint64_t> point(Rng& r, size_t n) { std::vector<uint64_t> x(n); for (auto& v : x) v = r.below(4) ? r() % P : r.below(3); return x; }
static std::vector<FFInt> ffp(const std::vector<uint64_t>& x) { std::vector<FFInt> v; for (auto e : x) v.emplace_back(FFInt(e)); return v; }
// compare an object with the dictionary at random points
static void same(const char* key, Rng& r, PolynomialFF& q, const Pol& p, uint32_t n, const std::string& how, bool nm1 = true) {
  mark(key, hash(how + text(p)));
  if (q.n != n) { fail(key, str("object in ", q.n, " variables instead of ", n, ": ", how)); return; }
  for (int k = 0; k < 2; ++k) {
    auto x = point(r, n); uint64_t w = value(p, x, 0, n);
    FFInt g = q.calc(ffp(x));
    if (g.n != w) { std::string s; for (auto v : x) s += str(" ", v); fail(key, str("value at (", s, " ) is ", g.n, " instead of ", w, " for ", how)); return; }
    if (nm1) {
      std::vector<uint64_t> y(x.begin(), x.begin() + (n - 1)); w = value(p, y, 1, n - 1);
      g = q.calc_n_m_1(ffp(y));
      if (g.n != w) { std::string s; for (auto v : y) s += str(" ", v); fail("calc_n_m_1", str("value without the first variable at (", s, " ) is ", g.n, " instead of ", w, " for ", how)); return; }
    }
  }
}
static void put(Pol& p, const std::vector<uint32_t>& k, uint64_t c) { uint64_t& s = p[k]; s = add(s, c % P); }
static Pol plus(const Pol& a, const Pol& b, bool neg = false) { Pol r = a; for (auto& t : b) put(r, t.first, neg ? sub(0, t.second) : t.second); return r; }
static Pol times(const Pol& a, const Pol& b) { Pol r; for (auto& s : a) for (auto& t : b) { auto k = s.first; for (size_t i = 0; i < k.size(); ++i) k[i] += t.first[i]; put(r, k, mul(s.second % P, t.second % P)); } return r; }
static Pol scaled(const Pol& a, uint64_t c) { Pol r; for (auto& t : a) r[t.first] = mul(t.second % P, c % P); return r; }
static Pol related(Rng& r, const Pol& a, uint32_t n, size_t terms, uint32_t emax) {   // shares, repeats and cancels terms of a
  Pol b = gen(r, n, r.below(terms + 1), emax);
  for (auto& t : a) switch (r.below(6)) { case 0: b[t.first] = sub(0, t.second); break; case 1: b[t.first] = t.second; break; case 2: b[t.first] = coef(r); break; default: break; }
  return b;
}
static std::string in_now;
static void died(int) { printf("FAIL crash :: the routine stops the process on %s\n", in_now.c_str()); fflush(stdout); _Exit(3); }
static bool inside = false;
static void leave() { if (inside) { fail("stops the process", "on " + in_now); finish(); fflush(stdout); _Exit(3); } }
static void one(Rng& r, uint32_t n, size_t terms, uint32_t emax) {
  Pol a = gen(r, n, terms, emax), b = related(r, a, n, terms, emax);
  auto A = obj(n, a), B = obj(n, b);
  std::string t = str("p=", P, " a:", text(a), " b:", text(b));
  in_now = t;
  same("calc", r, A, a, n, "a of " + t);
  { auto q = A + B; same("operator+", r, q, plus(a, b), n, "a+b of " + t); }
  { auto q = B + A; same("operator+", r, q, plus(a, b), n, "b+a of " + t); }
  { auto q = A - B; same("operator-", r, q, plus(a, b, true), n, "a-b of " + t); }
  { auto q = A - A; same("operator-", r, q, Pol(), n, "a-a of " + t); if (!q.zero()) fail("zero", "a-a is not reported as zero; " + t); mark("zero", hash(t)); }
  { auto q = A; q += B; same("operator+=", r, q, plus(a, b), n, "a+=b of " + t); }
  { auto q = A; q -= q; same("operator-=", r, q, Pol(), n, "a-=a of " + t); }
  { auto q = A; q -= B; same("operator-=", r, q, plus(a, b, true), n, "a-=b of " + t); }
  uint64_t c = coef(r);
  { auto q = A * FFInt(c); same("operator* (scalar)", r, q, scaled(a, c), n, str("a*", c, " of ", t)); }
  { auto q = A; q *= FFInt(c); same("operator*= (scalar)", r, q, scaled(a, c), n, str("a*=", c, " of ", t)); }
  if (c) {
    uint64_t v = invmod(c, P);
    { auto q = A / FFInt(c); same("operator/ (scalar)", r, q, scaled(a, v), n, str("a/", c, " of ", t)); }
    { auto q = A; q /= FFInt(c); same("operator/= (scalar)", r, q, scaled(a, v), n, str("a/=", c, " of ", t)); }
  }
  if (a.size() * b.size() < 1200) { auto q = A * B; same("operator* (polynomial)", r, q, times(a, b), n, "a*b of " + t); }
  { uint32_t z = 1 + r.below(n); Pol w; for (auto& s : a) { auto k = s.first; ++k[z - 1]; w[k] = s.second; } auto q = A.mul(z); same("mul", r, q, w, n, str("a*z_", z, " of ", t)); }
  { auto q = A; q.remove_zero_coefs(); same("remove_zero_coefs", r, q, a, n, "a without zero terms of " + t); for (auto& s : q.coefs) if (s.second == 0) fail("remove_zero_coefs", "a zero coefficient stays in " + t);
    bool z = true; for (auto& s : a) if (s.second % P) z = false; if (q.zero() != z) fail("zero", "zero() is wrong after removal of zero coefficients; " + t); }
  { // homogenisation: a first exponent is put in front
    uint32_t d = 0; for (auto& s : a) { uint32_t e = 0; for (auto x : s.first) e += x; d = std::max(d, e); } d += r.below(3);
    Pol w; for (auto& s : a) { uint32_t e = 0; for (auto x : s.first) e += x; auto k = s.first; k.insert(k.begin(), d - e); w[k] = s.second; }
    if (r.coin()) { auto q = A; q.n = n + 1; auto h = q.homogenize(d); same("homogenize", r, h, w, n + 1, str("a homogenised to ", d, " of ", t)); same("homogenize", r, q, w, n + 1, str("a (in place) homogenised to ", d, " of ", t)); }
    else { auto q = A; q.calc_n_m_1(ffp(point(r, n))); auto h = q.homogenize(d); h.n = n + 1; same("homogenize", r, h, w, n + 1, str("a evaluated, then homogenised to ", d, " of ", t)); }
  }
  { // shift of the variables
    std::vector<uint64_t> s(n); for (auto& v : s) v = r.below(3) ? r() % P : r.below(2);
    bool small = true; for (auto& m : a) for (auto e : m.first) if (e > 12) small = false;
    if (small && a.size() < 40) {
      auto q = A.add_shift(ffp(s)); mark("add_shift", hash(t));
      for (int k = 0; k < 2; ++k) { auto x = point(r, n), y = x; for (uint32_t i = 0; i < n; ++i) y[i] = add(x[i], s[i]); if (q.calc(ffp(x)).n != value(a, y, 0, n)) { std::string z; for (auto v : s) z += str(" ", v); fail("add_shift", str("a shifted by (", z, " ) has the wrong value; ", t)); break; } }
    }
  }
}
// a history of operations on one object; the Horner form is rebuilt when it has to be
static void history(Rng& r, uint32_t n, size_t terms) {
  Pol a = gen(r, n, terms, 5); auto q = obj(n, a); std::string h = "start"; in_now = "a history of operations";
  for (int k = 0; k < 10; ++k) {
    switch (r.below(8)) {
      case 0: { Pol b = related(r, a, n, r.below(2) ? 3 : terms, 5); q += obj(n, b); a = plus(a, b); h += " +="; break; }
      case 1: { Pol b = related(r, a, n, r.below(2) ? 3 : terms, 5); q -= obj(n, b); a = plus(a, b, true); h += " -="; break; }
      case 2: { uint64_t c = coef(r); q *= FFInt(c); a = scaled(a, c); h += " *="; break; }
      case 3: { uint64_t c = 1 + r() % (P - 1); q /= FFInt(c); a = scaled(a, invmod(c, P)); h += " /="; break; }
      case 4: { PolynomialFF c = q; PolynomialFF z; z = c; q = z; h += " copy"; break; }
      case 5: { q.remove_zero_coefs(); h += " remove_zero_coefs"; break; }
      case 6: { Pol b = gen(r, n, terms, 5); q = obj(n, b); a = b; h += " assign"; break; }
      default: { q = q.mul(1); Pol w; for (auto& s : a) { auto e = s.first; ++e[0]; w[e] = s.second; } a = w; h += " mul"; break; }
    }
    if (r.below(3)) { same("history", r, q, a, n, str("history ", h, ", now", text(a), " p=", P)); h += " calc"; }
  }
}
int main() {
  Clock c(budget(6));
  Rng r(7);
  sample("p=9223372036854775783 a: 3*x^(1 2) + 5*x^(0 0), b: -3*x^(1 2) + x^(2 0)"); mark("start", 0); fails(); nfail(); cur();
  std::atexit(leave); std::signal(SIGSEGV, died); std::signal(SIGABRT, died); std::signal(SIGFPE, died);
  const auto& ps = primes();
  uint64_t rounds = 0;
  inside = true;
  while ((c.left() || rounds < 6) && nfail() < 30) {
    P = ps[r.below(ps.size())];
    if (rounds % 11 == 5) P = 2147483647;
    { static uint64_t last = 0; Rng q(1000 + rounds); if (last) { uint64_t now = P; P = last; one(q, 2, 3, 3); P = now; } last = P; FFInt::set_new_prime(P); Rng w(1000 + rounds); one(w, 2, 3, 3); }   // the same operations before and after a change of the field
    for (uint32_t n = 1; n <= 4; ++n) for (size_t t : {(size_t)0, (size_t)1, (size_t)2, (size_t)(3 + r.below(10))}) one(r, n, t, 1 + r.below(4));
    one(r, 1 + r.below(4), 30 + r.below(60), 6);
    one(r, 2 + r.below(3), 60, 7);
    for (int k = 0; k < 3; ++k) history(r, 1 + r.below(4), 40 + r.below(40));
    history(r, 2, 5);
    ++rounds;
  }
  inside = false;
  return finish();
}
