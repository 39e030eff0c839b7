// C08: dense univariate polynomials against schoolbook arithmetic on coefficient lists (128-bit integers).
#include "vh.hpp"
#include "firefly/FFInt.hpp"
#include "firefly/Poly.hpp"
#include "firefly/ReconstHelper.hpp"
#include <csignal>
#include <unistd.h>
namespace firefly { Poly gcd(const Poly& c, const Poly& d); std::pair<Poly, Poly> fast_euclidean_division(const Poly& a, const Poly& b); }
using namespace firefly;
using namespace vh;
static uint64_t P;
typedef std::vector<uint64_t> Pol;
static uint64_t add(uint64_t a, uint64_t b) { return (uint64_t)(((u128)a + b) % P); }
static uint64_t sub(uint64_t a, uint64_t b) { return (uint64_t)(((u128)a + P - b % P) % P); }
static uint64_t mul(uint64_t a, uint64_t b) { return mulmod(a, b, P); }
static Pol norm(Pol a) { while (!a.empty() && a.back() == 0) a.pop_back(); return a; }
static size_t deg(const Pol& a) { Pol n = norm(a); return n.empty() ? 0 : n.size() - 1; }
static Pol plus(const Pol& a, const Pol& b, bool neg = false) { Pol r(std::max(a.size(), b.size()), 0); for (size_t i = 0; i < r.size(); ++i) { uint64_t x = i < a.size() ? a[i] : 0, y = i < b.size() ? b[i] : 0; r[i] = neg ? sub(x, y) : add(x, y); } return norm(r); }
static Pol times(const Pol& a, const Pol& b) { if (a.empty() || b.empty()) return {}; Pol r(a.size() + b.size() - 1, 0); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) r[i + j] = add(r[i + j], mul(a[i], b[j])); return norm(r); }
static Pol scaled(const Pol& a, uint64_t c) { Pol r = a; for (auto& x : r) x = mul(x, c); return norm(r); }
static void divide(const Pol& a, const Pol& b0, Pol& q, Pol& r) {
  Pol b = norm(b0); r = norm(a); q.assign(r.size() >= b.size() ? r.size() - b.size() + 1 : 0, 0);
  uint64_t v = invmod(b.back(), P);
  while (r.size() >= b.size()) { uint64_t c = mul(r.back(), v); size_t s = r.size() - b.size(); q[s] = c; for (size_t i = 0; i < b.size(); ++i) r[s + i] = sub(r[s + i], mul(c, b[i])); r = norm(r); if (r.empty()) break; }
  q = norm(q);
}
static Pol euclid(Pol a, Pol b) { a = norm(a); b = norm(b); while (!b.empty()) { Pol q, r; divide(a, b, q, r); a = b; b = r; } return a.empty() ? a : scaled(a, invmod(a.back(), P)); }
static std::string text(const Pol& p) { std::string s = "["; for (size_t i = 0; i < p.size(); ++i) { if (i == 12) { s += str(" ... ", p.size(), " coefficients"); break; } s += str(i ? " " : "", p[i]); } return s + "]"; }
static Poly obj(const Pol& p) { std::vector<FFInt> v; for (auto c : p) v.emplace_back(FFInt(c)); return Poly(v); }
static Pol got(const Poly& p) { Pol r; for (auto& c : p.coeff) r.push_back(c.n); return norm(r); }
static std::string in_now;
static void died(int s) { printf("FAIL crash :: the routine %s on %s\n", s == SIGALRM ? "does not stop" : "stops the process", in_now.c_str()); fflush(stdout); _Exit(3); }
static bool inside = false;
static void leave() { if (inside) { fail("stops the process", "on " + in_now); finish(); fflush(stdout); _Exit(3); } }
static void same(const char* key, const Poly& g, const Pol& w, const std::string& how) {
  mark(key, hash(how));
  Pol x = got(g);
  for (auto& c : g.coeff) if (c.n >= P) { fail(key, "a coefficient is not canonical: " + how); return; }
  if (x != norm(w)) { fail(key, str("result ", text(x), " instead of ", text(norm(w)), " for ", how)); return; }
  if (g.coeff.empty()) { fail(key, "the coefficient list is empty: " + how); return; }
  if (g.get_deg() != deg(w)) fail("get_deg", str("degree ", g.get_deg(), " instead of ", deg(w), " of ", text(w), ", result of ", how));
}
static uint64_t coef(Rng& r) { switch (r.below(7)) { case 0: return r.below(4) % P; case 1: return 1 % P; case 2: return P - 1 - r.below(2); case 3: case 4: return 0; default: return r() % P; } }
static Pol gen(Rng& r, size_t n) { Pol p(n ? n : 1); for (auto& c : p) c = coef(r); if (r.below(3) && p.back() == 0) p.back() = 1 + r() % (P - 1); if (r.below(5) == 0) for (uint64_t k = r.below(4); k; --k) p.push_back(0); return p; }
static void one(Rng& r, size_t na, size_t nb) {
  Pol a = gen(r, na), b = gen(r, nb);
  switch (r.below(6)) {   // relations between the two
    case 0: for (size_t i = 0; i < std::min(a.size(), b.size()); ++i) if (r.coin()) b[i] = sub(0, a[i]); break;
    case 1: for (size_t i = 0; i < std::min(a.size(), b.size()); ++i) if (r.coin()) b[i] = a[i]; break;
    case 2: { Pol f = gen(r, 1 + r.below(4)); a = times(a, f); b = times(b, f); if (a.empty()) a.push_back(0); if (b.empty()) b.push_back(0); break; }
    case 3: a = times(a, b); if (a.empty()) a.push_back(0); break;
    default: break;
  }
  if (r.below(40) == 0) for (auto& c : a) c = 0;
  if (r.below(40) == 0) for (auto& c : b) c = 0;
  const Poly A = obj(a), B = obj(b);
  std::string t = str("p=", P, " a=", text(a), " b=", text(b));
  in_now = t; alarm(20);
  same("copy", A, a, t);
  same("operator+", A + B, plus(a, b), "a+b of " + t);
  same("operator-", A - B, plus(a, b, true), "a-b of " + t);
  same("operator-", B - A, plus(b, a, true), "b-a of " + t);
  same("operator-", A - A, Pol(), "a-a of " + t);
  same("operator* (polynomial)", A * B, times(norm(a), norm(b)), "a*b of " + t);
  same("operator* (polynomial)", B * A, times(norm(a), norm(b)), "b*a of " + t);
  { Poly q = A; q += B; same("operator+=", q, plus(a, b), "a+=b of " + t); q -= B; same("operator-=", q, a, "a+=b, then -=b of " + t); q -= A; same("operator-=", q, Pol(), "a+=b, -=b, -=a of " + t); q += A; same("operator+=", q, a, "0+=a of " + t); }
  { Poly q = A; q += q; same("operator+=", q, scaled(a, 2 % P), "a+=a of " + t); }
  { Poly q = A; q -= q; same("operator-=", q, Pol(), "a-=a of " + t); }
  { Poly q = A; q *= q; same("operator*= (polynomial)", q, times(norm(a), norm(a)), "a*=a of " + t); }
  { Poly q = A; q *= B; same("operator*= (polynomial)", q, times(norm(a), norm(b)), "a*=b of " + t); q -= A; same("operator-=", q, plus(times(norm(a), norm(b)), a, true), "a*=b, -=a of " + t); }
  uint64_t c = coef(r);
  same("operator* (scalar)", A * FFInt(c), scaled(a, c), str("a*", c, " of ", t));
  { Poly q = A; q *= FFInt(c); same("operator*= (scalar)", q, scaled(a, c), str("a*=", c, " of ", t)); }
  if (c) {
    uint64_t v = invmod(c, P);
    same("operator/ (scalar)", A / FFInt(c), scaled(a, v), str("a/", c, " of ", t));
    Poly q = A; q /= FFInt(c); same("operator/= (scalar)", q, scaled(a, v), str("a/=", c, " of ", t));
  }
  if (!norm(a).empty()) {
    Poly q = A; q.shrink_to_fit(); same("shrink_to_fit", q, a, t); if (q.coeff.size() != norm(a).size()) fail("shrink_to_fit", "zeros remain: " + t);
    q /= q.coeff.back(); same("operator/= (scalar)", q, scaled(a, invmod(norm(a).back(), P)), "a/=(its leading coefficient) of " + t);
    Poly z = A; z.rev(); Pol w = norm(a); std::reverse(w.begin(), w.end()); same("rev", z, w, "a reversed of " + t);
  }
  if (!norm(b).empty()) {
    Pol q, w; divide(a, b, q, w);
    auto d = fast_euclidean_division(A, B);
    same("quotient", d.first, q, "a by b of " + t); same("remainder", d.second, w, "a by b of " + t);
    same("operator/", A / B, q, "a/b of " + t); same("operator%", A % B, w, "a%b of " + t);
    if (deg(b) > 0 && !got(d.second).empty() && got(d.second).size() > deg(b)) fail("remainder", "the degree of the remainder is not smaller: " + t);
  }
  if (na + nb < 60) {
    Pol g = euclid(a, b); Poly x = gcd(A, B); Pol y = got(x);
    if (!y.empty()) y = scaled(y, invmod(y.back(), P));
    mark("gcd", hash(t));
    if (x.coeff.empty() || y != g) fail("gcd", str("monic gcd ", text(y), " instead of ", text(g), " for ", t));
  }
  same("operands", A, a, "a after all operations: " + t); same("operands", B, b, "b after all operations: " + t);
  alarm(0);
}
int main() {
  Clock c(budget(6));
  Rng r(8);
  sample("p=9223372036854775783 a=[3 0 0 1] b=[0 2 0 0]"); mark("start", 0); fails(); nfail(); cur();
  std::atexit(leave); std::signal(SIGSEGV, died); std::signal(SIGABRT, died); std::signal(SIGFPE, died); std::signal(SIGALRM, died);
  const auto& ps = primes();
  uint64_t rounds = 0;
  inside = true;
  while ((c.left() || rounds < 6) && nfail() < 30) {
    P = ps[r.below(ps.size())];
    if (rounds % 5 == 3) P = 2147483647;
    if (rounds % 5 == 4) P = 101;
    { static uint64_t last = 0; Rng q(1000 + rounds); if (last) { uint64_t now = P; P = last; one(q, 4, 2); P = now; } last = P; FFInt::set_new_prime(P); Rng w(1000 + rounds); one(w, 4, 2); }   // the same operations before and after a change of the field
    for (size_t i = 1; i <= 6; ++i) for (size_t j = 1; j <= 6; ++j) one(r, i, j);
    for (int k = 0; k < 20; ++k) one(r, 1 + r.below(20), 1 + r.below(12));
    one(r, 1 + r.below(9), 20); one(r, 20, 20); one(r, 33, 2); one(r, 40, 17); one(r, 65 + r.below(3), 1 + r.below(3)); one(r, 130, 1 + r.below(70));
    ++rounds;
  }
  inside = false;
  return finish();
}
