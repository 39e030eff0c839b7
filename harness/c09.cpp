// C09: Vandermonde systems with known solutions (right-hand sides by 128-bit sums), every size from 1 up.
#include "vh.hpp"
#include <mutex>
#include <atomic>
#include <list>
#include <queue>
#include <thread>
#include <algorithm>
#include <unordered_map>
#include <tuple>
#include <bitset>
#define private public
#include "firefly/PolyReconst.hpp"
#undef private
#include "firefly/ReconstHelper.hpp"
#include "firefly/utils.hpp"
using namespace firefly;
using namespace vh;
static uint64_t P;
static uint64_t add(uint64_t a, uint64_t b) { return (uint64_t)(((u128)a + b) % P); }
static uint64_t mul(uint64_t a, uint64_t b) { return mulmod(a, b, P); }
static std::string list(const std::vector<uint64_t>& v) { std::string s; for (size_t i = 0; i < v.size() && i < 12; ++i) s += str(" ", v[i]); return s + (v.size() > 12 ? " ..." : ""); }
static std::vector<FFInt> ff(const std::vector<uint64_t>& v) { std::vector<FFInt> r; for (auto x : v) r.emplace_back(FFInt(x)); return r; }
static uint64_t coef(Rng& r) { switch (r.below(5)) { case 0: return 0; case 1: return 1 + r.below(3); case 2: return P - 1 - r.below(3); default: return r() % P; } }
static std::vector<uint64_t> rhs(const std::vector<uint64_t>& v, const std::vector<uint64_t>& x) {
  std::vector<uint64_t> f, w = v;
  for (size_t k = 0; k < v.size(); ++k) { uint64_t s = 0; for (size_t i = 0; i < v.size(); ++i) { s = add(s, mul(x[i], w[i])); w[i] = mul(w[i], v[i]); } f.push_back(s); }
  return f;
}
static void plain(Rng& r, size_t n, int kind) {
  std::vector<uint64_t> v; std::set<uint64_t> in;
  uint64_t q = kind == 2 ? 2 + r.below(5) : 0, w = 1;
  for (size_t t = 0; v.size() < n && t < 20 * n + 50; ++t) {
    uint64_t c = kind == 0 ? r() % P : kind == 1 ? v.size() + 1 : kind == 2 ? w : kind == 3 ? P - 1 - v.size() : v.size() % 2 ? P - v.back() : r.below(3) ? r.below(50) : r() % P; // 4: opposite pairs
    w = mul(w, q); c %= P;
    if (c && in.insert(c).second) v.push_back(c);
  }
  if (v.size() < n) return;
  if (r.coin()) for (size_t i = n - 1; i > 0; --i) std::swap(v[i], v[r.below(i + 1)]);
  std::vector<uint64_t> x; for (size_t i = 0; i < n; ++i) x.push_back(coef(r));
  auto f = rhs(v, x);
  std::string t = str("p=", P, " n=", n, " v:", list(v), " f:", list(f));
  cur() = t;
  mark("solve_transposed_vandermonde", hash(t));
  PolyReconst rec(1);
  auto g = ff(f); for (int e = (int)r.below(3); e > 0; --e) g.emplace_back(FFInt(r())); // the vector of probes may be longer than the system
  auto s = rec.solve_transposed_vandermonde(ff(v), g);
  if (s.size() != n) { fail("solve_transposed_vandermonde", str(s.size(), " coefficients; ", t)); return; }
  for (size_t i = 0; i < n; ++i) if (s[i].n != x[i]) { fail("solve_transposed_vandermonde", str("coefficient ", i, " is ", s[i].n, " instead of ", x[i], "; ", t)); return; }
}
static void poly(Rng& r, size_t n) {
  size_t vars = 1 + r.below(4);
  std::vector<uint64_t> val; for (size_t i = 0; i < vars; ++i) val.push_back(r.below(3) == 0 ? 2 + i : 2 + (r.coin() ? r() % (P - 2) : r.below(50))); // some coordinates recur from call to call
  std::vector<std::vector<uint32_t>> degs; std::vector<uint64_t> v; std::set<uint64_t> in; std::set<std::vector<uint32_t>> dd;
  for (size_t t = 0; degs.size() < n && t < 40 * n + 100; ++t) {
    std::vector<uint32_t> d(vars + 1); d[0] = r.below(6); for (size_t i = 1; i <= vars; ++i) d[i] = r.below(4) ? r.below(2 + n) : r.below(200);
    uint64_t w = 1; for (size_t i = 0; i < vars; ++i) w = mul(w, powmod(val[i], d[i + 1], P));
    if (w && !in.count(w) && !dd.count(d)) { in.insert(w); dd.insert(d); degs.push_back(d); v.push_back(w); }
  }
  if (degs.size() < n) return;
  std::vector<uint64_t> x; for (size_t i = 0; i < n; ++i) x.push_back(coef(r));
  auto f = rhs(v, x);
  std::string t = str("p=", P, " n=", n, " point:", list(val), " exponents:");
  for (size_t i = 0; i < n && i < 8; ++i) { t += " ("; for (auto e : degs[i]) t += str(" ", e); t += " )"; }
  t += " f:" + list(f);
  cur() = t;
  mark("solve_vandermonde_system", hash(t));
  auto keep = degs;
  PolynomialFF s = solve_vandermonde_system(degs, ff(f), ff(val));
  if (s.n != vars + 1) fail("solve_vandermonde_system", str("polynomial in ", s.n, " variables; ", t));
  if (s.coefs.size() != n) { fail("solve_vandermonde_system", str(s.coefs.size(), " terms; ", t)); return; }
  for (size_t i = 0; i < n; ++i) {
    auto it = s.coefs.find(keep[i]);
    if (it == s.coefs.end()) { fail("solve_vandermonde_system", str("no term with exponents number ", i, "; ", t)); return; }
    if (it->second.n != x[i]) { fail("solve_vandermonde_system", str("coefficient ", i, " is ", it->second.n, " instead of ", x[i], "; ", t)); return; }
  }
}
static bool inside = true;
static void leave() { if (inside) { fail("stops the process", "on the system " + cur()); finish(); fflush(stdout); _Exit(3); } }
int main() {
  Clock c(budget(6));
  Rng r(9);
  sample("p=9223372036854775783 n=3 v: 2 4 8, x: 1 0 9223372036854775782"); mark("start", 0); fails(); nfail(); cur();
  std::atexit(leave);
  const auto& ps = primes();
  uint64_t rounds = 0;
  while ((c.left() || rounds < 6) && nfail() < 30) {
    P = ps[r.below(ps.size())];
    if (rounds % 7 == 3) P = 2147483647;
    if (rounds % 9 == 4) P = 1009;
    FFInt::set_new_prime(P);
    for (size_t n = 1; n <= 24; ++n) { for (int k = 0; k < 5; ++k) plain(r, n, k); poly(r, n); poly(r, n); }
    for (int k = 0; k < 2; ++k) { plain(r, 25 + r.below(60), (int)r.below(5)); poly(r, 25 + r.below(60)); }
    if (rounds % 20 == 0) plain(r, 300 + r.below(200), 0);
    ++rounds;
  }
  inside = false;
  return finish();
}
