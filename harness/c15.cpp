// C15: exponent orders, shift enumeration, stepping through 0/1 tuples.
#include "vh.hpp"
#include <algorithm>
#include "firefly/utils.hpp"
#include "firefly/Monomial.hpp"
#include "firefly/Polynomial.hpp"
using namespace firefly;
using namespace vh;
typedef std::vector<uint32_t> V;
static std::string sv(const V& v) { std::string s = "("; for (auto x : v) s += std::to_string(x) + ","; return s + ")"; }
static int colex(const V& a, const V& b) { for (size_t i = a.size(); i-- > 0;) if (a[i] != b[i]) return a[i] > b[i] ? 1 : -1; return 0; }
static uint64_t deg(const V& a) { uint64_t s = 0; for (auto x : a) s += x; return s; }
static void cmp(const V& a, const V& b) {
  mark("comparison", hash(sv(a) + sv(b)));
  std::string in = sv(a) + " " + sv(b);
  int c = colex(a, b);
  if (a_grt_b(a, b) != (c > 0)) fail("a_grt_b", in);
  if (a_eq_b(a, b) != (c == 0)) fail("a_eq_b", in);
  if (deg(a) >> 32 || deg(b) >> 32) return;
  int s = deg(a) != deg(b) ? (deg(a) > deg(b) ? 1 : -1) : -c;
  if (a_grt_b_s(a, b) != (s > 0)) fail("a_grt_b_s", in);
  Monomial m(a, RationalNumber(1, 2)), n(b, RationalNumber(3, 1));
  int g = deg(a) != deg(b) ? (deg(a) > deg(b) ? 1 : -1) : (a < b ? 1 : a > b ? -1 : 0);
  if ((m > n) != (g > 0)) fail("Monomial operator>", in);
  if ((m < n) != (g < 0)) fail("Monomial operator<", in);
}
static V rnd(Rng& r, size_t n, bool small) { V v(n); for (auto& x : v) x = small ? r.below(4) : (uint32_t)r.word(); return v; }
int main() {
  Clock c(budget(6));
  Rng r(15);
  for (size_t n = 0; n <= 4; ++n) {
    uint32_t k = n <= 3 ? 3 : 2, tot = 1;
    for (size_t i = 0; i < n; ++i) tot *= k;
    for (uint32_t x = 0; x < tot; ++x) for (uint32_t y = 0; y < tot; ++y) {
      V a(n), b(n); uint32_t p = x, q = y;
      for (size_t i = 0; i < n; ++i) { a[i] = p % k; p /= k; b[i] = q % k; q /= k; }
      cmp(a, b);
    }
  }
  for (uint32_t n = 1; n <= 17; ++n) {
    mark("generate_possible_shifts", n);
    auto s = generate_possible_shifts(n);
    std::set<V> u;
    for (size_t i = 0; i < s.size(); ++i) {
      if (s[i].size() != n || deg(s[i]) == n || std::any_of(s[i].begin(), s[i].end(), [](uint32_t x) { return x > 1; }) || !u.insert(s[i]).second) fail("generate_possible_shifts element", str("r=", n, " entry ", i, " ", sv(s[i])));
      if (i && deg(s[i - 1]) > deg(s[i])) fail("generate_possible_shifts order", str("r=", n, " entry ", i));
    }
    if (u.size() != (1u << n) - 1) fail("generate_possible_shifts completeness", str("r=", n, " has ", u.size()));
  }
  for (uint32_t n = 1; n <= 14; ++n) {
    V cur(n, 0); std::set<V> u; uint64_t steps = 0; uint64_t last = 0; bool done = false;
    while (steps < (2ull << n)) {
      V work = cur, before = cur;
      auto p = generate_next_permutation(work);
      mark("generate_next_permutation", hash(sv(before)));
      ++steps;
      if (!p.first) { done = true; if (deg(before) != n) fail("generate_next_permutation early end", sv(before)); break; }
      if (p.second.size() != n || std::any_of(p.second.begin(), p.second.end(), [](uint32_t x) { return x > 1; }) || deg(p.second) == 0) fail("generate_next_permutation not a tuple", sv(before) + " -> " + sv(p.second));
      if (!u.insert(p.second).second) { fail("generate_next_permutation repeats", sv(before) + " -> " + sv(p.second)); break; }
      if (deg(p.second) < last) fail("generate_next_permutation order", sv(before) + " -> " + sv(p.second));
      last = deg(p.second); cur = p.second;
    }
    if (!done) fail("generate_next_permutation never ends", str("n=", n));
    else if (u.size() != (1u << n) - 1) fail("generate_next_permutation misses tuples", str("n=", n, " visited ", u.size()));
  }
  sample("(4294967295,0,7) vs (0,4294967295,7)");
  while (c.left() && nfail() < 60) for (int i = 0; i < 300; ++i) {
    size_t n = r.below(r.coin() ? 7 : 40);
    V a = rnd(r, n, r.coin()), b = r.coin() ? a : rnd(r, n, r.coin());
    if (n && r.coin()) b[r.below(n)] += 1;
    if (n > 1 && r.below(3) == 0) std::swap(b[r.below(n)], b[r.below(n)]);
    cmp(a, b); cmp(b, a);
    if (i % 30 == 0 && n) {
      std::vector<Monomial> ms; size_t k = 1 + r.below(20); std::set<V> have;
      rn_map m;
      for (size_t j = 0; j < k; ++j) { V e = rnd(r, n, true); m[e] = RationalNumber((long)j + 1, 1); }
      Polynomial p(m); p.sort(); mark("Polynomial::sort", hash(sv(a)) + k);
      if (p.coefs.size() != m.size()) fail("Polynomial::sort length", "");
      for (size_t j = 0; j < p.coefs.size(); ++j) {
        if (j && colex(p.coefs[j].powers, p.coefs[j - 1].powers) <= 0) fail("Polynomial::sort order", sv(p.coefs[j - 1].powers) + sv(p.coefs[j].powers));
        auto it = m.find(p.coefs[j].powers);
        if (it == m.end() || !(it->second == p.coefs[j].coef)) fail("Polynomial::sort content", sv(p.coefs[j].powers));
      }
    }
  }
  return finish();
}
