// C10: dense linear algebra against independent modular elimination (128-bit, first nonzero pivot, row vectors).
#include "vh.hpp"
#include "firefly/FFInt.hpp"
#include "firefly/DenseSolver.hpp"
#include "firefly/ReconstHelper.hpp"
#include <csignal>
#include <numeric>
using namespace firefly;
using namespace vh;
static uint64_t P;
typedef std::vector<std::vector<uint64_t>> Mat;
static uint64_t sub(uint64_t a, uint64_t b) { return (uint64_t)(((u128)a + P - b) % P); }
static uint64_t mul(uint64_t a, uint64_t b) { return mulmod(a, b, P); }
static uint64_t add(uint64_t a, uint64_t b) { return (uint64_t)(((u128)a + b) % P); }
static uint64_t det(Mat m) {
  size_t n = m.size(); uint64_t d = 1 % P;
  for (size_t i = 0; i < n; ++i) {
    size_t q = i; while (q < n && !m[q][i]) ++q;
    if (q == n) return 0;
    if (q != i) { std::swap(m[q], m[i]); d = sub(0, d); }
    d = mul(d, m[i][i]);
    uint64_t v = invmod(m[i][i], P);
    for (size_t k = i + 1; k < n; ++k) { uint64_t f = mul(m[k][i], v); for (size_t c = i; c < n; ++c) m[k][c] = sub(m[k][c], mul(f, m[i][c])); }
  }
  return d;
}
static std::string text(const Mat& m) { std::string s = str("p=", P, " n=", m.size(), " rows:"); if (m.size() <= 5) for (auto& r : m) { s += " ["; for (auto x : r) s += str(" ", x); s += " ]"; } else s += str(" (hash ", [&] { std::string t; for (auto& r : m) for (auto x : r) t += str(x, ","); return hash(t); }(), ")"); return s; }
static mat_ff<FFInt> ffm(const Mat& m, int extra = 0) { mat_ff<FFInt> r(m.size()); for (size_t i = 0; i < m.size(); ++i) { for (auto x : m[i]) r[i].emplace_back(FFInt(x)); } (void)extra; return r; }
static Mat gen(Rng& r, int n, int kind) {
  Mat m(n, std::vector<uint64_t>(n));
  for (auto& row : m) for (auto& x : row) x = r.below(3) ? r() % P : r.below(4) % P;
  std::vector<int> pi(n); std::iota(pi.begin(), pi.end(), 0); for (int i = n - 1; i > 0; --i) std::swap(pi[i], pi[r.below(i + 1)]);
  switch (kind) {
    case 1: for (auto& row : m) for (auto& x : row) if (r.below(3)) x = 0; for (int i = 0; i < n; ++i) m[i][pi[i]] = 1 + r() % (P - 1); break;          // sparse, zero pivots
    case 2: for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m[i][j] = pi[i] == j; break;                                                         // permutation
    case 3: { int a = (int)r.below(n), b = (int)r.below(n); uint64_t f = r() % P; for (int j = 0; j < n; ++j) m[a][j] = a == b ? 0 : mul(f, m[b][j]); break; } // singular
    case 4: { int a = (int)r.below(n), b = (int)r.below(n); uint64_t f = r() % P; for (int j = 0; j < n; ++j) m[j][a] = a == b ? 0 : mul(f, m[j][b]); break; } // singular by columns
    case 5: for (auto& row : m) for (auto& x : row) x = (P - 2 + r.below(4)) % P; break;                                                                  // close to the modulus
    case 6: for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m[i][j] = j < pi[i] ? 0 : (j == pi[i] ? 1 + r() % (P - 1) : r() % P); break;          // row echelon shape, permuted rows
    case 7: { uint64_t x = 1; for (int i = 0; i < n; ++i) { x = r() % P; uint64_t w = 1; for (int j = 0; j < n; ++j) { m[i][j] = w; w = mul(w, x); } } break; }
    case 8: for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m[i][j] = i == j ? 1 + r() % (P - 1) : 0; break;
    default: break;
  }
  return m;
}
static std::string in_now;
static void died(int) { printf("FAIL crash :: the routine stops the process on %s\n", in_now.c_str()); fflush(stdout); _Exit(3); }
static bool inside = false;
static void leave() { if (inside) { fail("stops the process", "on the regular system " + in_now); finish(); fflush(stdout); _Exit(3); } }
static void one(Rng& r, int n, int kind, const Mat* given = nullptr) {
  Mat m = given ? *given : gen(r, n, kind);
  uint64_t d = det(m);
  std::string t = text(m);
  in_now = t; cur() = t;
  uint64_t h = hash(t + str(kind));
  std::vector<uint64_t> b(n); for (auto& x : b) x = r.below(4) ? r() % P : 0;
  auto rhs = [&](const std::vector<FFInt>& x, const char* key) {
    if (x.size() != (size_t)n) { fail(key, str("solution has ", x.size(), " entries; ", t)); return; }
    for (int i = 0; i < n; ++i) { uint64_t s = 0; for (int j = 0; j < n; ++j) s = add(s, mul(m[i][j], x[j].n)); if (s != b[i] || x[i].n >= P) { fail(key, str("row ", i, " of A*x is ", s, " instead of ", b[i], "; ", t)); return; } }
  };
  auto inverse = [&](const mat_ff<FFInt>& v, const char* key) {
    if (v.size() != (size_t)n) { fail(key, str("inverse has ", v.size(), " rows; ", t)); return; }
    for (auto& row : v) if (row.size() != (size_t)n) { fail(key, str("inverse row has ", row.size(), " entries; ", t)); return; }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { uint64_t s = 0; for (int k = 0; k < n; ++k) s = add(s, mul(m[i][k], v[k][j].n)); if (s != (uint64_t)(i == j)) { fail(key, str("entry (", i, ",", j, ") of A*inverse is ", s, "; ", t)); return; } }
  };
  inside = true;
  if (d) {
    for (int force = 0; force < 2; ++force) { auto a = ffm(m); for (int i = 0; i < n; ++i) a[i].emplace_back(FFInt(b[i])); mark("solve_gauss_system", h + force); rhs(solve_gauss_system(a, n, force), "solve_gauss_system"); }
    { auto a = ffm(m); mark("calc_inverse", h); calc_inverse(a, n); inverse(a, "calc_inverse"); }
  }
  {
    auto a = ffm(m); std::vector<int> p(r.below(3), 7);
    calc_lu_decomposition(a, p, n);
    mark("calc_lu_decomposition", h);
    bool okp = p.size() == (size_t)n + 1; std::vector<int> s(p.begin(), p.begin() + std::min<size_t>(n, p.size())); std::sort(s.begin(), s.end()); for (int i = 0; okp && i < n; ++i) okp = s[i] == i;
    if (!okp) fail("calc_lu_decomposition", "the pivot vector is no permutation; " + t);
    else {
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        uint64_t w = 0; for (int k = 0; k <= std::min(i, j); ++k) w = add(w, mul(k == i ? 1 : a[i][k].n, a[k][j].n));
        if (w != m[p[i]][j]) { fail("calc_lu_decomposition", str("entry (", i, ",", j, ") of L*U is ", w, " instead of ", m[p[i]][j], "; ", t)); i = n; break; }
      }
      mark("calc_determinant_lu", h);
      uint64_t e = calc_determinant_lu(a, p, n).n;
      if (e != d) fail("calc_determinant_lu", str("determinant ", e, " instead of ", d, "; ", t));
      if (d) {
        std::vector<FFInt> fb; for (auto x : b) fb.emplace_back(FFInt(x));
        mark("solve_lu", h); rhs(solve_lu(a, p, fb, n), "solve_lu");
        mat_ff<FFInt> ia; mark("calc_inverse_lu", h); calc_inverse_lu(a, ia, p, n); inverse(ia, "calc_inverse_lu");
      }
    }
  }
  inside = false;
}
int main() {
  Clock c(budget(6));
  Rng r(10);
  sample("p=9223372036854775783 n=2 rows: [ 0 1 ] [ 1 0 ], right-hand side 3 4"); mark("start", 0); fails(); nfail(); cur(); // statics live before the exit handler
  std::atexit(leave);
  std::signal(SIGSEGV, died); std::signal(SIGABRT, died); std::signal(SIGFPE, died);
  const auto& ps = primes();
  // every 0/1 matrix up to 3 x 3: all pivoting patterns of that size
  P = ps[0]; FFInt::set_new_prime(P);
  for (int n = 1; n <= 3; ++n) for (int w = 0; w < (1 << (n * n)); ++w) { Mat m(n, std::vector<uint64_t>(n)); for (int k = 0; k < n * n; ++k) m[k / n][k % n] = (w >> k) & 1; one(r, n, 100, &m); }
  uint64_t rounds = 0;
  while ((c.left() || rounds < 8) && nfail() < 40) {
    P = rounds % 3 == 0 ? ps[r.below(ps.size())] : ps[rounds % ps.size()];
    if (r.below(8) == 0) P = 2147483647;
    if (r.below(10) == 0) P = 101;
    FFInt::set_new_prime(P);
    for (int n = 1; n <= 7; ++n) for (int k = 0; k < 9; ++k) one(r, n, k);
    if (rounds % 5 == 0) one(r, 8 + (int)r.below(25), (int)r.below(9));
    ++rounds;
  }
  return finish();
}
