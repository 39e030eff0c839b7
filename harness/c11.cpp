// C11: Thiele and Newton interpolation against an independent 128-bit evaluation of the continued fraction / Newton form.
#include "vh.hpp"
#include <mutex>
#include <atomic>
#include <list>
#include <queue>
#include <thread>
#include <algorithm>
#include <unordered_map>
#include <tuple>
#include <bitset>
#include <unistd.h>
#define private public
#define protected public
#include "firefly/PolyReconst.hpp"
#include "firefly/FFThieleInterpolator.hpp"
#undef private
#undef protected
#include "firefly/ReconstHelper.hpp"
using namespace firefly;
using namespace vh;
typedef std::vector<uint64_t> V;
static uint64_t P;
static uint64_t add(uint64_t a, uint64_t b) { return (uint64_t)(((u128)a + b) % P); }
static uint64_t sub(uint64_t a, uint64_t b) { return add(a, P - b % P); }
static uint64_t mul(uint64_t a, uint64_t b) { return mulmod(a, b, P); }
static uint64_t dv(uint64_t a, uint64_t b) { return b % P ? mul(a, invmod(b, P)) : 0; }
static uint64_t ev(const V& c, uint64_t x) { uint64_t r = 0; for (size_t i = c.size(); i-- > 0;) r = add(mul(r, x), c[i]); return r; }
static V plus(V a, const V& b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); ++i) a[i] = add(a[i], b[i]); return a; }
static V times(const V& a, const V& b) { V r(a.size() + b.size(), 0); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) r[i + j] = add(r[i + j], mul(a[i], b[j])); return r; }
static std::string list(const V& v) { std::string s; for (size_t i = 0; i < v.size() && i < 14; ++i) s += str(" ", v[i]); return s + (v.size() > 14 ? " ..." : ""); }
static uint64_t coef(Rng& r) { switch (r.below(6)) { case 0: return 0; case 1: return 1 + r.below(3); case 2: return P - 1 - r.below(3); default: return r() % P; } }
// the continued fraction a0 + (y-t0)/(a1 + (y-t1)/(...)) with x/0 = 0; regular: no inner value is zero
static uint64_t cf(const V& a, const V& t, uint64_t y, bool& regular) {
  regular = true;
  uint64_t res = a.back();
  for (size_t k = a.size() - 1; k-- > 0;) { if (res == 0) regular = false; res = add(a[k], dv(sub(y, t[k]), res)); }
  return res;
}
static bool dense(const ff_map& m, V& out, const std::string& t, const char* what) {
  out.clear();
  for (const auto& e : m) {
    if (e.first.size() != 1 || e.first[0] > 4000) { fail(what, str("exponent vector of length ", e.first.size(), (e.first.size() ? str(" starting with ", e.first[0]) : ""), "; ", t)); return false; }
    if (out.size() <= e.first[0]) out.resize(e.first[0] + 1, 0);
    out[e.first[0]] = e.second.n;
  }
  return true;
}
// canonical form against the fraction of the reference coefficients
static void canonical(const std::pair<ff_map, ff_map>& c, const V& a, const V& t, const V& ys, const V& fs, Rng& r, const std::string& tx) {
  V n, d;
  if (!dense(c.first, n, tx, "canonical form") || !dense(c.second, d, tx, "canonical form")) return;
  V rn(1, a.back()), rd(1, 1);
  for (size_t k = a.size() - 1; k-- > 0;) { V nn = plus(times(V(1, a[k]), rn), times(V{(P - t[k]) % P, 1}, rd)); rd = rn; rn = nn; }
  auto probe = [&](uint64_t y) {
    bool reg; uint64_t v = cf(a, t, y, reg);
    uint64_t N = ev(n, y), D = ev(d, y);
    if (mul(N, ev(rd, y)) != mul(ev(rn, y), D)) { fail("canonical form", str("at ", y, " is ", N, "/", D, " instead of ", ev(rn, y), "/", ev(rd, y), "; ", tx)); return; }
    if (!reg) return;
    if (D == 0) { fail("canonical form", str("denominator vanishes at ", y, "; ", tx)); return; }
    if (dv(N, D) != v) fail("canonical form", str("value at ", y, " is ", dv(N, D), " instead of ", v, "; ", tx));
  };
  for (size_t i = 0; i < ys.size(); ++i) probe(ys[i]);
  for (int i = 0; i < 3; ++i) probe(r() % P);
  (void)fs;
}
static void thiele(Rng& r, size_t maxn, int kind) {
  // data: a rational function, random values, values with repetitions, few distinct values
  V num, den; size_t dn = r.below(maxn / 2 + 1), dd = r.below(maxn / 2 + 1);
  for (size_t i = 0; i <= dn; ++i) num.push_back(coef(r));
  for (size_t i = 0; i <= dd; ++i) den.push_back(coef(r));
  den.back() = 1 + r.below(P - 1);
  if (r.below(3) == 0 && den.size() > 1) den[0] = 0;
  bool small = r.coin();
  V ys, fs; std::set<uint64_t> in;
  uint64_t start = r() % P;
  while (ys.size() < maxn + 2) {
    uint64_t y = small ? add(start, ys.size() + in.size()) : r.below(4) ? r() % P : r.below(60) % P;
    if (!in.insert(y).second) { if (in.size() + 4 > P) return; small = true; start = r() % P; continue; }
    uint64_t f;
    if (kind <= 1) { uint64_t b = ev(den, y); if (!b) { if (r.below(30) == 0) return; continue; } f = dv(ev(num, y), b); if (kind == 1 && r.below(5) == 0) f = coef(r); }
    else if (kind == 2) f = coef(r);
    else if (kind == 3) f = r.below(3);
    else f = (ys.size() / (1 + maxn / 4)) % 3; // long runs of equal values
    ys.push_back(y); fs.push_back(f);
  }
  std::string tx = str("p=", P, " y:", list(ys), " f:", list(fs));
  cur() = tx;
  mark("ThieleInterpolator", hash(tx));
  ThieleInterpolator it;
  V a, t; bool done = false;
  for (size_t i = 0; i < ys.size() && !done; ++i) {
    bool expect = false, reg;
    if (i > 0) expect = cf(a, t, ys[i], reg) == fs[i];
    t.push_back(ys[i]);
    if (!expect) { uint64_t v = fs[i]; for (size_t k = 0; k + 1 < t.size(); ++k) v = dv(sub(ys[i], t[k]), sub(v, a[k])); a.push_back(v); }
    ThieleInterpolator saved = it, moved;
    int path = (int)r.below(5);
    if (path == 1) { saved = it; moved = std::move(saved); }
    if (path == 2) { ThieleInterpolator x(it); moved = x; x.add_point(FFInt(1), FFInt(ys[i])); }
    if (path == 3) { ThieleInterpolator x(it); ThieleInterpolator z(std::move(x)); moved = z; }
    bool got = path == 0 || path == 4 ? it.add_point(FFInt(fs[i]), FFInt(ys[i])) : moved.add_point(FFInt(fs[i]), FFInt(ys[i]));
    if (path >= 1 && path <= 3) { if (it.ai.size() + 1 == t.size()) {} it = moved; }
    if (got != expect) { fail("add_point", str("point ", i, " reported ", got ? "completion" : "no completion", " although the interpolation takes the value ", i ? (expect ? "sampled" : "different from the sampled one") : "", "; ", tx)); return; }
    done = got;
    // every accepted point is reproduced
    if (it.ai.empty()) { fail("add_point", str("no coefficient after point ", i, "; ", tx)); return; }
    for (size_t j = 0; j + (done ? 0 : 0) <= i; ++j) {
      uint64_t v = it.comp_fyi(it.ai.size() - 1, FFInt(ys[j])).n;
      if (v != fs[j]) { fail("value at an accepted point", str("after ", i + 1, " points the value at ", ys[j], " is ", v, " instead of ", fs[j], "; ", tx)); return; }
    }
    if (!done && (i < 5 || r.below(4) == 0)) { ThieleInterpolator c(it); canonical(c.construct_canonical(), a, t, V(ys.begin(), ys.begin() + i + 1), fs, r, tx); }
  }
  if (done) {
    V tt(t.begin(), t.end() - 1);
    canonical(it.get_result(), a, tt, V(ys.begin(), ys.begin() + t.size()), fs, r, tx);
    // the state is still that of the accepted points: a further point that is reproduced completes again
    { bool reg; uint64_t y = t.back(), v = cf(a, tt, y, reg); if (!it.add_point(FFInt(v), FFInt(y))) fail("add_point", str("no completion when the last point is repeated after get_result; ", tx)); }
  } else if (kind == 0 && dn <= 1 && dd == 0 && ys.size() > 6) fail("add_point", str("a polynomial of degree ", dn, " is never completed; ", tx));
}
// two interpolators with related data: assignment, copies and moves carry the whole state
static void pairs(Rng& r) {
  V a[2], t[2], f[2]; ThieleInterpolator it[2];
  size_t n = 1 + r.below(5); int kind = (int)r.below(3);
  std::string tx = str("p=", P, " two interpolators");
  for (int w = 0; w < 2; ++w) {
    size_t nn = kind == 2 ? 1 + r.below(5) : n;
    for (size_t i = 0; i < nn; ++i) {
      // kind 0: same coefficients at shifted points; kind 1: same points, other values; kind 2: unrelated
      uint64_t y = kind == 0 && w ? add(t[0][i], 7) : kind == 1 && w ? t[0][i] : (r() % P);
      uint64_t v = kind == 0 && w ? f[0][i] : r.below(4) ? r() % P : i;
      if (std::find(t[w].begin(), t[w].end(), y) != t[w].end()) return;
      bool reg; if (i && cf(a[w], t[w], y, reg) == v) return;
      t[w].push_back(y); f[w].push_back(v);
      for (size_t k = 0; k < i; ++k) v = dv(sub(y, t[w][k]), sub(v, a[w][k]));
      a[w].push_back(v);
      it[w].add_point(FFInt(f[w][i]), FFInt(y));
    }
    tx += str(" y:", list(t[w]), " f:", list(f[w]));
  }
  cur() = tx;
  mark("assignment", hash(tx));
  ThieleInterpolator x = it[0];
  int how = (int)r.below(4);
  if (how == 0) x = it[1];
  else if (how == 1) { ThieleInterpolator y(it[1]); x = std::move(y); }
  else if (how == 2) { x = it[1]; x = *&x; }
  else { ThieleInterpolator y(it[1]); ThieleInterpolator z(std::move(y)); x = z; }
  for (int k = 0; k < 2; ++k) {
    uint64_t y = r() % P; bool reg; if (std::find(t[1].begin(), t[1].end(), y) != t[1].end()) return;
    ThieleInterpolator c(x);
    if (!c.add_point(FFInt(cf(a[1], t[1], y, reg)), FFInt(y))) { fail("assignment", str("the assigned interpolator differs at ", y, "; ", tx)); return; }
    canonical(c.get_result(), a[1], t[1], t[1], f[1], r, tx);
  }
}
static void powers(Rng& r) {
  // the same anchor under two primes, orders in any sequence
  static PolyReconst rec(3);
  V b; for (int i = 0; i < 3; ++i) b.push_back(i && r.coin() ? b[0] : 2 + r() % 90);
  rec.private_anchor_points.clear(); for (auto x : b) rec.private_anchor_points.emplace_back(FFInt(x));
  uint32_t o = (uint32_t)r.below(40);
  for (int i = 0; i < 12; ++i) {
    uint32_t z = 1 + (uint32_t)r.below(3);
    o = r.below(3) ? o + 1 : (uint32_t)r.below(300);
    if (r.below(4) == 0) { uint64_t q = primes()[r.below(3)]; FFInt::set_new_prime(q); P = q; for (int k = 0; k < 3; ++k) rec.private_anchor_points[k] = FFInt(b[k]); }
    mark("get_rand_zi", hash(str(b[z - 1], o, P)));
    cur() = str("p=", P, " anchor ", b[z - 1], " order ", o);
    uint64_t v = rec.get_rand_zi(z, o).n;
    if (v != powmod(b[z - 1], o, P)) { fail("get_rand_zi", str("p=", P, " anchor ", b[z - 1], " order ", o, ": ", v)); return; }
    std::vector<uint32_t> os; for (int k = 0; k < 3; ++k) os.push_back((uint32_t)r.below(50));
    rec.n = 3; auto all = rec.get_rand_zi_vec(os);
    for (int k = 0; k < 3; ++k) if (all.size() != 3 || all[k].n != powmod(b[k], os[k], P)) { fail("get_rand_zi_vec", cur()); return; }
  }
}
static void newton(Rng& r, size_t m) {
  uint32_t n = 1 + (uint32_t)r.below(4), zi = 1 + (uint32_t)r.below(n);
  PolyReconst rec(n);
  V b; for (uint32_t i = 0; i < n; ++i) b.push_back(2 + (r.below(4) ? r() % (P - 2) : r.below(20)));
  rec.private_anchor_points.clear(); for (auto x : b) rec.private_anchor_points.emplace_back(FFInt(x));
  rec.zi = zi; rec.n = n;
  uint64_t base = b[zi - 1];
  V nodes; uint64_t w = base; std::set<uint64_t> in;
  for (size_t i = 0; i < m; ++i) { if (!in.insert(w).second) break; nodes.push_back(w); w = mul(w, base); }
  if (nodes.empty()) return;
  V f, pol; for (size_t i = 0; i <= r.below(m + 1); ++i) pol.push_back(coef(r));
  int kind = (int)r.below(3);
  for (size_t i = 0; i < nodes.size(); ++i) f.push_back(kind == 0 ? ev(pol, nodes[i]) : kind == 1 ? coef(r) : r.below(2));
  std::string tx = str("p=", P, " n=", n, " zi=", zi, " base=", base, " values:", list(f));
  cur() = tx;
  mark("PolyReconst", hash(tx));
  std::vector<FFInt> ai;
  for (size_t i = 0; i < nodes.size(); ++i) {
    if (rec.get_rand_zi(zi, i + 1).n != nodes[i]) { fail("get_rand_zi", str("node ", i, "; ", tx)); return; }
    std::vector<FFInt> a2 = ai; if (r.coin()) a2.emplace_back(FFInt(r() % P)); // entries beyond the order are not used
    ai.emplace_back(rec.comp_ai((int)i, FFInt(f[i]), r.below(3) ? ai : a2));
    if (i > 6 && i + 1 < nodes.size() && r.below(5)) continue;
    V c;
    ff_map can = rec.construct_canonical(ai);
    if (!dense(can, c, tx, "construct_canonical")) return;
    if (c.size() > ai.size()) { for (size_t k = ai.size(); k < c.size(); ++k) if (c[k]) fail("construct_canonical", str("degree ", k, " from ", ai.size(), " points; ", tx)); }
    for (size_t j = 0; j <= i; ++j) if (ev(c, nodes[j]) != f[j]) { fail("construct_canonical", str("from ", i + 1, " points: value at node ", j, " is ", ev(c, nodes[j]), " instead of ", f[j], "; ", tx)); return; }
    std::vector<uint32_t> deg(n, 0); for (uint32_t k = 0; k + 1 < zi; ++k) deg[k] = r.below(5);
    ff_map tm = rec.construct_tmp_canonical(deg, ai);
    V tc;
    for (const auto& e : tm) {
      if (e.first.size() != n) { fail("construct_tmp_canonical", str("exponent vector of length ", e.first.size(), "; ", tx)); return; }
      for (uint32_t k = 0; k < n; ++k) if (k + 1 != zi && e.first[k] != (k + 1 < zi ? deg[k] : 0)) { fail("construct_tmp_canonical", str("exponent ", k, " is ", e.first[k], "; ", tx)); return; }
      uint32_t d = e.first[zi - 1];
      if (d > 4000) { fail("construct_tmp_canonical", str("exponent ", d, "; ", tx)); return; }
      if (tc.size() <= d) tc.resize(d + 1, 0);
      tc[d] = e.second.n;
    }
    for (size_t j = 0; j <= i; ++j) if (ev(tc, nodes[j]) != f[j]) { fail("construct_tmp_canonical", str("from ", i + 1, " points: value at node ", j, " is ", ev(tc, nodes[j]), " instead of ", f[j], "; ", tx)); return; }
  }
  for (const auto& e : rec.construct_canonical(std::vector<FFInt>())) if (e.second.n) fail("construct_canonical", "without coefficients is not zero");
}
static bool inside = true;
static void leave() { if (inside) { fail("stops the process", "on " + cur()); finish(); fflush(stdout); _Exit(3); } }
static void hang(int) { fail("does not end", "on " + cur()); finish(); fflush(stdout); _Exit(3); }
#include <csignal>
int main() {
  Clock c(budget(6));
  Rng r(11);
  sample("p=9223372036854775783 y: 1 2 3 4, f of (y+1)/(y^2+5)"); mark("start", 0); fails(); nfail(); cur();
  std::atexit(leave);
  signal(SIGALRM, hang);
  const auto& ps = primes();
  uint64_t rounds = 0;
  while ((c.left() || rounds < 6) && nfail() < 30) {
    alarm(60);
    P = ps[r.below(ps.size())];
    if (rounds % 7 == 3) P = 2147483647;
    if (rounds % 5 == 4) P = 1009;
    if (rounds % 11 == 5) P = 101; // small field: coincidences of values are frequent
    FFInt::set_new_prime(P);
    for (size_t m = 1; m <= 20; ++m) { for (int k = 0; k < 5; ++k) thiele(r, m, k); newton(r, m); newton(r, m); pairs(r); pairs(r); powers(r); FFInt::set_new_prime(P); }
    for (int k = 0; k < 5; ++k) if (P > 1000) thiele(r, 21 + r.below(20), k);
    if (P > 1000) newton(r, 21 + r.below(40));
    ++rounds;
  }
  inside = false;
  return finish();
}
