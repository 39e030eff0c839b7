// C02: bunched field vectors against independent modular arithmetic (128-bit), lane by lane.
#include "vh.hpp"
#include "firefly/FFIntVec.hpp"
#include "firefly/ReconstHelper.hpp"
using namespace firefly;
using namespace vh;
static uint64_t P;
static uint64_t el(Rng& r) { switch (r.below(6)) { case 0: return r.below(4) % P; case 1: return P - 1 - r.below(3) % P; case 2: return 0; default: return r() % P; } }
static uint64_t add(uint64_t a, uint64_t b) { return (uint64_t)(((u128)a + b) % P); }
static uint64_t sub(uint64_t a, uint64_t b) { return (uint64_t)(((u128)a + P - b) % P); }
static uint64_t mul(uint64_t a, uint64_t b) { return mulmod(a, b, P); }
static uint64_t dvd(uint64_t a, uint64_t b) { return b ? mulmod(a, invmod(b, P), P) : 0; }
static uint64_t pw(uint64_t a, int64_t e) { if (e == 0) return 1 % P; if (!a) return 0; return e >= 0 ? powmod(a, e, P) : powmod(invmod(a, P), (uint64_t)(-(e + 1)) + 1, P); }
static uint64_t pwf(uint64_t a, uint64_t e) { if (e == 0) return 1 % P; return a ? powmod(a, e, P) : 0; }
template<int N> struct T {
  typedef std::vector<uint64_t> L;
  static std::string in(const L& a, const L& b, int64_t e) { std::string s = str("N=", N, " p=", P, " e=", e, " lanes (a,b):"); for (int i = 0; i < N && i < 8; ++i) s += str(" (", a[i], ",", b[i], ")"); return s; }
  template<class F> static void eq(const std::string& key, const FFIntVec<N>& x, F f, const L& a, const L& b, int64_t e = 0) {
    mark(key, hash(in(a, b, e)));
    for (int i = 0; i < N; ++i) { uint64_t w = f(i); if (x.vec[i].n != w) { fail(key, str("lane ", i, ": expected ", w, " got ", x.vec[i].n, "; ", in(a, b, e))); return; } }
  }
  static void one(Rng& r) {
    L a(N), b(N);
    for (int i = 0; i < N; ++i) { a[i] = el(r); b[i] = r.below(8) ? el(r) : a[i]; }
    uint64_t s = el(r);
    int64_t e = r.below(3) ? r.range(-9, 9) : (int64_t)(int32_t)r.word();
    cur() = in(a, b, e);
    std::array<FFInt, N> aa, ba;
    for (int i = 0; i < N; ++i) { aa[i] = FFInt(a[i]); ba[i] = FFInt(b[i]); }
    FFIntVec<N> x(aa), y(ba), z(x), d, k((FFInt(s)));
    FFInt fs(s);
    auto A = [&](int i) { return a[i]; };
    auto B = [&](int i) { return b[i]; };
    eq("constructor array", x, A, a, b); eq("constructor copy", z, A, a, b);
    eq("constructor default", d, [&](int) { return (uint64_t)0; }, a, b); eq("constructor scalar", k, [&](int) { return s; }, a, b);
    eq("operator+", x + y, [&](int i) { return add(a[i], b[i]); }, a, b);
    eq("operator-", x - y, [&](int i) { return sub(a[i], b[i]); }, a, b);
    eq("operator*", x * y, [&](int i) { return mul(a[i], b[i]); }, a, b);
    eq("operator/", x / y, [&](int i) { return dvd(a[i], b[i]); }, a, b);
    eq("vector + scalar", x + fs, [&](int i) { return add(a[i], s); }, a, b);
    eq("vector - scalar", x - fs, [&](int i) { return sub(a[i], s); }, a, b);
    eq("vector * scalar", x * fs, [&](int i) { return mul(a[i], s); }, a, b);
    eq("vector / scalar", x / fs, [&](int i) { return dvd(a[i], s); }, a, b);
    eq("scalar + vector", fs + x, [&](int i) { return add(a[i], s); }, a, b);
    eq("scalar - vector", fs - x, [&](int i) { return sub(s, a[i]); }, a, b);
    eq("scalar * vector", fs * x, [&](int i) { return mul(a[i], s); }, a, b);
    eq("scalar / vector", fs / x, [&](int i) { return dvd(s, a[i]); }, a, b);
    { FFIntVec<N> w(x); w += y; eq("operator+=", w, [&](int i) { return add(a[i], b[i]); }, a, b); w = x; w -= y; eq("operator-=", w, [&](int i) { return sub(a[i], b[i]); }, a, b);
      w = x; w *= y; eq("operator*=", w, [&](int i) { return mul(a[i], b[i]); }, a, b); w = x; w /= y; eq("operator/=", w, [&](int i) { return dvd(a[i], b[i]); }, a, b);
      w = x; w += w; eq("operator+= itself", w, [&](int i) { return add(a[i], a[i]); }, a, b); w = x; w -= w; eq("operator-= itself", w, [&](int) { return (uint64_t)0; }, a, b);
      w = x; w *= w; eq("operator*= itself", w, [&](int i) { return mul(a[i], a[i]); }, a, b); w = x; w /= w; eq("operator/= itself", w, [&](int i) { return dvd(a[i], a[i]); }, a, b); }
    eq("unary -", -x, [&](int i) { return sub(0, a[i]); }, a, b);
    eq("unary +", +x, A, a, b);
    if (r.below(4) == 0) {
      eq("pow(vector)", x.pow(y), [&](int i) { return pwf(a[i], b[i]); }, a, b);
      eq("pow(vector,vector)", pow(x, y), [&](int i) { return pwf(a[i], b[i]); }, a, b);
      eq("pow(scalar)", x.pow(fs), [&](int i) { return pwf(a[i], s); }, a, b);
      eq("pow(int)", x.pow((int)e), [&](int i) { return pw(a[i], (int)e); }, a, b, e);
      eq("pow(int64_t)", x.pow((int64_t)e), [&](int i) { return pw(a[i], e); }, a, b, e);
      std::vector<int> ev(N);
      for (int i = 0; i < N; ++i) ev[i] = (int)r.range(-20, 20);
      eq("pow(vector of int)", x.pow(ev), [&](int i) { return pw(a[i], ev[i]); }, a, b, e);
      for (int n : {N - 1, N + 1, 0}) { bool th = false; try { x.pow(std::vector<int>(n, 2)); } catch (std::out_of_range&) { th = true; } if (!th) fail("pow(vector of wrong length)", str("N=", N, " length=", n)); }
    }
    if ((x == y) != (a == b) || (x != y) != (a != b) || !(x == z) || (x != z)) fail("comparison", in(a, b, 0));
    eq("operand", x, A, a, b); eq("operand", y, B, a, b);
    if (x.size() != (size_t)N || (size_t)std::distance(x.begin(), x.end()) != (size_t)N) fail("size", str(N));
    for (int i = 0; i < N; ++i) { if (x[i].n != a[i]) fail("operator[]", in(a, b, 0)); }
    for (int i : {-2147483647 - 1, -1, 0, N - 2, N - 1, N, N + 1, 2147483647}) {
      bool ok = i >= 0 && i < N, th = false;
      uint64_t v = 0;
      if (!ok && (i < -1 || i > N)) { /* outside the object: only the exception is acceptable */ }
      try { v = x.at(i).n; } catch (std::out_of_range&) { th = true; }
      mark("at", i * 1000 + N);
      if (th == ok || (ok && v != a[i])) { fail("at", str("N=", N, " i=", i)); break; }
    }
    { FFIntVec<N> w(x); int q = (int)r.below(N); w[q] = FFInt(b[q]); eq("operator[] write", w, [&](int i) { return i == q ? b[i] : a[i]; }, a, b); }
  }
};
int main() {
  Clock c(budget(6));
  Rng r(2);
  sample("N=2 p=9223372036854775783 lanes (a,b): (5,3) (0,7)");
  const auto& ps = primes();
  uint64_t rounds = 0;
  while ((c.left() || rounds < 12) && nfail() < 40) {
    P = rounds % 3 == 0 ? ps[r.below(ps.size())] : ps[rounds % ps.size()];
    if (r.below(12) == 0) P = 2147483647;
    FFInt::set_new_prime(P);
    ++rounds;
    for (int k = 0; k < 24; ++k) { T<2>::one(r); T<4>::one(r); T<8>::one(r); }
    for (int k = 0; k < 4; ++k) { T<16>::one(r); T<32>::one(r); T<64>::one(r); T<128>::one(r); }
  }
  return finish();
}
