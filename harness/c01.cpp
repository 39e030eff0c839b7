// C01: every FFInt operation against __int128 / GMP, for small, medium and 63-bit prime moduli.
#include "vh.hpp"
#include "firefly/FFInt.hpp"
#include "firefly/ReconstHelper.hpp"
using namespace firefly;
using namespace vh;

static const uint64_t PR[] = {9223372036854775783ull, 9223372036854775643ull, 9223372036854775549ull, 4611686018427388039ull,
  4611686018427387847ull, 2305843009213693951ull, 18014398509481951ull, 4294967311ull, 4294967291ull, 2147483647ull, 65537, 257, 101, 13, 7, 5, 3};

static uint64_t elem(Rng& r, uint64_t p) {
  switch (r.below(6)) {
    case 0: return r.below(5) % p;
    case 1: return p - 1 - r.below(5) % p;
    case 2: return (p / 2 + r.below(5)) % p;
    case 3: { uint64_t x = r.word(); return x % p; }
    default: return r() % p;
  }
}

#define EXPECT(key, got, want, ...) do { mark(key, hash(str(__VA_ARGS__))); \
  if (!((got) == (want))) fail(key, str(__VA_ARGS__, ": got ", got, " expected ", want)); } while (0)

static void binary(uint64_t p, uint64_t a, uint64_t b) {
  const FFInt A(a), B(b);
  const uint64_t sum = (uint64_t)(((u128)a + b) % p), dif = (uint64_t)(((u128)a + p - b) % p), prod = mulmod(a, b, p);
  const uint64_t quo = b ? mulmod(a, invmod(b, p), p) : 0;
  EXPECT("operator+", (A + B).n, sum, "p=", p, " a=", a, " b=", b);
  EXPECT("operator-", (A - B).n, dif, "p=", p, " a=", a, " b=", b);
  EXPECT("operator*", (A * B).n, prod, "p=", p, " a=", a, " b=", b);
  EXPECT("operator/", (A / B).n, quo, "p=", p, " a=", a, " b=", b);
  { FFInt x(A); FFInt& y = (x += B); EXPECT("operator+=", y.n, sum, "p=", p, " a=", a, " b=", b); if (&x != &y) fail("operator+= returns *this", ""); }
  { FFInt x(A); FFInt& y = (x -= B); EXPECT("operator-=", y.n, dif, "p=", p, " a=", a, " b=", b); if (&x != &y) fail("operator-= returns *this", ""); }
  { FFInt x(A); FFInt& y = (x *= B); EXPECT("operator*=", y.n, prod, "p=", p, " a=", a, " b=", b); if (&x != &y) fail("operator*= returns *this", ""); }
  { FFInt x(A); FFInt& y = (x /= B); EXPECT("operator/=", y.n, quo, "p=", p, " a=", a, " b=", b); if (&x != &y) fail("operator/= returns *this", ""); }
  { FFInt x(A); x += x; EXPECT("operator+= aliased", x.n, (uint64_t)(((u128)a + a) % p), "p=", p, " a=", a); }
  { FFInt x(A); x -= x; EXPECT("operator-= aliased", x.n, 0u, "p=", p, " a=", a); }
  { FFInt x(A); x *= x; EXPECT("operator*= aliased", x.n, mulmod(a, a, p), "p=", p, " a=", a); }
  { FFInt x(A); x /= x; EXPECT("operator/= aliased", x.n, a ? 1u : 0u, "p=", p, " a=", a); }
  EXPECT("unary -", (-A).n, a ? p - a : 0, "p=", p, " a=", a);
  EXPECT("unary +", (+A).n, a, "p=", p, " a=", a);
  EXPECT("operator!", !A, a == 0, "p=", p, " a=", a);
  EXPECT("operator==", A == B, a == b, "p=", p, " a=", a, " b=", b);
  EXPECT("operator!=", A != B, a != b, "p=", p, " a=", a, " b=", b);
  EXPECT("operator<", A < B, a < b, "p=", p, " a=", a, " b=", b);
  EXPECT("operator<=", A <= B, a <= b, "p=", p, " a=", a, " b=", b);
  EXPECT("operator>", A > B, a > b, "p=", p, " a=", a, " b=", b);
  EXPECT("operator>=", A >= B, a >= b, "p=", p, " a=", a, " b=", b);
  EXPECT("operator<=reflexive", A <= A && A >= A && A == A && !(A < A) && !(A > A) && !(A != A), true, "p=", p, " a=", a);
  EXPECT("pow(FFInt)", A.pow(B).n, powmod(a, b, p), "p=", p, " a=", a, " e=", b);
  EXPECT("pow(x,FFInt)", pow(A, B).n, powmod(a, b, p), "p=", p, " a=", a, " e=", b);
  if (A.n != a || B.n != b) fail("operands unchanged", str("p=", p, " a=", a, " b=", b));
}

template<class T> static void integer(uint64_t p, uint64_t a, T e) {
  EXPECT("FFInt(integer)", FFInt(e).n, emod((i128)e, p), "p=", p, " n=", e, " size=", sizeof(T));
  const bool neg = e < 0;
#ifdef FLINT
  if (neg && a == 0) return;                 // FLINT aborts: 0 has no inverse
  if (!neg && (uint64_t)e >> 63) return;      // FLINT exponents are signed
#endif
  const FFInt A(a);
  const uint64_t mag = neg ? (uint64_t)0 - (uint64_t)e : (uint64_t)e;
  const uint64_t want = neg ? (a ? powmod(invmod(a, p), mag, p) : 0) : powmod(a, mag, p);
  EXPECT("pow(integer)", A.pow(e).n, want, "p=", p, " a=", a, " e=", e, " size=", sizeof(T));
  EXPECT("pow(x,integer)", pow(A, e).n, want, "p=", p, " a=", a, " e=", e, " size=", sizeof(T));
}

static void big(Rng& r, uint64_t p) {
  mpz_class z = 0;
  for (int i = r.below(4); i >= 0; --i) z = (z << 64) + zz(r.word());
  switch (r.below(4)) { case 0: z = zz(p) * z; break; case 1: z = zz(p) * z + (long)r.range(-2, 2); break; default: break; }
  if (r.coin()) z = -z;
  mpz_class w; mpz_fdiv_r(w.get_mpz_t(), z.get_mpz_t(), zz(p).get_mpz_t());
  EXPECT("FFInt(mpz)", FFInt(z).n, uu(w), "p=", p, " z=", z.get_str());
#ifdef FLINT
  if (p < 1000000000000000000ull) return;     // 63-bit primes only: FLINT's n_addmod wants reduced 18-digit chunks
#endif
  if (z >= 0) {
    std::vector<std::pair<std::string, uint64_t>> rep = {{"x", p}, {"y", p - 1}, {"zz", p + 1 + r.below(1000)}};
    EXPECT("FFInt(string)", FFInt(z.get_str(), rep).n, uu(w), "p=", p, " z=", z.get_str());
    EXPECT("FFInt(string) with leading zeros", FFInt("000" + z.get_str(), rep).n, uu(w), "p=", p, " z=", z.get_str());
    EXPECT("FFInt(replacement)", FFInt("x", rep).n, 0u, "p=", p);
    EXPECT("FFInt(replacement)", FFInt("y", rep).n, p - 1, "p=", p);
    EXPECT("FFInt(replacement)", FFInt("zz", rep).n, rep[2].second % p, "p=", p, " v=", rep[2].second);
  }
}

int main() {
  Clock c(budget(10));
  Rng r(1);
  sample("p=9223372036854775783 a=p-1 b=p-1: all binary operations, powers and comparisons against __int128");
  EXPECT("FFInt()", FFInt().n, 0u, "");
  // exhaustive for small primes
  for (uint64_t p : {3ull, 5ull, 7ull, 13ull, 101ull}) {
    FFInt::set_new_prime(p);
    for (uint64_t a = 0; a < p; ++a) {
      for (uint64_t b = 0; b < p; ++b) binary(p, a, b);
      for (int e = -20; e <= 20; ++e) { integer<int>(p, a, e); integer<long>(p, a, e); integer<short>(p, a, e); if (e >= 0) { integer<unsigned>(p, a, e); integer<unsigned long>(p, a, e); } }
    }
  }
  int round = 0;
  while (c.left() && nfail() < 1000) {
    // every 63-bit prime gets its own round in turn
    uint64_t p = round % 2 ? PR[r.below(sizeof(PR) / sizeof(PR[0]))] : primes()[r.below(primes().size())];
    ++round;
    FFInt::set_new_prime(p);
    for (int i = 0; i < 200; ++i) {
      uint64_t a = elem(r, p), b = elem(r, p);
      if (r.below(4) == 0) b = (p - a) % p;           // sums that hit the modulus
      if (i == 0) sample(str("p=", p, " a=", a, " b=", b));
      binary(p, a, b);
      uint64_t w = r.word();
      integer<int>(p, a, (int)w); integer<long>(p, a, (long)w); integer<unsigned>(p, a, (unsigned)w); integer<unsigned long>(p, a, w);
      integer<long long>(p, a, (long long)w); integer<short>(p, a, (short)w);
      int64_t k = (int64_t)(r.below(5)) ;
      i128 mult = (i128)p * (k - 2) + r.range(-1, 1);
      if (mult >= -(((i128)1) << 63) && mult < (((i128)1) << 63)) integer<long>(p, a, (long)mult);
      if (mult >= 0 && mult < (((i128)1) << 64)) integer<unsigned long>(p, a, (unsigned long)mult);
      integer<int>(p, a, r.range(-3, 3));
      big(r, p);
    }
    for (int v : {INT32_MIN, INT32_MAX}) integer<int>(p, elem(r, p), v);
    for (long v : {INT64_MIN, INT64_MAX}) integer<long>(p, elem(r, p), v);
  }
#ifndef FLINT
  // the modular helpers for arbitrary (also composite) moduli and unreduced operands
  Clock c2(budget(10) / 5);
  while (c2.left() && nfail() < 1000) {
    for (int i = 0; i < 200; ++i) {
      uint64_t m = r.word() >> 1; if (m < 2) m = 2;
      uint64_t a = r.word(), b = r.word();
      EXPECT("mod_mul", mod_mul(a, b, m), mulmod(a, b, m), "m=", m, " a=", a, " b=", b);
      EXPECT("mod_pow", mod_pow(a, b, m), powmod(a, b, m), "m=", m, " a=", a, " e=", b);
      mpz_class g, z; uint64_t x = a % m;
      mpz_gcd(g.get_mpz_t(), zz(x).get_mpz_t(), zz(m).get_mpz_t());
      if (x && g == 1) { mpz_invert(z.get_mpz_t(), zz(x).get_mpz_t(), zz(m).get_mpz_t()); EXPECT("mod_inv", mod_inv(x, m), uu(z), "m=", m, " a=", x); }
    }
  }
#endif
  return finish();
}
