// C05: rational reconstruction, exhaustive for small moduli, constructed fractions for big ones.
#include "vh.hpp"
#include "firefly/utils.hpp"
using namespace firefly;
using namespace vh;
static mpz_class big(Rng& r, int bits) { mpz_class z = 0; for (int i = 0; i < bits; i += 60) z = (z << 60) + zz(r() >> 4); int over = mpz_sizeinbase(z.get_mpz_t(), 2) - bits; if (over > 0) z >>= over; return z; }
static bool reduced(const RationalNumber& x) { return x.denominator > 0 && gcd(x.numerator, x.denominator) == 1; }
static bool cong(const mpz_class& a, const mpz_class& p, const RationalNumber& x) { mpz_class z = x.numerator - a * x.denominator; return mpz_divisible_p(z.get_mpz_t(), p.get_mpz_t()) != 0; }
static void sound(const mpz_class& a, const mpz_class& p, std::pair<bool, RationalNumber>& r, const std::string& in) {
  mark("get_rational_coef", hash(in));
  r = get_rational_coef(a, p);
  if (!r.first) return;
  const RationalNumber& x = r.second;
  if (!reduced(x)) fail("get_rational_coef reduced", str(in, ": got ", x.numerator, "/", x.denominator));
  if (!cong(a, p, x)) fail("get_rational_coef congruence", str(in, ": got ", x.numerator, "/", x.denominator));
  if (2 * x.numerator * x.numerator > p || 2 * x.denominator * x.denominator > p) fail("get_rational_coef bound", str(in, ": got ", x.numerator, "/", x.denominator));
}
static void complete(const mpz_class& n, const mpz_class& d, const mpz_class& a, const mpz_class& p, const std::string& in) {
  std::pair<bool, RationalNumber> r;
  sound(a, p, r, in);
  if (!r.first || r.second.numerator != n || r.second.denominator != d) fail("get_rational_coef completeness", str(in, ": expected ", n, "/", d, " got ", r.first ? "" : "failure ", r.second.numerator, "/", r.second.denominator));
}
static void mqrr(const mpz_class& a, const mpz_class& p, const std::string& in) {
  mark("get_rational_coef_mqrr", hash(in));
  std::pair<bool, RationalNumber> r = get_rational_coef_mqrr(a, p);
  if (!r.first) return;
  const RationalNumber& x = r.second;
  if (!reduced(x)) fail("mqrr reduced", str(in, ": got ", x.numerator, "/", x.denominator));
  if (!cong(a, p, x)) fail("mqrr congruence", str(in, ": got ", x.numerator, "/", x.denominator));
  mpz_class T = 1024 * mpz_sizeinbase(p.get_mpz_t(), 2) + 1;
  if (abs(x.numerator) * x.denominator * T > p) fail("mqrr certificate", str(in, ": got ", x.numerator, "/", x.denominator));
}
int main() {
  Clock c(budget(7));
  Rng r(5);
  sample("a=4 p=7"); sample("1/3 modulo 2^61-1");
  for (int p = 1; p < 260; p += 2) {
    std::vector<std::pair<int, int>> want(p, {0, 0});
    for (int d = 1; 2 * d * d <= p; ++d) for (int n = -16; n <= 16; ++n) if (2 * n * n <= p && gcd(mpz_class(n), mpz_class(d)) == 1)
      for (int a = 0; a < p; ++a) if ((n - a * d) % p == 0) want[a] = {n, d};
    for (int a = 0; a < p; ++a) {
      std::string in = str("a=", a, " p=", p);
      std::pair<bool, RationalNumber> res;
      if (want[a].second) complete(want[a].first, want[a].second, a, p, in); else sound(a, p, res, in);
      mqrr(a, p, in);
    }
  }
  while (c.left() && nfail() < 40) for (int i = 0; i < 300; ++i) {
    int bits = 3 + r.below(i % 5 ? 140 : 1500);
    mpz_class p = 2 * big(r, bits) + 1;
    if (i % 2) mpz_nextprime(p.get_mpz_t(), p.get_mpz_t());
    if (p % 2 == 0) continue;
    mpz_class lim; { mpz_class h = p / 2; mpz_sqrt(lim.get_mpz_t(), h.get_mpz_t()); }
    mpz_class n, d;
    switch (r.below(6)) {
      case 0: n = lim; d = lim - r.below(4); break;
      case 1: n = lim - r.below(4); d = lim; break;
      case 2: n = r.below(20); d = 1 + r.below(20); break;
      case 3: n = big(r, 1 + r.below(bits / 2 + 1)); d = big(r, 1 + r.below(bits / 2 + 1)) + 1; break;
      case 4: n = 1; d = lim; break;
      default: n = big(r, bits) % (lim + 1); d = big(r, bits) % (lim + 1) + 1;
    }
    if (r.coin()) n = -n;
    mpz_class inv, a;
    std::string in;
    if (d > 0 && abs(n) <= lim && d <= lim && gcd(n, d) == 1 && mpz_invert(inv.get_mpz_t(), d.get_mpz_t(), p.get_mpz_t())) {
      a = n * inv % p; if (a < 0) a += p;
      complete(n, d, a, p, str("a=", a, " p=", p));
      mqrr(a, p, str("a=", a, " p=", p));
    }
    a = big(r, bits + 8) % p;
    std::pair<bool, RationalNumber> res;
    sound(a, p, res, str("a=", a, " p=", p));
    mqrr(a, p, str("a=", a, " p=", p));
    if (i % 7 == 0) {
      // composite modulus: residues whose lattice vector has a common factor
      mpz_class f = 2 * r.below(i % 2 ? 50 : 1000000) + 3, g = p, inv, y = 1 + r.below(9), x = r.below(9);
      mpz_nextprime(g.get_mpz_t(), g.get_mpz_t());
      mpz_class fy = f * y;
      if (mpz_invert(inv.get_mpz_t(), fy.get_mpz_t(), g.get_mpz_t())) {
        if (r.coin()) x = -x;
        mpz_class s = x * inv % g; if (s < 0) s += g;
        a = f * s; mpz_class q = f * g;
        sound(a, q, res, str("a=", a, " p=", q)); mqrr(a, q, str("a=", a, " p=", q));
      }
    }
    if (i % 3 == 0) { a = 1 + r.below(6); a %= p; sound(a, p, res, str("a=", a, " p=", p)); a = p - a; a %= p; sound(a, p, res, str("a=", a, " p=", p)); mqrr(a, p, str("a=", a, " p=", p)); mqrr(0, p, str("a=0 p=", p)); }
  }
  return finish();
}
