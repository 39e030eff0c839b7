// C04: Chinese remaindering against GMP arithmetic.
#include "vh.hpp"
#include "firefly/utils.hpp"
using namespace firefly;
using namespace vh;
static mpz_class big(Rng& r, int bits) { mpz_class z = 0; for (int i = 0; i < bits; i += 60) z = (z << 60) + zz(r() >> 4); int over = mpz_sizeinbase(z.get_mpz_t(), 2) - bits; if (over > 0) z >>= over; return z; }
static void one(const mpz_class& a1, const mpz_class& m1, const mpz_class& a2, const mpz_class& m2) {
  std::string in = str(a1, " mod ", m1, ", ", a2, " mod ", m2);
  cur() = in;
  mark("run_chinese_remainder", hash(in));
  std::pair<mpz_class, mpz_class> r = run_chinese_remainder(std::make_pair(a1, m1), std::make_pair(a2, m2));
  mpz_class d1 = r.first - a1, d2 = r.first - a2;
  if (r.second != m1 * m2) fail("modulus", str(in, ": got modulus ", r.second));
  else if (!mpz_divisible_p(d1.get_mpz_t(), m1.get_mpz_t()) || !mpz_divisible_p(d2.get_mpz_t(), m2.get_mpz_t())) fail("congruence", str(in, ": got ", r.first));
  else if (a1 >= 0 && a2 >= 0 && (r.first < 0 || r.first >= r.second)) fail("canonical", str(in, ": got ", r.first, " modulo ", r.second));
}
int main() {
  Clock c(budget(6));
  Rng r(4);
  for (int m1 = 1; m1 < 24; ++m1) for (int m2 = 1; m2 < 24; ++m2) {
    if (gcd(mpz_class(m1), mpz_class(m2)) != 1) continue;
    for (int a1 = 0; a1 < m1; ++a1) for (int a2 = 0; a2 < m2; ++a2) one(a1, m1, a2, m2);
    one(-1, m1, -1, m2); one(-m1, m1, m2 - 1, m2);
  }
  sample("3 mod 7, 4 mod 11");
  while (c.left() && nfail() < 40) for (int i = 0; i < 200; ++i) {
    mpz_class m1 = big(r, 1 + r.below(i % 4 ? 200 : 4000)) + 1, m2 = big(r, 1 + r.below(i % 4 ? 130 : 64)) + 1;
    if (i % 3 == 0) { mpz_nextprime(m2.get_mpz_t(), mpz_class(m2 >> (i % 5)).get_mpz_t()); }
    if (gcd(m1, m2) != 1) continue;
    mpz_class a1 = big(r, 4100) % m1, a2 = big(r, 300) % m2;
    switch (r.below(8)) { case 0: a1 = 0; break; case 1: a2 = 0; break; case 2: a1 = m1 - 1; break; case 3: a2 = m2 - 1; break; case 4: a1 = r.below(5); a1 %= m1; a2 = a1 % m2; break; case 5: a1 = m1 - 1; a2 = m2 - 1; break; }
    one(a1, m1, a2, m2);
    one(a2, m2, a1, m1);
  }
  return finish();
}
