// C06: rational numbers against GMP's mpq_class.
#include "vh.hpp"
#include "firefly/RationalNumber.hpp"
#include "firefly/Monomial.hpp"
using namespace firefly;
using namespace vh;
static mpz_class num(Rng& r) {
  mpz_class z;
  switch (r.below(6)) { case 0: z = 0; break; case 1: z = r.below(13); break; case 2: z = zz(r()); break; case 3: z = zz(r()) * zz(r()) * zz(r()); break; case 4: z = mpz_class(1) << r.below(200); break; default: z = r.below(5000); }
  return r.coin() ? z : mpz_class(-z);
}
static void eq(const std::string& key, const RationalNumber& x, mpq_class q, const std::string& in) {
  q.canonicalize();
  mark(key, hash(in));
  if (x.denominator <= 0 || gcd(x.numerator, x.denominator) != 1) fail(key + " canonical", str(in, ": got ", x.numerator, "/", x.denominator));
  else if (x.numerator != q.get_num() || x.denominator != q.get_den()) fail(key + " value", str(in, ": expected ", q, " got ", x.numerator, "/", x.denominator));
}
static void one(const mpz_class& n1, const mpz_class& d1, const mpz_class& n2, const mpz_class& d2) {
  std::string in = str(n1, "/", d1, " , ", n2, "/", d2);
  cur() = in;
  mpq_class p(n1, d1), q(n2, d2);
  p.canonicalize(); q.canonicalize();
  RationalNumber x(n1, d1), y(n2, d2);
  eq("constructor", x, p, in);
  eq("constructor", y, q, in);
  eq("operator*", x * y, p * q, in);
  eq("operator* operand", x, p, in);
  eq("operator* operand", y, q, in);
  { RationalNumber z(x); z += y; eq("operator+=", z, p + q, in); }
  { RationalNumber z(x); z -= y; eq("operator-=", z, p - q, in); }
  { RationalNumber z(x); z *= y; eq("operator*=", z, p * q, in); }
  { RationalNumber z(x); z += z; eq("operator+= itself", z, p + p, in); }
  { RationalNumber z(x); z -= z; eq("operator-= itself", z, 0, in); }
  { RationalNumber z(x); z *= z; eq("operator*= itself", z, p * p, in); }
  { RationalNumber z(x); eq("operator* itself", z * z, p * p, in); eq("operator* itself operand", z, p, in); }
  eq("operator-", -x, -p, in);
  eq("operand", y, q, in);
  if ((x == y) != (p == q)) fail("operator==", in);
  if (!(x == RationalNumber(n1 * 3, d1 * 3)) || !(x == RationalNumber(-n1, -d1))) fail("operator== equal values", in);
  if (p != 0 || q != 0) { mpq_class g(gcd(p.get_num() * q.get_den(), q.get_num() * p.get_den()), p.get_den() * q.get_den()); eq("gcd", gcd(x, y), g, in); }
  std::vector<uint32_t> e1 = {1, 0, 7}, e2 = {0, 4000000000u, 3};
  Monomial a(e1, x), b(e2, y);
  Monomial m = a * b, ng = -a;
  eq("Monomial operator* coefficient", m.coef, p * q, in);
  eq("Monomial operator- coefficient", ng.coef, -p, in);
  eq("Monomial operator* operand", a.coef, p, in);
  if (m.powers != std::vector<uint32_t>({1, 4000000000u, 10}) || a.powers != e1 || b.powers != e2 || ng.powers != e1) fail("Monomial powers", in);
}
int main() {
  Clock c(budget(6));
  Rng r(6);
  sample("6/-4 , 1/2");
  for (int n1 = -6; n1 <= 6; ++n1) for (int d1 = -6; d1 <= 6; ++d1) for (int n2 = -6; n2 <= 6; ++n2) for (int d2 = -6; d2 <= 6; ++d2) if (d1 && d2) one(n1, d1, n2, d2);
  while (c.left() && nfail() < 40) for (int i = 0; i < 200; ++i) {
    mpz_class n1 = num(r), d1 = num(r), n2 = num(r), d2 = num(r);
    if (d1 == 0 || d2 == 0) continue;
    switch (r.below(5)) { case 0: d2 = d1; break; case 1: { mpz_class g = num(r); if (g != 0) { n1 *= g; d1 *= g; } } break; case 2: { mpz_class g = num(r); if (g != 0) { d1 *= g; d2 *= g; } } break; case 3: n2 = -n1; d2 = d1; break; }
    one(n1, d1, n2, d2);
  }
  return finish();
}
