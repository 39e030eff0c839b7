// C03: the list returned by the compiled primes(), checked with GMP's primality test.
#include "vh.hpp"
#include "firefly/ReconstHelper.hpp"
using namespace firefly;
using namespace vh;
int main() {
  const std::vector<uint64_t>& a = primes();
  std::vector<uint64_t> first(a.begin(), a.end());
  std::map<uint64_t, size_t> where;
  if (first.empty()) fail("primes()", "the table is empty");
  for (size_t i = 0; i < first.size(); ++i) {
    uint64_t p = first[i];
    mark("entry", p);
    sample(str(p));
    if (!mpz_probab_prime_p(zz(p).get_mpz_t(), 40)) fail(str("primes()[", i, "] prime"), str(p, " is composite"));
    if (p <= (1ull << 62) || p >= (1ull << 63)) fail(str("primes()[", i, "] range"), str(p));
    if (where.count(p)) fail(str("primes()[", i, "] repeats entry ", where[p]), str(p));
    where[p] = i;
  }
  for (int k = 0; k < 5; ++k) { std::vector<uint64_t> b(primes().begin(), primes().end()); mark("later call", k); if (b != first) fail("primes() later call", str("call ", k + 2, " returns another list")); }
  return finish();
}
