// C14: bunch sizes and job numbers, exhaustive for small arguments and random over all 32-bit ones.
#include "vh.hpp"
#include "firefly/utils.hpp"
using namespace firefly;
using namespace vh;
static void one(uint32_t q, uint32_t thr, uint32_t m, uint32_t n) {
  std::string in = str("queue=", q, " threads=", thr, " max=", m, " n=", n);
  mark("compute_bunch_size", ((uint64_t)q << 32 | thr) ^ ((uint64_t)m << 17));
  uint32_t b = compute_bunch_size(q, thr, m);
  if (b == 0 || b > m || b > q || (b & (b - 1))) fail("compute_bunch_size", str(in, ": got ", b));
  if (b == 0) return;
  if (n <= 100000) {
    mark("compute_job_number", ((uint64_t)q << 32 | thr) ^ ((uint64_t)m << 17) ^ n * 7919ull);
    uint32_t j = compute_job_number(q, n, thr, m);
    if (j < 1 || j > q) fail("compute_job_number", str(in, ": got ", j));
    // each of the n threads takes one bunch of the remaining queue
    uint32_t rest = q;
    for (uint32_t i = 0; i < n && rest; ++i) rest -= std::min(rest, compute_bunch_size(rest, thr, m));
    if (j != q - rest) fail("compute_job_number total", str(in, ": got ", j, " expected ", q - rest));
  }
}
int main() {
  Clock c(budget(8));
  Rng r(14);
  sample("queue=3000000000 threads=1 max=8 n=1");
  for (uint32_t q = 1; q <= 70; ++q) for (uint32_t t = 1; t <= 40; ++t) for (uint32_t m = 1; m <= 64; m *= 2) one(q, t, m, 1 + (q * t) % 5);
  while (c.left() && nfail() < 100) for (int i = 0; i < 1000; ++i) {
    uint32_t q = (uint32_t)r.word(), t = (uint32_t)(r.coin() ? r.below(129) : r.word()), m = 1u << r.below(32);
    if (!q || !t) continue;
    one(q, t, m, 1 + r.below(r.coin() ? 40 : 1000));
    uint32_t k = 1u << r.below(32); one(k, t, m, 3); if (k > 1) one(k - 1, t, m, 3); one(k + 1, t, m, 3);
  }
  return finish();
}
