// C16: the generators against independent implementations, and draws under small and large moduli.
#include "vh.hpp"
#include "firefly/BaseReconst.hpp"
#include "firefly/ReconstHelper.hpp"
using namespace firefly;
using namespace vh;
struct Ref {
  uint64_t st, s[4];
  static uint64_t rl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  void seed(uint64_t sd) {
    const uint64_t inc = 1442695040888963407ull;
    st = sd + inc; pcg();
    uint64_t z = sd + inc;
    for (int i = 0; i < 4; ++i) { uint64_t x = z; z += 0x9E3779B97f4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; s[i] = x ^ (x >> 31); }
  }
  uint32_t pcg() {
    uint64_t x = st; st = x * 6364136223846793005ull + 1442695040888963407ull;
    uint32_t c = x >> 59, y = (uint32_t)((x ^ (x >> 18)) >> 27);
    return c ? (y >> c) | (y << (32 - c)) : y;
  }
  uint64_t xo() {
    uint64_t r = rl(s[1] * 5, 7) * 9, t = s[1] << 17;
    uint64_t n[4] = {s[0] ^ s[1] ^ s[3], s[1] ^ s[2] ^ s[0], s[2] ^ s[0] ^ t, rl(s[3] ^ s[1], 45)};
    for (int i = 0; i < 4; ++i) s[i] = n[i];
    return r;
  }
};
int main() {
  Clock c(budget(6));
  Rng r(16);
  std::vector<uint64_t> ps = {3, 5, 7, 13, 101, 65537, 4294967291ull, 9223372036854775783ull};
  for (uint64_t p : primes()) ps.push_back(p);
  int k = 0;
  while (c.left() && nfail() < 50) {
    uint64_t p = ps[k++ % ps.size()], sd = k % 5 == 0 ? k / 5 : r.word();
    FFInt::set_new_prime(p);
    BaseReconst b; Ref f;
    b.set_seed(sd); f.seed(sd);
    std::string ctx = str("p=", p, " seed=", sd);
    if (k < 6) sample(ctx);
    int n = 60;
    for (int i = 0; i < n; ++i) {
      mark("get_rand_64", hash(str(ctx, "/", i)));
      FFInt x = r.coin() ? b.get_rand_64() : b.get_rand();
      uint64_t w; do w = f.xo() % p; while (!w);
      if (x.n != w) { fail("get_rand_64", str(ctx, " draw ", i, ": got ", x.n, " expected ", w)); break; }
      if (i % 3 == 0) {
        if (i == 30) { BaseReconst other; (void)other; }
        FFInt y = b.get_rand_32(); do w = f.pcg() % p; while (!w);
        if (y.n != w) { fail("get_rand_32", str(ctx, " draw ", i, ": got ", y.n, " expected ", w)); break; }
      }
    }
    // reset and reseeding restart the same sequence whatever was drawn before
    BaseReconst::reset();
    b.set_seed(sd); f.seed(sd);
    for (int i = 0; i < 5; ++i) { uint64_t w; do w = f.xo() % p; while (!w); if (b.get_rand_64().n != w) { fail("reseed", ctx); break; } }
  }
  return finish();
}
