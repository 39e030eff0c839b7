// Common part of the executable-contract harnesses: every case compares the real code of /repo with an
// independent oracle (GMP / __int128).  Deterministic in VERIF_SEED.
#pragma once
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <gmpxx.h>

namespace vh {
  inline uint64_t seed() { static uint64_t s = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), 0, 10) : 1; return s; }
  struct Rng {
    uint64_t s;
    Rng(uint64_t stream = 0) : s(seed() * 0x9E3779B97F4A7C15ull + stream * 0xD1B54A32D192ED03ull + 12345) {}
    uint64_t operator()() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? (*this)() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); }
    bool coin() { return (*this)() & 1; }
    // biased towards small numbers, powers of two and their neighbours
    uint64_t word() {
      switch (below(6)) {
        case 0: return below(17);
        case 1: { uint64_t x = 1ull << below(64); return x + below(3) - 1; }
        case 2: return ~0ull - below(17);
        case 3: return (*this)() >> below(64);
        case 4: return (1ull << 63) - 9 + below(19);
        default: return (*this)();
      }
    }
  };
  struct Fail { std::string key, what; };
  inline std::map<std::string, std::string>& fails() { static std::map<std::string, std::string> f; return f; }
  inline uint64_t& nfail() { static uint64_t n = 0; return n; }
  inline std::map<std::string, uint64_t>& groups() { static std::map<std::string, uint64_t> g; return g; }
  inline uint64_t& evals() { static uint64_t n = 0; return n; }
  inline std::unordered_set<uint64_t>& seen() { static std::unordered_set<uint64_t> s; return s; }
  inline std::vector<std::string>& samples() { static std::vector<std::string> s; return s; }
  inline std::string& cur() { static std::string s; return s; }
  inline uint64_t hash(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
  // one evaluated case: group, text of the input; ok = contract holds
  inline void mark(const std::string& group, uint64_t h) {
    ++evals(); ++groups()[group];
    if (seen().size() < 4000000) seen().insert(h ^ hash(group));
  }
  inline void sample(const std::string& s) { if (samples().size() < 12) samples().push_back(s); }
  inline void fail(const std::string& key, const std::string& what) {
    ++nfail();
    if (fails().size() < 40 && !fails().count(key)) { fails()[key] = what; printf("FAIL %s :: %s\n", key.c_str(), what.c_str()); fflush(stdout); }
  }
  template<class... A> std::string str(const A&... a) { std::ostringstream o; (void)std::initializer_list<int>{((o << a), 0)...}; return o.str(); }
  struct Clock {
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    double limit;
    Clock(double l) : limit(l) {}
    double el() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
    bool left() const { return el() < limit; }
  };
  inline double budget(double dflt) { const char* e = getenv("VH_BUDGET"); return e ? atof(e) : dflt; }
  inline std::string esc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
  inline int finish() {
    printf("RESULT {\"evaluations\": %llu, \"distinct\": %llu, \"nfail\": %llu, \"groups\": {", (unsigned long long)evals(), (unsigned long long)seen().size(), (unsigned long long)nfail());
    bool first = true;
    for (auto& g : groups()) { printf("%s\"%s\": %llu", first ? "" : ", ", esc(g.first).c_str(), (unsigned long long)g.second); first = false; }
    printf("}, \"samples\": [");
    first = true;
    for (auto& s : samples()) { printf("%s\"%s\"", first ? "" : ", ", esc(s).c_str()); first = false; }
    printf("]}\n");
    fflush(stdout);
    return nfail() ? 3 : 0;
  }
  typedef unsigned __int128 u128;
  typedef __int128 i128;
  inline uint64_t mulmod(uint64_t a, uint64_t b, uint64_t m) { return (uint64_t)((u128)a * b % m); }
  inline uint64_t powmod(uint64_t a, uint64_t e, uint64_t m) { uint64_t r = 1 % m; a %= m; while (e) { if (e & 1) r = mulmod(r, a, m); a = mulmod(a, a, m); e >>= 1; } return r; }
  inline mpz_class zz(uint64_t x) { return mpz_class(std::to_string(x)); }
  inline uint64_t uu(const mpz_class& z) { return strtoull(z.get_str().c_str(), 0, 10); }
  // inverse modulo a prime, independent of the extended Euclidean code under test
  inline uint64_t invmod(uint64_t a, uint64_t p) { return powmod(a, p - 2, p); }
  inline uint64_t emod(i128 x, uint64_t p) { i128 r = x % (i128)p; return (uint64_t)(r < 0 ? r + (i128)p : r); }
}
