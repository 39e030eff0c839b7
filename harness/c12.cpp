// C12: every evaluation mode of ShuntingYardParser against an independent evaluation of the reverse Polish notation (128-bit integers).
#include "vh.hpp"
#include "firefly/FFInt.hpp"
#include "firefly/FFIntVec.hpp"
#include "firefly/ReconstHelper.hpp"
#include "firefly/ShuntingYardParser.hpp"
#include <csignal>
#include <unistd.h>
using namespace firefly;
using namespace vh;
typedef std::vector<std::string> Toks;
typedef std::vector<uint64_t> Vals;
static std::vector<std::string> VARS;
static std::string in_now;
static void died(int s) { printf("FAIL crash :: evaluation %s on %s\n", s == SIGALRM ? "does not stop" : "stops the process", in_now.c_str()); fflush(stdout); _Exit(3); }
static bool inside = false;
static void leave() { if (inside) { fail("stops the process", "on " + in_now); finish(); fflush(stdout); _Exit(3); } }
static std::string text(const Toks& t) { std::string s; for (size_t i = 0; i < t.size(); ++i) { if (i == 40) { s += " ..."; break; } s += (i ? " " : "") + t[i]; } return s; }
static std::string text(const Vals& v) { std::string s; for (size_t i = 0; i < v.size() && i < VARS.size(); ++i) s += (i ? "," : "") + VARS[i] + "=" + str(v[i]); return s; }
static bool isop(const std::string& t) { return t.size() == 1 && std::string("+-*/^!~;").find(t[0]) != std::string::npos; }
// what the notation denotes; false: division by zero (no value)
static bool denote(const Toks& ts, const Vals& v, uint64_t P, uint64_t& out) {
  std::vector<uint64_t> st;
  for (auto& t : ts) {
    if (isop(t)) {
      if (st.size() < 2) return false;
      uint64_t a = st.back(); st.pop_back(); uint64_t& x = st.back();
      switch (t[0]) {
        case '+': x = (uint64_t)(((u128)x + a) % P); break;
        case '-': x = (uint64_t)(((u128)x + P - a) % P); break;
        case '*': x = mulmod(x, a, P); break;
        case '/': if (!a) return false; x = mulmod(x, invmod(a, P), P); break;
        case '^': x = powmod(x, a, P); break;
        case '!': x = powmod(x, a, P); x = x ? P - x : 0; break;
        default: if (a > 2147483647u || (!x && a)) return false; if (a) x = powmod(invmod(x, P), a, P); else x = 1 % P; if (t[0] == ';') x = x ? P - x : 0; break;
      }
      continue;
    }
    std::string s = t; bool neg = false;
    if (s[0] == '-' || s[0] == '+') { neg = s[0] == '-'; s.erase(0, 1); }
    uint64_t val = 0; bool found = false;
    for (size_t i = 0; i < VARS.size(); ++i) if (VARS[i] == s) { val = v[i]; found = true; }
    if (!found) { for (char c : s) { if (c < '0' || c > '9') return false; val = (uint64_t)(((u128)val * 10 + (c - '0')) % P); } if (s.empty()) return false; }
    st.push_back(neg && val ? P - val : val);
  }
  if (st.size() != 1) return false;
  out = st[0]; return true;
}
static std::string number(Rng& r) {
  switch (r.below(9)) {
    case 0: return str(r.below(4)); case 1: case 2: case 3: return str(1 + r.below(30)); case 4: return str(r.below(1000000));
    case 5: { std::string s = str(1 + r.below(9)); size_t n = 14 + r.below(5); while (s.size() < n) s += (char)('0' + r.below(10)); return s; }
    case 6: { std::string s = str(1 + r.below(9)); size_t n = 17 + r.below(40); while (s.size() < n) s += (char)('0' + r.below(10)); return s; }
    case 7: { const auto& ps = primes(); uint64_t p = ps[r.below(3)]; return str(p + r.below(5) - 2); }
    default: return "00" + str(1 + r.below(30));
  }
}
static std::string leaf(Rng& r) {
  std::string s = r.below(5) < 2 ? number(r) : VARS[r.below(VARS.size())];
  switch (r.below(6)) { case 0: return "-" + s; case 1: return "+" + s; default: return s; }
}
static void gen(Rng& r, int size, Toks& t) {
  if (size <= 1) { t.push_back(leaf(r)); return; }
  static const char* ops[] = {"+", "-", "*", "/", "/", "^", "!", "~", ";"};
  std::string o = ops[r.below(9)];
  if (o == "^" || o == "!" || o == "~" || o == ";") { gen(r, size - 1, t); t.push_back(r.below(8) ? str(r.below(r.coin() ? 5 : 40)) : str(r.below(1000000))); }
  else {
    int a = o == "/" && r.coin() ? 1 : 1 + (int)r.below(size - 1);   // many quotients by constants and of constants
    gen(r, size - a, t);
    if (o == "/" && r.below(3)) { t.push_back(number(r)); if (r.below(5) == 0) t.back() = "-" + t.back(); if (r.below(3) == 0) { t.push_back(number(r)); t.push_back("/"); if (r.below(3) == 0) { t.push_back(number(r)); t.push_back("/"); } } }
    else gen(r, a, t);
  }
  t.push_back(o);
}
static Vals point(Rng& r, uint64_t P) { Vals v(VARS.size()); for (auto& x : v) switch (r.below(5)) { case 0: x = r.below(4) % P; break; case 1: x = (P - 1 - r.below(3)) % P; break; default: x = r() % P; } return v; }
static Vals anypoint(Rng& r, uint64_t P) { Vals v(VARS.size()); for (auto& x : v) x = 5 % P + r() % (P - 5 % P); return v; }
static std::vector<FFInt> ff(const Vals& v) { std::vector<FFInt> w; for (auto x : v) { FFInt f; f.n = x; w.push_back(f); } return w; }
static void compare(const char* mode, const std::vector<FFInt>& got, const std::vector<Toks>& want, const Vals& v, uint64_t P, const std::string& how) {
  if (got.size() != want.size()) { fail(mode, str("returns ", got.size(), " values for ", want.size(), " expressions, ", how)); return; }
  for (size_t i = 0; i < want.size(); ++i) {
    uint64_t w;
    if (!denote(want[i], v, P, w)) continue;
    mark(mode, hash(str(i, P, text(want[i]), text(v))));
    if (got[i].n != w) { fail(mode, str("value ", got[i].n, " instead of ", w, " for expression ", i, " [", text(want[i]), "] at ", text(v), " modulo ", P, "; ", how)); return; }
  }
}
template<int N> static void bunch(ShuntingYardParser& s, const std::vector<Toks>& want, Rng& r, uint64_t P, const std::string& how, bool strs, bool safe) {
  std::vector<Vals> vs; for (int l = 0; l < N; ++l) vs.push_back(safe ? anypoint(r, P) : point(r, P));
  // a lane with a vanishing denominator spoils nothing but itself
  for (int l = 0; l < N; ++l) for (auto& t : want) { uint64_t w; for (int k = 0; k < 50 && !denote(t, vs[l], P, w); ++k) vs[l] = anypoint(r, P); }
  for (auto& t : want) for (int l = 0; l < N; ++l) { uint64_t w; if (!denote(t, vs[l], P, w)) return; }
  std::vector<FFIntVec<N>> in(VARS.size());
  for (size_t i = 0; i < VARS.size(); ++i) for (int l = 0; l < N; ++l) in[i].vec[l].n = vs[l][i];
  auto look = [&](const char* mode, const std::vector<FFIntVec<N>>& got) { for (int l = 0; l < N; ++l) { std::vector<FFInt> g; for (auto& x : got) g.push_back(x.vec[l]); compare(mode, g, want, vs[l], P, str("lane ", l, " of ", N, ", ", how)); } };
  look("evaluate_pre (bunch)", s.evaluate_pre(in));
  look("evaluate_pre_2 (bunch)", s.evaluate_pre_2(in));
  if (strs) look("evaluate (bunch)", s.evaluate(in));
}
// exponents '^' and '~' of bunches are taken per bunch: the same exponent in every lane (number tokens), which gen() guarantees
static void modes(ShuntingYardParser& s, const std::vector<Toks>& want, Rng& r, bool strs, bool safe, const std::string& how) {
  uint64_t P = FFInt::p;
  in_now = how; alarm(20);
  for (int k = 0; k < 2; ++k) {
    Vals v = safe ? anypoint(r, P) : point(r, P); auto w = ff(v);
    for (auto& t : want) { uint64_t o; for (int j = 0; j < 50 && !denote(t, v, P, o); ++j) v = anypoint(r, P); }
    w = ff(v);
    in_now = str(how, " at ", text(v), " modulo ", P);
    compare("evaluate_pre", s.evaluate_pre(w), want, v, P, how);
    compare("evaluate_pre_2", s.evaluate_pre_2(w), want, v, P, how);
    if (strs) compare("evaluate", s.evaluate(w), want, v, P, how);
  }
  switch (r.below(5)) { case 0: bunch<16>(s, want, r, P, how, strs, safe); break; case 1: bunch<2>(s, want, r, P, how, strs, safe); break; case 2: bunch<4>(s, want, r, P, how, strs, safe); break; case 3: bunch<8>(s, want, r, P, how, strs, safe); break; default: break; }
  alarm(0);
}
static uint64_t field(Rng& r, bool small) { const auto& ps = primes(); if (small && r.below(4) == 0) return r.coin() ? 2147483647u : 1000003u; return ps[r.below(r.coin() ? 4 : ps.size())]; }
// no constant subexpression of the notation is singular in this field
static bool fits(const std::vector<Toks>& fs, Rng& r, uint64_t P) { for (auto& t : fs) { uint64_t o; bool ok = false; for (int k = 0; k < 3 && !ok; ++k) ok = denote(t, anypoint(r, P), P, o); if (!ok) return false; } return true; }
static std::vector<Toks> some(Rng& r, size_t n, int size) {
  std::vector<Toks> f;
  while (f.size() < n) { Toks t; gen(r, 1 + r.below(size), t); bool ok = true; for (uint64_t p : {primes()[0], primes()[1], primes()[2], primes()[3], (uint64_t)2147483647, (uint64_t)1000003}) ok = ok && fits({t}, r, p); if (ok) f.push_back(t); }
  return f;
}
static std::string list(const std::vector<Toks>& f) { std::string s; for (size_t i = 0; i < f.size(); ++i) { if (s.size() > 600) { s += " ..."; break; } s += str(i ? " | " : "", text(f[i])); } return s; }
static void to(uint64_t p) { FFInt::set_new_prime(p); }
// a parser holding reverse Polish notation, moved through several fields
static void from_rpn(Rng& r, size_t n, int size) {
  auto f = some(r, n, size);
  uint64_t p = field(r, true); if (!fits(f, r, p)) return; to(p);
  ShuntingYardParser s; { std::string x = VARS[0]; ShuntingYardParser q(std::vector<std::string>(), VARS); s = q; }
  std::string how = str("added as RPN modulo ", p, ": ", list(f));
  in_now = how;
  for (auto& t : f) s.add_otf_precompute(t);
  modes(s, f, r, false, false, how);
  s.precompute_tokens();
  uint64_t first = p;
  for (int k = 0; k < 3; ++k) {
    p = k == 2 ? first : field(r, true); if (!fits(f, r, p)) break;
    to(p); s.precompute_tokens(); how += str(", then modulo ", p);
    if (r.below(3) == 0) s.precompute_tokens();
    modes(s, f, r, false, false, how);
    if (r.coin()) { Toks t = some(r, 1, size)[0]; if (fits({t}, r, p)) { s.add_otf_precompute(t); f.push_back(t); how += ", then added " + text(t); modes(s, f, r, false, false, how); if (!fits(f, r, first)) break; } }
    if (r.below(3) == 0 && f.size() > 1) {
      std::unordered_set<size_t> keep; std::vector<Toks> g; for (size_t i = 0; i < f.size(); ++i) if (r.coin()) { keep.insert(i); g.push_back(f[i]); }
      if (g.empty()) { keep.insert(0); g.push_back(f[0]); }
      auto pos = s.trim(keep); how += str(", then trimmed to ", g.size());
      size_t c = 0; for (size_t i = 0; i < f.size(); ++i) if (keep.count(i)) { if (!pos.count(i) || pos[i] != c) fail("trim", str("element ", i, " reported at position ", pos.count(i) ? str(pos[i]) : "(none)", " instead of ", c, "; ", how)); ++c; }
      if (pos.size() != g.size()) fail("trim", "reports elements which were removed; " + how);
      f = g; modes(s, f, r, false, false, how);
    }
  }
}
// infix text in the accepted grammar; the notation is what the parser reports
static std::string infix(Rng& r, int size) {
  if (size <= 1) { std::string s = r.below(5) < 2 ? number(r) : VARS[r.below(VARS.size())]; return r.below(8) == 0 ? "(-" + s + ")" : s; }
  switch (r.below(8)) {
    case 0: return "(" + infix(r, size - 1) + ")^" + str(r.below(9));
    case 1: return VARS[r.below(VARS.size())] + "^" + str(r.below(30)) + (r.coin() ? "*" : "+") + infix(r, size - 1);
    case 2: return VARS[r.below(VARS.size())] + "^(-" + str(1 + r.below(9)) + ")" + (r.coin() ? "*" : "-") + infix(r, size - 1);
    case 3: return infix(r, size - 1) + "/" + str(2 + r.below(50));
    case 4: return str(1 + r.below(50)) + "/" + str(2 + r.below(50)) + "*" + infix(r, size - 1);
    default: { int a = 1 + (int)r.below(size - 1); const char* o[] = {"+", "-", "*", "/"}; return "(" + infix(r, size - a) + ")" + o[r.below(4)] + "(" + infix(r, a) + ")"; }
  }
}
static void from_text(Rng& r, size_t n, int size, bool check, bool keep) {
  std::vector<std::string> src; std::vector<Toks> f;
  const auto& ps = primes();
  uint64_t p = ps[r.below(4)]; to(p);
  in_now = "parsing";
  while (src.size() < n) {
    std::string e = r.below(4) == 0 && !src.empty() ? src[r.below(src.size())] : infix(r, 1 + r.below(size));   // repetitions
    if (r.below(6) == 0) e = "-" + e;
    std::string tmp = e; ShuntingYardParser one; in_now = "parsing " + e; one.parse_function(tmp, VARS, true);
    Toks t = one.get_rp_function(0); bool ok = true; for (uint64_t q : {ps[0], ps[1], ps[2], ps[3], ps[4]}) ok = ok && fits({t}, r, q);
    if (!ok) continue;
    // the same function in another form: duplicates are found by value
    if (check && r.below(4) == 0) { src.push_back(e); f.push_back(t); e = "(" + e + ")+0"; tmp = e; ShuntingYardParser two; two.parse_function(tmp, VARS, true); t = two.get_rp_function(0); if (!fits({t}, r, p)) continue; }
    src.push_back(e); f.push_back(t);
  }
  std::string how = str(check ? "looking for equal functions, " : "", keep ? "keeping the RPN, " : "", "modulo ", p, ": "); for (size_t i = 0; i < src.size() && how.size() < 700; ++i) how += (i ? " ; " : "") + src[i];
  in_now = how;
  ShuntingYardParser s(src, VARS, check, keep);
  if (FFInt::p != p) { fail("modulus", "parsing leaves another modulus behind: " + how); to(p); }
  modes(s, f, r, keep, check, how);
  uint64_t first = p;
  for (int k = 0; k < 3; ++k) {
    p = k == 2 ? first : ps[r.below(5)];
    to(p); s.precompute_tokens(keep && r.below(4) == 0); how += str(", then modulo ", p);
    modes(s, f, r, keep, check, how);
    if (keep && r.below(3) == 0) {
      std::string e = infix(r, 1 + r.below(size)); if (r.below(3) == 0) e = src[r.below(src.size())];
      std::string tmp = e; ShuntingYardParser one; one.parse_function(tmp, VARS, true); Toks t = one.get_rp_function(0);
      bool ok = true; for (uint64_t q : {ps[0], ps[1], ps[2], ps[3], ps[4]}) ok = ok && fits({t}, r, q);
      if (ok) {
        how += ", then added " + e; in_now = how; tmp = e; s.add_otf(tmp);
        if (FFInt::p != p) { fail("modulus", "add_otf leaves another modulus behind: " + how); to(p); }
        s.precompute_tokens(true); src.push_back(e); f.push_back(t);
        modes(s, f, r, keep, check, how);
      }
    }
    if (r.below(3) == 0 && f.size() > 1) {
      std::unordered_set<size_t> kept; std::vector<Toks> g; std::vector<std::string> h; for (size_t i = 0; i < f.size(); ++i) if (r.below(3)) { kept.insert(i); g.push_back(f[i]); h.push_back(src[i]); }
      if (g.empty()) continue;
      in_now = how + ", trimming";
      auto pos = s.trim(kept); how += ", then trimmed to"; for (auto i : kept) how += str(" ", i);
      size_t c = 0; for (size_t i = 0; i < f.size(); ++i) if (kept.count(i)) { if (!pos.count(i) || pos[i] != c) fail("trim", str("element ", i, " reported at position ", pos.count(i) ? str(pos[i]) : "(none)", " instead of ", c, "; ", how)); ++c; }
      f = g; src = h; modes(s, f, r, keep, check, how);
    }
  }
}
int main() {
  Clock c(budget(6));
  Rng r(12);
  sample("x 1 3 / / modulo 9223372036854775783, then modulo 9223372036854775643"); mark("start", 0); fails(); nfail(); cur();
  std::atexit(leave); std::signal(SIGSEGV, died); std::signal(SIGABRT, died); std::signal(SIGFPE, died); std::signal(SIGALRM, died);
  std::cerr.setstate(std::ios::failbit); std::cout.setstate(std::ios::failbit);
  uint64_t rounds = 0;
  inside = true;
  while ((c.left() || rounds < 12) && nfail() < 30) {
    switch (rounds % 4) { case 0: VARS = {"x"}; break; case 1: VARS = {"x", "y"}; break; case 2: VARS = {"x", "y1", "zz"}; break; default: VARS = {"abcdefghij", "s", "t2", "S", "longvariable16ch"}; }
    for (int k = 0; k < 20; ++k) from_rpn(r, 1 + r.below(4), 1 + r.below(10));
    from_rpn(r, 2, 60);
    for (int k = 0; k < 3; ++k) for (int m = 0; m < 4; ++m) from_text(r, 1 + r.below(6), 1 + r.below(8), m & 1, m & 2);
    ++rounds;
  }
  inside = false;
  return finish();
}
