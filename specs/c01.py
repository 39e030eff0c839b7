"""C01: field arithmetic (contracts on source/FFInt.cpp and FFInt.hpp)."""
from cxx2why import FSpec, Loop

UNIT = "ffint.cpp"
GOODP = "ffmod.Mod.good_modulus ffint_p"
USE = ["ffmod.Mod"]
D, F = [], []
M = D


def S(*a, **k):
    k.setdefault("use", USE)
    only = k.pop("only", None)
    s = FSpec(*a, **k)
    if only in (None, "default"):
        D.append(s)
    if only in (None, "flint"):
        # the FLINT build keeps the precomputed inverse of the modulus next to it
        k = dict(k)
        f = FSpec(*a, **k)
        if any("ffint_p" in r for r in f.requires):
            f.requires.append("ffint_p_inv = preinv ffint_p")
        F.append(f)
    return s


def SD(*a, **k):
    return S(*a, only="default", **k)


def SF(*a, **k):
    return S(*a, only="flint", **k)


P = "good_modulus ffint_p"
CAN = lambda x: "0 <= %s.ffint_n < ffint_p" % x

SD("mod_mul(u64,u64,u64)", ["a", "b", "m"], ["1 <= m < 9223372036854775808"], ["result = mod (a * b) m"],
  use=USE + ["ldquot.Quot", "ffmod.Wrap"],
  exit="""if init_a < m then mod_small init_a m; if init_b < m then mod_small init_b m;
assert { a = mod init_a m /\\ b = mod init_b m };
assert { 0 <= a < m /\\ 0 <= b < m };
let ghost gp = a * b in let ghost gq = c * m in
assert { - m < gp - gq < 9223372036854775808 };
wrap_diff gp gq;
assert { mod (gp - gq) m = if r >= 0 then r else r + m };
mod_add_mult r 1 m; if r >= 0 then mod_small r m else mod_small (r + m) m;
mulmod_adjust init_a init_b m c r;""")
SD("mod_pow(u64,u64,u64)", ["base", "exp", "m"], ["2 <= m < 9223372036854775808"], ["result = mod (power base exp) m"],
  use=USE + ["int.Power"],
  loops={0: Loop(["0 <= res < m", "mod (res * power base exp) m = mod (power init_base init_exp) m"], "exp", begin="pow_step res base exp m;")})
SD("mod_inv(u64,u64)", ["a", "m"], ["2 <= m < 9223372036854775808", "0 <= a < m", "a = 0 \\/ gcd a m = 1"],
  ["0 <= result < m", "a <> 0 -> mod (result * a) m = 1", "a = 0 -> result = 0"],
  use=USE + ["number.Gcd", "ffmod.Wrap"],
  loops={0: Loop(["0 <= newr < r <= m", "t * newt <= 0", "abs t * newr + abs newt * r = m", "abs t < m", "abs newt <= m",
                  "t * a + gs * m = r", "newt * a + gn * m = newr", "gcd r newr = gcd m a", "a = 0 -> t = 0"], "newr",
         before="let ghost ref gs = 1 in let ghost ref gn = 0 in",
         begin="let ghost ot = t in let ghost on = newt in let ghost orr = r in let ghost onr = newr in let ghost oq = div r newr in "
               "euclid_cofactor t newt oq r newr m; assert { 0 <= r - oq * newr < newr }; euclid_bound (abs newt) (r - oq * newr) (abs (t - oq * newt)) newr m; euclid_bound (abs t) newr (abs newt) r m; wrap_msub t oq newt;",
         end="let ghost og = gs in gs <- gn; gn <- og - oq * gn; assert { q = oq }; assert { newt = ot - oq * on }; assert { newr = orr - oq * onr };"
             "assert { gcd r newr = gcd orr onr };")},
  exit="assert { a <> 0 -> r = 1 }; mod_add_mult (t * a) gs m; mod_add_mult (t * a) (gs + a) m; mod_small 1 m; mod_add_mult 1 (- gs) m; mod_add_mult 1 (a - gs) m; assert { (t + m) * a = t * a + a * m }; assert { a <> 0 -> t * a = 1 + (- gs) * m }; assert { a <> 0 -> (t + m) * a = 1 + (a - gs) * m };")

N = ["result.ffint_n = mod %s ffint_p"]
for T in ("i32", "i64", "u32", "u64"):
    S("FFInt::FFInt(%s)" % T, ["n_"], [P], [N[0] % "n_"], use=USE + ["ffmod.Laws"])
S("FFInt::FFInt()", [], [], ["result.ffint_n = 0"])
S("FFInt::FFInt(FFInt)", ["x"], [], ["result = x"])
S("FFInt::FFInt(mpz)", ["x"], [P], [N[0] % "x"], use=USE + ["ffmod.Laws"])
TWO = [P, CAN("a"), CAN("b")]
S("operator+(FFInt,FFInt)", ["a", "b"], TWO, ["result.ffint_n = mod (a.ffint_n + b.ffint_n) ffint_p"])
S("operator-(FFInt,FFInt)", ["a", "b"], TWO, ["result.ffint_n = mod (a.ffint_n - b.ffint_n) ffint_p"])
S("operator*(FFInt,FFInt)", ["a", "b"], TWO, ["result.ffint_n = mod (a.ffint_n * b.ffint_n) ffint_p"])
DIV = lambda r, a, b: ["0 <= %s.ffint_n < ffint_p" % r, "%s.ffint_n = 0 -> %s.ffint_n = 0" % (b, r),
                       "%s.ffint_n <> 0 -> mod (%s.ffint_n * %s.ffint_n) ffint_p = %s.ffint_n" % (b, r, b, a)]
S("operator/(FFInt,FFInt)", ["a", "b"], TWO, DIV("result", "a", "b"), use=USE + ["ffmod.Laws"])
for o, f in (("+", "+"), ("-", "-"), ("*", "*")):
    S("FFInt::operator%s=(FFInt)" % o, ["x"], [P, CAN("this"), CAN("x")],
      ["this.ffint_n = mod (old this.ffint_n %s old x.ffint_n) ffint_p" % f], alias={"x": "this"}, use=USE + ["ffmod.Laws"])
S("FFInt::operator/=(FFInt)", ["x"], [P, CAN("this"), CAN("x")],
  ["0 <= this.ffint_n < ffint_p", "old x.ffint_n = 0 -> this.ffint_n = 0",
   "old x.ffint_n <> 0 -> mod (this.ffint_n * old x.ffint_n) ffint_p = old this.ffint_n"], alias={"x": "this"}, use=USE + ["ffmod.Laws"])
S("FFInt::operator-()", [], [P, CAN("this")], ["result.ffint_n = mod (- this.ffint_n) ffint_p"])
S("FFInt::operator+()", [], [P, CAN("this")], ["result = this"])
S("FFInt::operator!()", [], [], ["result <-> this.ffint_n = 0"])
for o, f in (("==", "="), ("!=", "<>"), ("<", "<"), ("<=", "<="), (">", ">"), (">=", ">=")):
    S("operator%s(FFInt,FFInt)" % o, ["a", "b"], [], ["result <-> a.ffint_n %s b.ffint_n" % f])
S("FFInt::pow(FFInt)", ["e"], [P, CAN("this"), CAN("e")], ["result.ffint_n = mod (power this.ffint_n e.ffint_n) ffint_p"], use=USE + ["ffmod.Laws"])
S("pow(FFInt,FFInt)", ["x", "e"], [P, CAN("x"), CAN("e")], ["result.ffint_n = mod (power x.ffint_n e.ffint_n) ffint_p"], use=USE + ["ffmod.Laws"])
for T in ("i32", "i64", "u32", "u64"):
    neg = (["e < 0 /\\ this.ffint_n <> 0 -> mod (result.ffint_n * power this.ffint_n (- e)) ffint_p = 1",
            "e < 0 /\\ this.ffint_n = 0 -> result.ffint_n = 0"] if T[0] == "i" else [])
    pos = ["0 <= result.ffint_n < ffint_p", "e >= 0 -> result.ffint_n = mod (power this.ffint_n e) ffint_p"]
    SD("FFInt::pow(%s)" % T, ["e"], [P, CAN("this")], pos + neg, use=USE + ["ffmod.Laws"])
    SF("FFInt::pow(%s)" % T, ["e"], [P, CAN("this"), "e < 9223372036854775808", "e < 0 -> this.ffint_n <> 0"], pos + neg, use=USE + ["ffmod.Laws"])
S("FFInt::to_neg_int()", [], [CAN("this"), "this.ffint_n <= 2147483647"], ["result = - this.ffint_n"])
SD("FFInt::set_new_prime(u64)", ["q"], [], ["ffint_p = q"], writes=["ffint_p"])
SF("FFInt::set_new_prime(u64)", ["q"], ["q > 0"], ["ffint_p = q", "ffint_p_inv = preinv q"], writes=["ffint_p", "ffint_p_inv"])

GROUPS = [dict(unit="ffint.cpp", backend="default", specs=D), dict(unit="ffint.cpp", backend="flint", specs=F)]
FACTS = ["coq/LdQuot.v", "lean/Facts.lean"]
HARNESS = [dict(src="c01.cpp", repo=["FFInt.cpp", "ReconstHelper.cpp"], backend=b, budget=(12, 120)) for b in ("default", "flint")]
BOUNDED = ["FFInt::FFInt(string, replacements)", "FFInt::parse_longint(string)"]
NOTE = ("Proof for every odd prime modulus below 2^63 and all operands, both arithmetic back ends, from the source compiled now; the long double quotient of mod_mul is covered by a Coq/Flocq rounding proof, "
        "Fermat's little theorem by Mathlib. Assumed: the documented contracts of FLINT's n_* routines and of GMP, x87 long double conversions and operations round to nearest. Bounded only: decimal string parsing (istringstream).")
ASSUMPTIONS = ["FLINT's n_mulmod2_preinv, n_powmod2_preinv, n_invmod, n_addmod, n_preinvert_limb meet their documentation (theories/flint.mlw); n_invmod(0) aborts, and FLINT exponents are signed: FLINT claims exclude 0 to a negative power and uint64 exponents >= 2^63",
               "x87 80-bit long double with round-to-nearest-even (x86-64 SysV ABI)",
               "std::to_string / std::stoull / mpz_class string conversions as documented"]
