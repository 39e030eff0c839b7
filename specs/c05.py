"""C05: rational reconstruction (contracts on get_rational_coef and get_rational_coef_mqrr in utils.cpp)."""
from common import CORE
from cxx2why import FSpec, Loop
USE = ["int.ComputerDivision as C", "number.Divisibility", "number.Gcd", "rat.Rat", "ratrec.Complete"]
N, D = "rationalnumber_numerator", "rationalnumber_denominator"
RN, RD = "result.second." + N, "result.second." + D
LAT = ["r * abs newt + newr * abs t = p", "t * newt <= 0", "newt <> 0", "0 <= newr < r", "divides p (r - a * t)", "divides p (newr - a * newt)"]
CTOR = FSpec("RationalNumber::RationalNumber(mpz,mpz)", ["n", "d"], ["d <> 0"],
             ["canon result.%s result.%s" % (N, D), "same result.%s result.%s n d" % (N, D), "canon n d -> result.%s = n /\\ result.%s = d" % (N, D)], use=["rat.Rat", "number.Gcd"], exit="reduce n d;")
U = [CTOR,
     FSpec("get_rational_coef(mpz,mpz)", ["a", "p"], ["0 <= a < p", "C.mod p 2 = 1"],
           ["canon %s %s" % (RN, RD),
            "result.first -> small_fraction a p %s %s" % (RN, RD),
            "forall n d. small_fraction a p n d -> result.first /\\ %s = n /\\ %s = d" % (RN, RD)],
           use=USE,
           loops={0: Loop(LAT + ["p < 2 * (r * r)"], "newr",
                          before="assert { p >= 1 }; assert { p < 2 * (p * p) };",
                          begin="euclid_step p a r t newr newt (C.div r newr); let ghost onr = newr in",
                          end="assert { r = onr };",
                          after="""assert { (2 * newt) * newt = 2 * (newt * newt) }; assert { 2 * (newr * newr) <= p };
small_unique p r t newr newt a;
let ghost good = (2 * newt) * newt <= p && gcd newr newt = 1 in
assert { good /\\ newt > 0 -> canon newr newt /\\ small_fraction a p newr newt };
assert { good /\\ newt < 0 -> canon (- newr) (- newt) /\\ small_fraction a p (- newr) (- newt) /\\ abs newt = - newt };
assert { forall n d. small_fraction a p n d -> good };""")},
           entry="", exit="")]
T0 = "(1024 * sizeinbase p 2)"
BEST = "d <> 0 -> divides p (n - u * d) /\\ 0 <= n /\\ n * abs d * tt <= p /\\ tt > %s" % T0
U.append(FSpec("get_rational_coef_mqrr(mpz,mpz)", ["u", "p"], ["0 <= u < p"],
           ["canon %s %s" % (RN, RD),
            "result.first -> quotient_fraction p u %s %s %s" % (RN, RD, T0)],
           use=USE, entry="if u = 0 then assert { divides p (0 - u * 1) };",
           loops={0: Loop(["lattice p r0 t0 r1 t1 u", BEST.replace("tt", "v_T"), "v_T >= " + T0], "r1",
                          before="assert { divides p (p - u * 0) }; assert { divides p (u - u * 1) };",
                          begin="if r1 > 0 then mqrr_step p u r0 t0 r1 t1 (C.div r0 r1);",
                          after="if d <> 0 then mqrr_exit p u n d v_T %s;" % T0)}))
GROUPS = [dict(unit="u_utils.cpp", specs=U)]
FACTS = ["lean/RatRec.lean"]
HARNESS = [dict(src="c05.cpp", repo=CORE, budget=(6, 60))]
NOTE = "Proof of soundness and completeness for every odd modulus and every residue of any size; the lattice argument behind completeness is a Lean 4/Mathlib theorem, the loop invariants connect the code to it. Assumed: GMP's documented integer semantics."
