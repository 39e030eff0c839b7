"""C06: exact rational numbers (contracts on RationalNumber.cpp and the coefficient side of Monomial.cpp)."""
from common import CORE
from cxx2why import FSpec, Loop
USE = ["rat.Rat", "number.Gcd"]
U = []
N, D = "rationalnumber_numerator", "rationalnumber_denominator"
C = lambda x: "canon %s.%s %s.%s" % (x, N, x, D)
nn, dd = (lambda x: "%s.%s" % (x, N)), (lambda x: "%s.%s" % (x, D))
ON, OD = "(old %s)" % nn("this"), "(old %s)" % dd("this")
U.append(FSpec("RationalNumber::RationalNumber(mpz,mpz)", ["n", "d"], ["d <> 0"],
               [C("result"), "same %s %s n d" % (nn("result"), dd("result")), "canon n d -> %s = n /\\ %s = d" % (nn("result"), dd("result"))], use=USE,
               exit="reduce n d;"))
U.append(FSpec("RationalNumber::operator*(RationalNumber)", ["rn"], [C("this"), C("rn")],
               [C("result"), "same %s %s (%s * %s) (%s * %s)" % (nn("result"), dd("result"), nn("(old this)"), nn("rn"), dd("(old this)"), dd("rn")), "this = old this"], use=USE, alias={"rn": "this"}))
RED = "reduce %s %s;"
for o, num in (("+=", "({0} * {3} + {2} * {1})"), ("-=", "({0} * {3} - {2} * {1})"), ("*=", "({0} * {2})")):
    v = num.format(ON, OD, nn("rn"), dd("rn"))
    U.append(FSpec("RationalNumber::operator%s(RationalNumber)" % o, ["rn"], [C("this"), C("rn")],
                   [C("this"), "same %s %s %s (%s * %s)" % (nn("this"), dd("this"), v, OD, dd("rn"))], use=USE, alias={"rn": "this"}))
U.append(FSpec("RationalNumber::operator-()", [], [C("this")], [C("result"), "same %s %s (- %s) %s" % (nn("result"), dd("result"), nn("this"), dd("this"))], use=USE))
U.append(FSpec("RationalNumber::operator==(RationalNumber)", ["b"], [C("this"), C("b")],
               ["result <-> same %s %s %s %s" % (nn("this"), dd("this"), nn("b"), dd("b"))], use=USE))
U.append(FSpec("gcd(RationalNumber,RationalNumber)", ["a", "b"], [C("a"), C("b")],
               [C("result"), "same {0} {1} (gcd ({2} * {5}) ({4} * {3})) ({3} * {5})".format(nn("result"), dd("result"), nn("a"), dd("a"), nn("b"), dd("b"))], use=USE))
MC = lambda x: C(x + ".monomial_coef")
mp = lambda x: x + ".monomial_powers"
U.append(FSpec("Monomial::Monomial(vec<u32>,RationalNumber)", ["pw", "cf"], [], ["result.monomial_powers = pw", "result.monomial_coef = cf"], use=USE))
U.append(FSpec("Monomial::operator*(Monomial)", ["b"],
               [MC("this"), MC("b"), "length this.monomial_powers = length b.monomial_powers", "length this.monomial_powers < 4294967296",
                "forall i. 0 <= i < length this.monomial_powers -> this.monomial_powers[i] + b.monomial_powers[i] < 4294967296"],
               [MC("result"), "same {0} {1} ({2} * {4}) ({3} * {5})".format(nn("result.monomial_coef"), dd("result.monomial_coef"), nn("(old this).monomial_coef"), dd("(old this).monomial_coef"), nn("b.monomial_coef"), dd("b.monomial_coef")),
                "this = old this", "length result.monomial_powers = length this.monomial_powers",
                "forall i. 0 <= i < length this.monomial_powers -> result.monomial_powers[i] = this.monomial_powers[i] + b.monomial_powers[i]"], use=USE, alias={"b": "this"},
               loops={0: Loop(["0 <= i <= length this.monomial_powers", "length a.monomial_powers = length this.monomial_powers", "this = old this",
                               "forall k. 0 <= k < i -> a.monomial_powers[k] = this.monomial_powers[k] + b.monomial_powers[k]",
                               "forall k. i <= k < length this.monomial_powers -> a.monomial_powers[k] = this.monomial_powers[k]",
                               "a.monomial_coef = coef0"], "length this.monomial_powers - i", before="let ghost coef0 = a.monomial_coef in")}))
U.append(FSpec("Monomial::operator-()", [], [MC("this")],
               [MC("result"), "same %s %s (- %s) %s" % (nn("result.monomial_coef"), dd("result.monomial_coef"), nn("this.monomial_coef"), dd("this.monomial_coef")), "result.monomial_powers = this.monomial_powers"], use=USE))
GROUPS = [dict(unit="u_rat.cpp", specs=U)]
FACTS = ["lean/RatRec.lean"]
HARNESS = [dict(src="c06.cpp", repo=["RationalNumber.cpp", "Monomial.cpp"], budget=(6, 60))]
NOTE = "Proof for all numerators and nonzero denominators of any size (operators on reduced operands, including aliased operands); uniqueness of lowest terms is a Lean 4/Mathlib theorem. Assumed: GMP's documented integer semantics."
