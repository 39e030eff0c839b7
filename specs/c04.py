"""C04: Chinese remaindering (contract on run_chinese_remainder in utils.cpp)."""
from common import CORE
from cxx2why import FSpec, Loop
U = [FSpec("run_chinese_remainder(pair<mpz,mpz>,pair<mpz,mpz>)", ["p1", "p2"],
           ["p1.second > 0", "p2.second > 0", "gcd p1.second p2.second = 1"],
           ["result.second = p1.second * p2.second",
            "divides p1.second (result.first - p1.first)", "divides p2.second (result.first - p2.first)",
            "0 <= p1.first /\\ 0 <= p2.first -> 0 <= result.first < result.second",
            "- result.second < result.first < result.second"],
           use=["int.ComputerDivision as C", "number.Divisibility", "number.Gcd", "crt.Divis", "crt.Crt"],
           exit="""law_tmod (1 - m1) n;
let ghost cm = C.mod (1 - m1) n in
let ghost cw = wit n (1 - m1 - cm) in
assert { m2 = cm \\/ m2 = cm + n };
if m2 = cm then make n (m1 + m2 - 1) (- cw) else make n (m1 + m2 - 1) (1 - cw);
make p2.second m1 tmp_c;
assert { m1 = p2.second * tmp_c };
assert { divides p1.second (m1 - 1) };
assert { n > 0 }; assert { 0 <= tmp_c }; assert { 0 <= m1 }; assert { - n < cm < n }; assert { 0 <= m2 };
assert { 0 <= p1.first -> 0 <= m1 * p1.first }; assert { 0 <= p2.first -> 0 <= m2 * p2.first };
law_tmod (m1 * p1.first + m2 * p2.first) n;
crt_combine p1.first p2.first p1.second p2.second m1 m2 a;""")]
GROUPS = [dict(unit="u_utils.cpp", specs=U)]
HARNESS = [dict(src="c04.cpp", repo=CORE, budget=(6, 60))]
NOTE = "Proof for all coprime positive moduli and all residues of any size, from the source compiled now. Assumed: GMP's documented integer semantics."
